from common import *


def body(c):
    vs = []
    c.model("EditRing", cfg=pick("EditRing", "EditRingBig"), workers=6, xmx=pick("4g", "10g"))
    lib = c.lib("asan", ASAN)
    exe = c.harness("editq", ["editq.c"], lib, ASAN)

    beh = c.behaviours("EditQueueGen", cfg=pick("EditQueueGen", "EditQueueGenBig"), xmx="8g")
    rng = random.Random(seed())
    script = os.path.join(c.dir, "script.txt")
    plan = []
    with open(script, "w") as f:
        for b in beh:
            rots = range(0, b["c"]) if quick() else [rng.randrange(b["c"])]
            for rot in rots:
                f.write("%d %d %d %d %d %s\n" % (b["c"], b["f"], rot, rng.choice([1, 4, 9]), rng.randrange(2),
                                                " ".join("%s:%d:%d:%d:%d" % tuple(h[0]) for h in b["h"])))
                plan.append((b, rot))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=120)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified edit sequences", rc, err))
    else:
        k, pos = -1, 0
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "init":
                k += 1
                pos = 0
                continue
            h = plan[k][0]["h"][pos]
            pos += 1
            if (e["r"], e["v"], e["see"], e["q"], e["n"]) != (h[1], h[2], h[3], h[4], len(h[4])):
                vs.append(Violation("edit queue differs from the specification: capacity %d fill %d rotation %d, call %s: expected %s observed %s" % (
                    plan[k][0]["c"], plan[k][0]["f"], plan[k][1], h[0], h[1:], e)))
                break
        c.cov["traces_validated_against_impl"] += len(plan)
        c.sample({"specified behaviour": plan[len(plan) // 3][0]})

    runs = [["random", seed() * 1000 + k, pick(100, 400), 120] for k in range(pick(6, 16))]
    vs += traces(c, exe, runs, "EditQueueTrace", is_init, "random edit history")

    plain = c.lib("plain", ["-O2"])
    lexe = c.harness("editq_long", ["editq.c"], plain, ["-O2"])
    vs += traces(c, lexe, [["long", seed(), "far"]] + [["long", seed() + k] for k in range(pick(2, 4))], "EditQueueTrace", is_init,
                 "edit queue after 2^30 and 2^32 items", timeout=700)
    c.assumptions += ["capacity at least 1", "with no verdict given, pop of the best match takes the head"]
    return vs


main("Q02", body)
