from common import *


def body(c):
    vs = []
    c.model("RingQueue", cfg=pick("RingQueue", "RingQueueBig"), workers=6, xmx=pick("4g", "10g"), timeout=800)
    lib = c.lib("asan", ASAN)
    exe = c.harness("deque", ["deque.c"], lib, ASAN)

    # every operation sequence up to the depth, from the specification
    beh = c.behaviours("DequeGen", cfg=pick("DequeGen", "DequeGenBig"), workers=4, xmx="8g")
    rng = random.Random(seed())
    script = os.path.join(c.dir, "script.txt")
    metas = []
    with open(script, "w") as f:
        for b in beh:
            isz = rng.choice([1, 3, 8])
            st = rng.randrange(3)
            f.write("%d %d %d %s\n" % (b["c"], isz, st, " ".join(
                "%s:%d" % (h[0], h[1]) if h[0].startswith("push") else h[0] for h in b["h"])))
            metas.append((b["c"], isz, st))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=120)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified operation sequences", rc, err))
    else:
        k = -1
        pos = 0
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "init":
                k += 1
                pos = 0
                continue
            h = beh[k]["h"][pos]
            pos += 1
            good = e["o"] == h[0] and e["r"] == h[2] and e["n"] == h[4] and e["e"] == (1 if h[4] == 0 else 0)
            if h[0] in ("pop", "popt"):
                good = good and e["v"] == h[3]
            if not good:
                vs.append(Violation("queue differs from the specification: capacity %d item size %d storage %d, %s: expected %s observed %s" % (
                    metas[k] + (beh[k]["h"][:pos], h, e))))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified behaviour": beh[len(beh) // 2]})

    runs = [["random", seed() * 1000 + k, pick(150, 500), 120] for k in range(pick(6, 16))]
    vs += traces(c, exe, runs, "DequeTrace", is_init, "random queue history")

    # more than 2^30, and 2^32, items without ever emptying
    plain = c.lib("plain", ["-O2"])
    lexe = c.harness("deque_long", ["deque.c"], plain, ["-O2"])
    vs += traces(c, lexe, [["long", seed(), "far"]] + [["long", seed() + k] for k in range(pick(2, 4))], "DequeTrace", is_init,
                 "queue after 2^30 and 2^32 items", timeout=700)
    # storage beyond 4 GB
    vs += traces(c, lexe, [["huge", k] for k in range(3)], "DequeTrace", is_init, "queue beyond 4 GB", jobs=1)
    c.assumptions += ["capacity at least 1 and below 2^30", "item identity is carried in the item bytes"]
    return vs


main("Q01", body)
