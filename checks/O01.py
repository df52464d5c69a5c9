from common import *


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("omap", ["omap.c"], lib, ASAN)
    c.model("HoldMap", cfg=pick("HoldMap", "HoldMapBig"))
    beh = c.behaviours("OrderedMapGen", cfg=pick("OrderedMapGen", "OrderedMapGenBig"), xmx="8g")
    rng = random.Random(seed())
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            f.write("%d %d %d %s\n" % (rng.randrange(4), rng.randrange(4), rng.choice([0, 1, 8]),
                                       " ".join("%s%d" % (h[0][0], h[1]) for h in b)))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified map histories", rc, err))
    else:
        k, pos = -1, 0
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "init":
                k += 1
                pos = 0
                continue
            h = beh[k][pos]
            pos += 1
            present = [j + 1 for j, x in enumerate(h[2]) if x != -1]
            if (e["r"], e["n"], e["g"], e["c"], e["v"]) != (0, len(present), h[2], 1, present):
                vs.append(Violation("map history %s: expected lookups %s visit %s, observed %s" % (
                    [(x[0], x[1]) for x in beh[k][:pos]], h[2], present, e)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified behaviour": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(60, 250), 120] for k in range(pick(4, 16))]
    vs += traces(c, exe, runs, "OrderedMapTrace", is_init, "random map history")
    runs = [["big", seed() * 1000 + k] for k in range(pick(16, 64))]
    vs += traces(c, exe, runs, "BigMapTrace", is_init, "history of a large map", jobs=6)
    return vs


main("O01", body)
