from common import *


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("iter", ["iter.c"], lib, ASAN)
    beh = c.behaviours("IterationGen", cfg=pick("IterationGen", "IterationGenBig"), xmx="8g")
    rng = random.Random(seed())
    script = os.path.join(c.dir, "script.txt")
    beh = [(kind, rng.randrange(4), b) for b in beh for kind in (0, 1)]
    with open(script, "w") as f:
        for kind, how, b in beh:
            f.write("%d %d %d %s\n" % (kind, b["n"], how, " ".join("%s%d" % (h[0], h[1]) for h in b["h"])))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified iterations", rc, err))
    else:
        k, pos = -1, 0
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "init":
                k += 1
                pos = 0
                continue
            kind, how, b = beh[k]
            h = b["h"][pos]
            pos += 1
            if e["r"] != h[2]:
                vs.append(Violation("%s of %d elements: calls %s: expected %d, observed %d" % (
                    "map" if kind else "list", b["n"], b["h"][:pos], h[2], e["r"])))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified behaviour": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(100, 400), 60] for k in range(pick(6, 16))]
    vs += traces(c, exe, runs, "IterationTrace", is_init, "random iteration")
    return vs


main("I01", body)
