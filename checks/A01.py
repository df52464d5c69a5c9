from common import *


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("alist", ["alist.c"], lib, ASAN)
    beh = c.behaviours("ArrayListGen", cfg=pick("ArrayListGen", "ArrayListGenBig"), xmx="8g")
    rng = random.Random(seed())
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            cap, blk = b["c"]
            st = rng.randrange(2) if blk or cap == 0 else rng.randrange(3)
            f.write("%d %d %d %s\n" % (cap, blk, st, " ".join("%s:%d:%d" % (h[0][0], h[0][1], h[1]) for h in b["h"])))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified list histories", rc, err))
    else:
        k, pos = -1, 0
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "init":
                k += 1
                pos = 0
                continue
            h = beh[k]["h"][pos]
            pos += 1
            if (e["r"], e["q0"], e["n0"], e["t"], e["d"]) != (h[2], h[3], len(h[3]), h[4], h[5]):
                vs.append(Violation("array list (capacity, block)=%s: %s expected status %d contents %s first two %s rest %s, observed %s" % (
                    beh[k]["c"], [(x[0], x[1]) for x in beh[k]["h"][:pos]], h[2], h[3], h[4], h[5], e)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified behaviour": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(60, 250), 120] for k in range(pick(6, 16))]
    vs += traces(c, exe, runs, "ArrayListTrace", is_init, "random list history")
    c.assumptions += ["allocations of 2 GB and more fail in the harness"]
    return vs


main("A01", body)
