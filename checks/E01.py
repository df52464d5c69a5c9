from common import *


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("vector", ["vector.c"], lib, ASAN)
    beh = c.behaviours("VectorGen", cfg=pick("VectorGen", "VectorGenBig"), xmx="8g")
    rng = random.Random(seed())
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            f.write("%d %d %d %s\n" % (b["c"], rng.choice([1, 4, 7]), rng.randrange(3),
                                      " ".join("%s:%d:%d" % tuple(h[0]) for h in b["h"])))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified array histories", rc, err))
    else:
        k, pos = -1, 0
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "init":
                k += 1
                pos = 0
                continue
            h = beh[k]["h"][pos]
            pos += 1
            if (e["r"], e["q"], e["arr"], e["n"], e["arrn"]) != (h[1], h[2], h[2], len(h[2]), len(h[2])):
                vs.append(Violation("dynamic array differs from the specification: %s expected %s observed %s" % (
                    [x[0] for x in beh[k]["h"][:pos]], h, e)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified behaviour": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(100, 400), 100] for k in range(pick(6, 16))]
    vs += traces(c, exe, runs, "VectorTrace", is_init, "random array history")

    # storage beyond 4 GB
    hexe = c.harness("vector_huge", ["vector.c"], c.lib("plain", ["-O2"]), ["-O2"])
    vs += traces(c, hexe, [["huge", 40], ["huge", 70]][:pick(1, 2)], "VectorTrace", is_init, "array beyond 4 GB", jobs=1)
    c.assumptions += ["initial capacity at least 1", "get/set positions below the size (unchecked by contract)"]
    return vs


main("E01", body)
