from common import *


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("sb", ["sb.c"], lib, ASAN)
    beh = c.behaviours("StringBuilderGen", cfg=pick("StringBuilderGen", "StringBuilderGenBig"), xmx="8g")
    rng = random.Random(seed())
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            cap, g = b["c"]
            f.write("%d %d %d %s\n" % (cap, g, rng.randrange(2) if g else rng.randrange(3),
                                      " ".join("%s:%s" % (h[0][0], bytes(h[0][1]).hex()) for h in b["h"])))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified string-builder histories", rc, err))
    else:
        k, pos = -1, 0
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "init":
                k += 1
                pos = 0
                continue
            h = beh[k]["h"][pos]
            pos += 1
            if (e["r"], e["d"], e["n"], e["z"]) != (h[1], h[2], len(h[2]), 0):
                vs.append(Violation("string builder (capacity, grow)=%s: %s expected result %d text %s, observed result %d text %s length %d" % (
                    beh[k]["c"], [(x[0][0], bytes(x[0][1])) for x in beh[k]["h"][:pos]], h[1], bytes(h[2]), e["r"], bytes(e["d"]), e["n"])))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified behaviour": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(400, 1500), 12] for k in range(pick(6, 16))]
    vs += traces(c, exe, runs, "StringBuilderTrace", is_init, "random string-builder history")

    # texts near 2^32 characters
    hexe = c.harness("sb_huge", ["sb.c"], c.lib("plain", ["-O2"]), ["-O2"])
    vs += traces(c, hexe, [["huge", k] for k in range(3)], "StringBuilderLongTrace", is_init, "text of 2^32 characters", jobs=1)
    c.assumptions += ["capacity at least 1 (room for the terminator)", "appended characters are not NUL"]
    return vs


main("S01", body)
