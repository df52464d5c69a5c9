from common import *


def agrees(exp, obs):
    return len(exp) == len(obs) and all(a == -1 or a == b for a, b in zip(exp, obs))


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("bytes", ["bytes.c"], lib, ASAN)
    beh = c.behaviours("ByteBufferGen", cfg=pick("ByteBufferGen", "ByteBufferGenBig"), xmx="8g")
    rng = random.Random(seed())
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            cap, wrap = b["c"]
            st = rng.choice([3, 4]) if wrap else rng.choice([0, 1, 2])
            f.write("%d %d %s\n" % (cap, st, " ".join("%s:%d:%d" % tuple(h[0]) for h in b["h"])))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified byte buffer histories", rc, err))
    else:
        k, pos = -1, 0
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "init":
                k += 1
                pos = 0
                continue
            call, r, w, q, cap = beh[k]["h"][pos]
            pos += 1
            if e["r"] != r or not agrees(w, e["w"]) or not agrees(q, e["q"]) or e["n"] != len(q) or e["c"] != cap:
                vs.append(Violation("byte buffer (capacity, wrapping)=%s: %s expected %s, observed %s" % (
                    beh[k]["c"], [x[0] for x in beh[k]["h"][:pos]], (r, w, q, cap), e)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified behaviour": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(100, 400), 100] for k in range(pick(6, 16))]
    vs += traces(c, exe, runs, "ByteBufferTrace", is_init, "random byte buffer history")
    return vs


main("Y01", body)
