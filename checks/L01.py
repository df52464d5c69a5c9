from common import *


def body(c):
    vs = []
    c.model("ChainModel", cfg=pick("ChainModel", "ChainModelBig"), workers=6, xmx=pick("4g", "10g"))
    lib = c.lib("asan", ASAN)
    exe = c.harness("ll", ["ll.c"], lib, ASAN)
    beh = c.behaviours("LinkedListGen", cfg=pick("LinkedListGen", "LinkedListGenBig"), workers=1, xmx="8g")
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            f.write("%d %s %d %d %s\n" % (b["n"], b["kind"], b["fwd"], b["vend"], " ".join(map(str, b["vd"]))))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=120)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified visits", rc, err))
    else:
        for b, line in zip(beh, open(out)):
            e = json.loads(line)
            good = (e["f"], e["b"], e["if"], e["ib"], e["n"], e["gone"], e["see"]) == (
                b["q"], b["q"][::-1], b["q"], b["q"][::-1], len(b["q"]), b["gone"], b["see"])
            if b["kind"] == "sea":
                good = good and e["v"] == b["v"]
            elif b["kind"] == "insr" or b["r"] < 0:
                good = good and e["r"] == b["r"]
            else:
                good = good and e["r"] >= 0
            if not good:
                vs.append(Violation("linked-list visit differs from the specification: %s observed %s" % (b, e)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified visit": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(60, 250), 100] for k in range(pick(6, 16))]
    vs += traces(c, exe, runs, "LinkedListTrace", is_init, "random linked-list history")
    c.assumptions += ["elements inserted are not already in a list; elements deleted are members"]
    return vs


main("L01", body)
