from common import *


def body(c):
    exe = c.harness("b64", ["b64.c"], c.lib("asan", ASAN), ASAN)
    long = c.harness("b64_long", ["b64.c"], c.lib("plain", ["-O2"]), ["-O2"])
    beh = c.behaviours("Base64Laws", cfg=pick("Base64Laws", "Base64LawsBig"), xmx="8g")
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            f.write("%s %s\n" % (b["k"], " ".join(map(str, b["v"]))))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=300)
    vs = []
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified texts", rc, err))
    else:
        exp = {(b["k"], tuple(b["v"])): b for b in beh}
        for line in open(out):
            e = json.loads(line)
            if e["o"] == "enc":
                b = exp[("e", tuple(e["b"]))]
                good = e["t"] == b["e"] and e["n"] == len(b["e"])
            else:
                b = exp[("d", tuple(e["t"]))]
                if e["v"]:
                    good = bool(e["r"]) == b["ok"]
                else:
                    good = True
                if e["r"] and b["ok"]:
                    good = good and e["b"] == b["e"] and (e["z"] or e["n"] == len(b["e"]))
            if not good:
                vs.append(Violation("expected %s: observed %s" % (b, e)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(1200, 5000)] for k in range(pick(6, 12))]
    vs += traces(c, exe, runs, "Base64Trace", each, "random texts", jobs=6)
    vs += traces(c, long, [["huge"]], "Base64Trace", each, "very long texts")
    c.assumptions += ["unvalidated decoding is given well-formed text", "text whose unused last bits are not zero counts as well-formed"]
    return vs


main("G01", body)
