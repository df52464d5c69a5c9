from common import *


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("hex", ["hex.c"], lib, ASAN)
    beh = c.behaviours("HexTextLaws", cfg=pick("HexTextLaws", "HexTextLawsBig"), xmx="8g")
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            if b["k"] == "p":
                f.write("p %d %d %s\n" % (b["pre"], b["room"], " ".join(map(str, b["b"]))))
            else:
                f.write("s %d %s\n" % (b["room"], " ".join(map(str, b["t"]))))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified conversions", rc, err))
    else:
        for b, line in zip(beh, open(out)):
            e = json.loads(line)
            if b["k"] == "p":
                bad = (e["r"], e["t"]) != (b["e"]["ok"], b["e"]["text"])
            else:
                bad = e["r"] != b["e"]["r"] or (e["r"] >= 0 and e["b"] != b["e"]["bytes"])
            if bad:
                vs.append(Violation("conversion %s: observed %s" % (b, e)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified conversion": beh[len(beh) // 2]})
    rc, _, err = c.run([exe, "huge", os.path.join(c.dir, "huge.out")], timeout=60)
    if rc != 0:
        vs.append(harness_failure(c, "conversion of two gigabytes into a small target", rc, err))
    runs = [["random", seed() * 1000 + k, pick(3000, 10000)] for k in range(pick(4, 8))]
    vs += traces(c, exe, runs, "HexTextTrace", lambda l: True, "random conversion")
    return vs


main("Y02", body)
