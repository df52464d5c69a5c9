from common import *


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("str", ["str.c"], lib, ASAN)
    beh = c.behaviours("TextLaws", cfg=pick("TextLaws", "TextLawsBig"), xmx="8g")
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            f.write("%s %d %s\n" % (b["k"], b["n"], " ".join(map(str, b["t"]))))
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "replay of specified copies and base names", rc, err))
    else:
        for b, line in zip(beh, open(out)):
            e = json.loads(line)
            if e["w"] != b["e"] or (b["k"] == "c" and e["r"] != b["cut"]) or (b["k"] == "b" and e["n"] != len(b["e"])):
                vs.append(Violation("expected %s: observed %s" % (b, e)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified": beh[len(beh) // 2]})
    runs = [["random", seed() * 1000 + k, pick(1500, 6000)] for k in range(pick(6, 12))]
    vs += traces(c, exe, runs, "TextTrace", is_init, "random string history")
    c.assumptions += ["texts contain no zero byte and a length given at creation is the text's length", "a bounded copy has a target of at least one character"]
    return vs


main("S02", body)
