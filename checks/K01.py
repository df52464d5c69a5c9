from common import *


def body(c):
    vs = []
    lib = c.lib("asan", ASAN)
    exe = c.harness("print", ["print.c"], lib, ASAN)
    beh = c.behaviours("PrintableLaws", cfg=pick("PrintableLaws", "PrintableLawsBig"), xmx="8g")
    script = os.path.join(c.dir, "script.txt")
    with open(script, "w") as f:
        for b in beh:
            f.write(notation(b["v"]) + "\n")
    out = os.path.join(c.dir, "script.out")
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        vs.append(harness_failure(c, "printing of specified values", rc, err))
    else:
        for b, line in zip(beh, open(out)):
            e = json.loads(line)
            if (e["r"] == 1) != b["own"] or e["w"] != b["w"]:
                vs.append(Violation("printing %s: expected %r observed %r" % (
                    notation(b["v"]), bytes(b["w"]), bytes(e["w"]))))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified": beh[len(beh) // 2]})
    n = pick(60, 400)
    runs = [["random", seed() * 1000 + k, pick(1500, 8000)] for k in range(pick(4, 12))]
    for lo in (970, 2000, 1230, 1490, 230, 3030)[:pick(3, 6)]:
        runs.append(["sweep", lo + seed() % 7, lo + n])
    vs += traces(c, exe, runs, "PrintableTrace", is_init, "printing of a value", xss="256m")
    c.assumptions += ["texts contain no zero byte", "doubles are small multiples of a quarter, whose shortest decimal form is exact",
                      "no wildcard or empty-key collisions: keys of one map are distinct"]
    return vs


main("K01", body)
