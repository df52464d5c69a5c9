from common import *

WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=free"]


def body(c):
    exe = c.harness("forward", ["forward.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    beh = c.behaviours("ForwardGen", cfg=pick("ForwardGen", "ForwardGenBig"), xmx="8g", workers=8)
    s = seed() * 1000
    runs = []
    for k in range(6):
        script = os.path.join(c.dir, "script%d.txt" % k)
        with open(script, "w") as f:
            for b in beh[k::6]:
                f.write("%s %s %s %s\n" % (b["k"], b["p"], ",".join(sorted(b["ops"])) or "-", " ".join(b["c"])))
        runs.append(["script", s + k, script])
    runs += [["random", s + 100 + k, pick(600, 4000)] for k in range(pick(3, 6))]
    runs += [["result", s + 200 + k, pick(600, 4000)] for k in range(pick(3, 6))]
    c.assumptions += ["an iterator, result or record to be destroyed exists", "what a record returns for setting its time to live, dropping its key and listing bin names without such an operation is not documented",
                      "a timer whose clean-up reports a failure may be kept", "whether the clean-up of a database object is called is left open"]
    files = traces(c, exe, runs, "ForwardTrace", lambda l: is_init(l) or '"o":"result"' in l, "calls on an object", jobs=6, xmx="4g")
    return files


main("M01", body)
