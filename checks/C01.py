from common import *

FORMS = "int64 double str integer as_double string bytes list map geojson boolean nil".split()


def body(c):
    exe = c.harness("typed", ["typed.c"], c.lib("asan", ASAN), ASAN)
    beh = c.behaviours("TypedGen", cfg=pick("TypedGen", "TypedGenBig"), xmx="8g", workers=8)
    rng = random.Random(seed() * 29 + 3)
    n = pick(12000, 60000)
    beh = rng.sample(beh, n) if len(beh) > n else beh
    hist = [(b["c"], b["h"]) for b in beh]
    for _ in range(pick(1500, 12000)):      # longer ones
        kind, h = rng.choice("agfhm"), []
        for k in range(rng.randint(3, 14)):
            h.append({"op": "set" if kind == "m" else rng.choice(["append", "prepend", "insert", "set"]), "form": rng.choice(FORMS),
                      "i": rng.randrange(5) if kind == "m" else rng.randint(0, k + 2), "v": rng.randint(1, 200)})
        hist.append((kind, h))
    runs = []
    for k in range(6):
        script = os.path.join(c.dir, "typed%d.txt" % k)
        with open(script, "w") as f:
            for j, (kind, h) in enumerate(hist[k::6]):
                f.write("%s%d" % (kind, j % 2) + ";".join("%s %s %d %d" % (e["op"], e["form"], e["i"], e["v"]) for e in h) + "\n")
        runs.append([script])
    return traces(c, exe, runs, "TypedTrace", is_init, "typed access", jobs=6, xmx="4g")


main("C01", body)
