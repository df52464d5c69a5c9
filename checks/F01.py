from common import *

WRAP = ["-Wl,--wrap=" + f for f in "malloc calloc realloc strdup strndup free".split()]


def body(c):
    rng = random.Random(seed() * 29 + 1)
    hist = []
    for part, quick, deep in (("List", 5000, 16000), ("Map", 1200, 8000), ("Queue", 4000, 40000), ("Bytes", 3000, 7000)):
        h = c.behaviours("FaultsGen", cfg="FaultsGen" + part, xmx="6g", workers=8)
        n = pick(quick, deep)
        hist += rng.sample(h, n) if len(h) > n else h

    def sim(k):
        return c.behaviours("FaultsGen", cfg="FaultsGenSim", workers=1, tag="sim%d" % k,
                            extra=["-simulate", "num=%d" % pick(300, 1500), "-depth", "14", "-seed", str(seed() * 100 + k)])

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        hist += [h for r in ex.map(sim, range(4)) for h in r]
    rng.shuffle(hist)
    exe = c.harness("fault", ["fault.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    return fault_runs(c, exe, hist, lambda e: "%s %s %d %d %d" % (e["o"], e["k"] or "-", e["a"], e["b"], e["t"]),
                      "FaultsTrace", "container with a failed allocation")


main("F01", body)
