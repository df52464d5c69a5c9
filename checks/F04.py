from common import *

WRAP = ["-Wl,--wrap=" + f for f in "malloc calloc realloc strdup free pthread_mutex_init pthread_mutex_destroy pthread_cond_init pthread_cond_destroy".split()]


def body(c):
    hist = c.behaviours("MakersGen", xmx="4g", workers=8)

    def sim(k):
        return c.behaviours("MakersGen", cfg="MakersGenSim", workers=1, tag="sim%d" % k,
                            extra=["-simulate", "num=%d" % pick(60, 1500), "-depth", "6", "-seed", str(seed() * 100 + k)])

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        more = [h for r in ex.map(sim, range(4)) for h in r]
    # every successor of a simulated history is reported: keep some
    hist += random.Random(seed() * 31 + 4).sample(more, min(len(more), pick(3000, 40000)))
    exe = c.harness("makers", ["makers.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    c.assumptions += ["whether a value given to an object that could not be made is dropped is left open",
                      "an allocation that fails later, while a dynamic array grows or a thread pool is stopped, is not covered"]
    return fault_runs(c, exe, hist, lambda e: "%s %d %s %d" % (e["o"], e["i"], e["k"], e["n"]), "MakersTrace", "objects with a failed allocation")


main("F04", body)
