from common import *


def body(c):
    exe = c.harness("rng", ["rng.c"], c.lib("asan", ASAN), ASAN)
    runs = [[seed() * 1000 + k, pick(500, 1500)] for k in range(pick(6, 20))]
    return traces(c, exe, runs, "XorshiftTrace", is_init, "draws from a random instance", jobs=6)


main("R02", body)
