from common import *


def body(c):
    exe = c.harness("hashes", ["hashes.c"], c.lib("asan", ASAN), ASAN)
    top = pick(160, 420)
    runs = [["lengths", k * top // 6, (k + 1) * top // 6, seed() * 100 + k] for k in range(6)]
    runs += [[seed() * 1000 + k, pick(110, 500)] for k in range(pick(6, 12))]
    return traces(c, exe, runs, "HashesTrace", is_init, "hash of a byte string", jobs=6, timeout=200)


main("H01", body)
