from common import *


def body(c):
    exe = c.harness("digest", ["digest.c"], c.lib("asan", ASAN), ASAN)
    long = c.harness("digest_long", ["digest.c"], c.lib("plain", ["-O2"]), ["-O2"])
    runs = [["random", seed() * 1000 + k, pick(150, 800)] for k in range(pick(6, 12))]
    runs += [["splits", seed() * 77 + n, n] for n in pick([1, 63, 64, 65, 119, 120, 128, 130], [1, 2, 55, 56, 57, 63, 64, 65, 66, 119, 120, 121, 127, 128, 129, 191, 192, 193, 200])]
    vs = traces(c, exe, runs, "DigestsTrace", is_init, "digest", jobs=6, timeout=200)
    # lengths whose count of bits, or of bytes, does not fit 32 bits
    big = [[f, k] for f in ("sha", "rmd", "fed") for k in (1, 2)]
    vs += traces(c, long, [["zeros", f, k] for f, k in big], "DigestsTrace", each, "digest of a very long input", timeout=400)
    return vs


main("D01", body)
