from common import *

WRAP = ["-Wl,--wrap=usleep", "-Wl,--wrap=sleep", "-Wl,--wrap=nanosleep", "-Wl,--wrap=clock_nanosleep"]


def body(c):
    exe = c.harness("small", ["small.c"], c.lib("plain", ["-O1"]), ["-O1"], link=WRAP)
    runs = [["help", seed() * 100 + k, pick(2000, 10000)] for k in range(pick(3, 6))]
    c.assumptions += ["names longer than the system allows may be cut or refused", "sleeps up to 2^31 - 1 ms"]
    return traces(c, exe, runs, "HelpersTrace", each, "sleep or thread name", jobs=6)


main("J04", body)
