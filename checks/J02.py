from common import *

WRAP = ["-Wl,--wrap=usleep", "-Wl,--wrap=sleep", "-Wl,--wrap=nanosleep", "-Wl,--wrap=clock_nanosleep"]


def body(c):
    exe = c.harness("small", ["small.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    beh = c.behaviours("ByteOrderGen", cfg=pick("ByteOrderGen", "ByteOrderGenBig"), xmx="4g")
    runs = []
    for k in range(6):
        script = os.path.join(c.dir, "order%d.txt" % k)
        with open(script, "w") as f:
            for b in beh[k::6]:
                f.write("%d %d\n" % (len(b), int.from_bytes(bytes(b), "big")))
        runs.append(["order", seed() * 100 + k, script])
    return traces(c, exe, runs, "ByteOrderTrace", each, "byte order conversion", jobs=6, xmx="4g")


main("J02", body)
