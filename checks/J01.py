from common import *

WRAP = ["-Wl,--wrap=usleep", "-Wl,--wrap=sleep", "-Wl,--wrap=nanosleep", "-Wl,--wrap=clock_nanosleep"]


def body(c):
    exe = c.harness("small", ["small.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    beh = c.behaviours("LoggingGen", cfg=pick("LoggingGen", "LoggingGenBig"), xmx="4g")
    runs = []
    for k in range(6):
        script = os.path.join(c.dir, "log%d.txt" % k)
        with open(script, "w") as f:
            for b in beh[k::6]:
                f.write(" ".join(b) + "\n")
        runs.append(["log", seed() * 100 + k, script])
    c.assumptions += ["the level and the receiver are not changed while another thread writes a message"]
    return traces(c, exe, runs, "LoggingTrace", is_init, "log calls", jobs=6, xmx="4g")


main("J01", body)
