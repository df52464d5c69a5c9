from common import *

WRAP = ["-Wl,--wrap=clock_gettime", "-Wl,--wrap=gettimeofday", "-Wl,--wrap=time"]


def num(d):
    return sum(x * 1000 ** k for k, x in enumerate(d))


def body(c):
    vs = []
    exe = c.harness("clock", ["clock.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    beh = c.behaviours("ClockLaws", cfg=pick("ClockLaws", "ClockLawsBig"), xmx="4g")
    script, out = os.path.join(c.dir, "clock.txt"), os.path.join(c.dir, "clock.out")
    with open(script, "w") as f:
        for b in beh:
            k = b["c"]
            f.write("%s %d %d %d %d\n" % (k["f"], num(k["s"]), num(k["n"]), num(k["x"]), num(k["y"])))
    rc, _, err = c.run([exe, "script", script, out], timeout=100)
    if rc != 0:
        vs.append(harness_failure(c, "clock calls", rc, err))
    else:
        for b, l in zip(beh, open(out)):
            e = json.loads(l)
            exp, obs = [num(x) for x in b["a"]], [num(e["r"]), num(e["q"])]
            if exp != obs:
                vs.append(Violation("clock call %s: expected %s observed %s" % (l.strip(), exp, obs), key="clock " + b["c"]["f"]))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
    vs += traces(c, exe, [["random", seed() * 100 + k, pick(4000, 20000)] for k in range(4)], "ClockTrace", each, "clock call")

    # timed pops on the real queues, at instants around a second boundary
    q = explorer(c, "cqueue", "cqueue.c")
    sec = 1700000000 * 10**9
    starts = [sec + 10**9 - 50 * 10**6, sec + 10**9 - 20 * 10**6, sec, sec + 999999999, sec + 950000001, sec + 979999999, sec + 123456789]
    progs = queue_programs(c, 0, "MtTime", pick(250, 1500), starts, salt=5)
    progs += queue_programs(c, 1, "CfTime", pick(250, 1500), starts, salt=6)
    vs += explored(c, q, progs, "ConcQueueTrace", "timed queue pops", preempt=2, runs=pick(800, 3000), rand=20, extra=2, parts=5)
    c.assumptions += ["instants from the product's epoch to 2^32 seconds after it; nanosecond counts below 2^63",
                      "sequentially consistent memory"]
    return vs


main("Q05", body)
