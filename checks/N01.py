from common import *


def body(c):
    c.model("MonitorDesign", cfg=pick("MonitorDesign", "MonitorDesignBig"), workers=4)
    exe = explorer(c, "monitor", "monitor.c")
    progs = ["".join(p) for p in c.behaviours("MonitorGen", cfg=pick("MonitorGen", "MonitorGenBig"))]
    n = pick(700, 4000)
    rng = random.Random(seed() * 7 + 5)
    last = [p for p in progs if p.endswith("x")]
    progs = rng.sample(progs, n) if len(progs) > n else progs
    progs += [p for p in last if p not in progs]
    c.assumptions += ["sequentially consistent memory", "one thread re-arms and waits; any number notify"]
    return explored(c, exe, progs, "MonitorTrace", "completion monitor", preempt=3, runs=pick(3000, 8000), rand=pick(60, 200), extra=2, parts=8)


main("N01", body)
