from common import *


def body(c):
    exe = explorer(c, "refs", "refs.c")
    beh = c.behaviours("RefsGen", cfg=pick("RefsGen", "RefsGenBig"), xmx="6g")
    rng = random.Random(seed() * 11 + 2)
    n = pick(1100, 6000)
    beh = rng.sample(beh, n) if len(beh) > n else beh
    line = lambda k, th: k + "".join("|" + "".join(t) for t in th)
    progs = [line(b["k"], b["th"]) for b in beh]
    # three threads of every kind
    for k in "cfidtsgbplm":
        progs += [line(k, th) for th in (("d", "d", "d"), ("ud", "ud", "d"), ("rdud", "rdd", "d"), ("rudd", "ud", "rdd"))]
    c.assumptions += ["interleavings are sequentially consistent; a release must in addition be ordered after other threads' uses by the memory orders asked for"]
    return explored(c, exe, progs, "RefsTrace", "shared object", preempt=3, runs=pick(1500, 5000), rand=pick(30, 100), extra=0, parts=8)


main("V02", body)
