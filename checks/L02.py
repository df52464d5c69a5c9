from common import *

BRINGS = ("pre", "app", "aft", "bef", "insf", "insb")
CALLS = BRINGS + ("del", "redf", "redb", "seef", "seeb", "srch", "size")


def program(fill, threads):
    dels = iter(range(2, fill + 1))
    res = []
    for t, th in enumerate(threads):
        res.append(" ".join("%s:%d" % (f, 10 * (t + 1) + k if f in BRINGS else next(dels) if f == "del" else 0) for k, f in enumerate(th)))
    return "%d|%s" % (fill, "|".join(res))


def body(c):
    exe = explorer(c, "clist", "clist.c")
    beh = c.behaviours("ConcListGen", cfg=pick("ConcListGen", "ConcListGenBig"), xmx="6g")
    rng = random.Random(seed() * 37 + 5)
    small = [b for b in beh if sum(len(t) for t in b["th"]) == 2]
    rest = [b for b in beh if sum(len(t) for t in b["th"]) > 2]
    n = pick(500, 6000)
    progs = [program(b["fill"], b["th"]) for b in small + (rng.sample(rest, n) if len(rest) > n else rest)]
    vs = explored(c, exe, progs, "ConcListTrace", "concurrent list calls", preempt=2, runs=pick(600, 3000), rand=pick(20, 80), parts=pick(5, 6))
    long = []
    for k in range(pick(100, 500)):
        ths = [[rng.choice(BRINGS + CALLS[7:]) for _ in range(rng.randint(2, 5))] for _ in range(rng.randint(2, 4))]
        fill = rng.randint(1, 4)
        for j in rng.sample(range(len(ths)), min(fill - 1, len(ths))):
            ths[j][rng.randrange(len(ths[j]))] = "del"
        long.append(program(fill, ths))
    vs += explored(c, exe, long, "ConcListTrace", "longer concurrent list programs", preempt=1, runs=40, rand=pick(40, 80), parts=pick(3, 6))
    c.assumptions += ["sequentially consistent memory: every access is a scheduling point, accesses are not reordered",
                      "an element named in a call is in the list; reading heads, neighbours, positions and iterators is not locked"]
    return vs


main("L02", body)
