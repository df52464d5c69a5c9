from common import *

TYPES = ["uint64", "int64", "uint32", "int32", "uint16", "int16", "uint8", "int8", "ptr"]
RLS = ["store", "faa", "aaf", "fas", "cas", "fence"]


def body(c):
    vs = []
    exe = explorer(c, "atom", "atom.c")
    beh = c.behaviours("AtomicGen")
    rng = random.Random(seed() * 41 + 7)

    def suits(t, f):
        if f == "setmax":
            return t in ("uint64", "uint32")
        if t == "ptr":
            return f in ("load", "load_acq", "store", "store_rls")
        if t.endswith("int8"):
            return f in ("load", "load_acq", "store", "store_rls", "cas")
        return True

    def width(t):
        return 64 if t == "ptr" else int(t.strip("uint"))

    progs = []
    for t in TYPES:
        w = width(t)
        pool = [0, 1, 2, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 0xffff % (1 << w), (1 << (w // 2)) - 1] + [rng.getrandbits(w) for _ in range(4)]
        fit = [b for b in beh if all(suits(t, f) for th in b for f in th)]
        few = [b for b in fit if sum(map(len, b)) <= 2]
        many = [b for b in fit if sum(map(len, b)) > 2]
        n = pick(150, 3000)
        singles = [b for b in few if len(b) == 1] * 8    # with several values each
        for b in singles + few + (rng.sample(many, n) if len(many) > n else many):
            v = rng.choice(pool)
            ths = []
            for th in b:
                ops = []
                for f in th:
                    a = rng.choice(pool)
                    if f == "cas" and rng.random() < 0.5:
                        a = v
                    ops.append("%s:%d:%d" % (f, a, rng.choice(pool)))
                ths.append(" ".join(ops))
            progs.append("a %s %d|%s" % (t, v, "|".join(ths)))
    vs += explored(c, exe, progs, "AtomicTrace", "operations on one variable", preempt=3, runs=400, rand=10, parts=pick(5, 6))

    pub = []
    for t in TYPES:
        w = width(t)
        rls = ["store_rls"] + (["aaf_rls", "incr_rls", "decr_rls"] if w > 8 and t != "ptr" else [])
        acq = ["load_acq"]
        if t in ("uint64", "uint32", "uint16"):
            rls += ["m_%s_rls" % x for x in RLS] + ["m_%s_seq" % x for x in RLS]
            acq += ["m_%s_acq" % x for x in ["load"] + RLS[1:]] + ["m_%s_seq" % x for x in ["load"] + RLS[1:]]
        pub += ["p %s %s %s" % (t, r, a) for r in rls for a in acq]
    vs += explored(c, exe, pub, "PublishTrace", "publication", preempt=2, runs=200, rand=5, parts=4)
    c.assumptions += ["values are checked under sequential consistency; orders are checked by happens-before between the operations' stated memory orders"]
    return vs


main("U01", body)
