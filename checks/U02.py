from common import *


def body(c):
    vs = []
    c.model("SpinLockDesign", cfg=pick("SpinLockDesign", "SpinLockDesignBig"))
    exe = explorer(c, "atom", "atom.c")
    rng = random.Random(seed() * 43 + 1)
    progs = ["s 0|w|w", "s 0|w|r", "s 0|ww|w", "s 0|w|w|w", "s 0|ww|ww", "s 0|wr|rw|w",
             "s 1|w|r", "s 1|ww|r", "s 1|w|rr", "s 1|w|r|r", "s 1|ww|rr", "s 1|r|r", "s 1|ww|r|r", "s 1|www|rr", "s 1|w|r|r|r", "s 1|rw|rr|r", "s 1|wrw|r|rr"]
    vs += explored(c, exe, progs, "SpinLockTrace", "spin lock", preempt=pick(3, 4), runs=pick(4000, 40000), rand=pick(300, 3000), parts=6)
    more = []
    for _ in range(pick(60, 600)):
        if rng.random() < 0.4:
            more.append("s 0|" + "|".join("".join(rng.choice("wr") for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(2, 5))))
        else:
            ths = ["".join(rng.choice("wwr") for _ in range(rng.randint(1, 4)))]
            ths += ["r" * rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
            more.append("s 1|" + "|".join(ths))
    vs += explored(c, exe, more, "SpinLockTrace", "spin lock, longer programs", preempt=2, runs=pick(300, 1000), rand=pick(60, 200), parts=6)
    c.assumptions += ["one thread at a time writes under the writer/readers lock", "sequentially consistent interleavings; publication checked by happens-before"]
    return vs


main("U02", body)
