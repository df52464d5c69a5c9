from common import *


def body(c):
    vs = []
    for cfg in pick(["CondQueue"], ["CondQueue", "CondQueueTwo", "CondQueueFive"]):
        c.model("CondQueue", cfg=cfg, workers=6, xmx="8g")
    exe = explorer(c, "cqueue", "cqueue.c")
    progs = queue_programs(c, 0, pick("MtWait", "MtWaitBig"), pick(300, 4000), salt=3)
    progs += queue_programs(c, 1, pick("CfWait", "CfWaitBig"), pick(300, 4000), salt=4)
    vs += explored(c, exe, progs, "ConcQueueTrace", "waiting queue calls", preempt=2, runs=pick(1500, 6000), rand=pick(30, 100), extra=2, parts=pick(5, 6))
    rng = random.Random(seed() * 7 + 4)
    menu = {0: [("push", 0), ("pushh", 0), ("pop", -1), ("popt", -1), ("pop", 30), ("pop", 0)],
            1: [("push", 0), ("pushh", 0), ("pushl", 2), ("pushi", 0), ("pushu", 0), ("pop", -1), ("redp", -1), ("redp", 30), ("pop", 0), ("pop", -2)]}
    long = []
    for k in range(pick(100, 500)):
        kind = k % 2
        th = [[rng.choice(menu[kind]) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 5))]
        cap = rng.randint(1, 3)
        long.append(queue_program(rng, kind, cap, rng.randint(0, cap), th, [1700000000 * 10**9]))
    vs += explored(c, exe, long, "ConcQueueTrace", "longer waiting queue programs", preempt=1, runs=40, rand=pick(40, 80), extra=3, parts=pick(3, 6))
    c.assumptions += ["sequentially consistent memory", "at most two spurious wake-ups or early deadlines per small program, three per long one"]
    return vs


main("Q04", body)
