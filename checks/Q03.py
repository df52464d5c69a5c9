from common import *

MENU = {
    0: [("push", 0), ("pushh", 0), ("pop", 0), ("popt", 0), ("size", 0), ("empty", 0), ("pop", 0), ("push", 0)],
    1: [("push", 0), ("pushh", 0), ("pushl", 2), ("pushi", 0), ("pushi", 1), ("pushu", 0), ("peek", 0), ("pop", 0),
        ("redp", 0), ("red", 0), ("redr", 0), ("del1", 0), ("dela", 0), ("clear", 0), ("pop", 0)],
}


def body(c):
    vs = []
    exe = explorer(c, "cqueue", "cqueue.c")
    progs = queue_programs(c, 0, "Mt", pick(250, 3000), salt=1)
    progs += queue_programs(c, 1, pick("Cf", "CfBig"), pick(400, 5000), salt=2)
    vs += explored(c, exe, progs, "ConcQueueTrace", "concurrent queue calls", preempt=2, runs=pick(1500, 6000), rand=pick(30, 100), parts=pick(5, 6))

    # longer programs of up to five threads at random schedules
    rng = random.Random(seed() * 7 + 3)
    long = []
    for k in range(pick(120, 600)):
        kind = k % 2
        th = [[rng.choice(MENU[kind]) for _ in range(rng.randint(2, 5))] for _ in range(rng.randint(2, 5))]
        cap = rng.randint(1, 3)
        long.append(queue_program(rng, kind, cap, rng.randint(0, cap), th, [1700000000 * 10**9]))
    vs += explored(c, exe, long, "ConcQueueTrace", "longer concurrent queue programs", preempt=1, runs=40, rand=pick(40, 80), parts=pick(3, 6))
    c.assumptions += ["sequentially consistent memory: every access is a scheduling point, accesses are not reordered",
                      "the unlocked size of the general queue is not combined with bulk deletions"]
    return vs


main("Q03", body)
