from common import *

POOLS = [(0, 16), (8, 24), (16, 16), (32, 16), (1, 65536), (24, 4096)]


def concrete(rng, th, fill):
    h, m = rng.choice(POOLS)
    room = max(m - h, 0)
    size = {"z": 0, "s": max(room // 2, 1), "x": room, "o": room + 1, "v": 2**32 - 1 - rng.choice([0, h // 2, max(h - 1, 0)])}
    line = "%d %d %d" % (h, m, fill)
    for t in th:
        calls = []
        for f in t:
            n, a = f.split(":")
            if n.startswith("take"):
                a = size[a]
            elif a == "m":
                a = 2**32 - 1
            calls.append("%s:%d" % (n, int(a)))
        line += "|" + " ".join(calls)
    return line


def body(c):
    exe = explorer(c, "bpool", "bpool.c")
    rng = random.Random(seed() * 17 + 3)
    beh = c.behaviours("BufferPoolGen", cfg=pick("BufferPoolGen", "BufferPoolGenBig"), xmx="6g")
    n = pick(1500, 9000)
    beh = rng.sample(beh, n) if len(beh) > n else beh
    progs = [concrete(rng, b["th"], b["fill"]) for b in beh]
    # longer programs, in which buffers go round several times
    names = ["take:z", "take:s", "take:x", "take:x", "take:x", "take:o", "take:v", "give:0", "give:0", "give:0", "givel:1", "givel:3", "prune:1", "prune:2"]
    long = [concrete(rng, [[rng.choice(names) for _ in range(rng.randint(3, 8))] for _ in range(rng.randint(1, 3))], rng.choice([0, 0, 1, 3]))
            for _ in range(pick(150, 1500))]
    vs = explored(c, exe, progs, "BufferPoolTrace", "pool of buffers", preempt=2, runs=pick(1500, 4000), rand=pick(20, 60), extra=0, parts=16)
    vs += explored(c, exe, long, "BufferPoolTrace", "pool of buffers", preempt=1, runs=pick(150, 400), rand=pick(100, 300), extra=0, parts=8)
    c.assumptions += ["sequentially consistent memory", "a buffer is given back with the capacity it was handed out with"]
    return vs


main("B01", body)
