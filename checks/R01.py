from common import *

SOURCES = "RAND_bytes RAND_priv_bytes RAND_seed RAND_add RAND_poll RAND_status getrandom getentropy open open64 read close".split()


def body(c):
    exe = explorer(c, "rnd", "rnd.c", wraps=SOURCES)
    beh = c.behaviours("SourceGen", cfg=pick("SourceGen", "SourceGenBig"), xmx="6g")
    rng = random.Random(seed() * 19 + 4)
    n = pick(900, 5000)
    beh = rng.sample(beh, n) if len(beh) > n else beh
    progs = ["%d" % b["fail"] + "".join("|" + " ".join(t) for t in b["th"]) for b in beh]
    # longer ones across several refills
    for _ in range(pick(200, 1500)):
        th = [["b:%d" % rng.choice([1, 3, 8, 100, 511, 2048, 4095, 4096, 8191, rng.randint(0, 8300)]) if rng.random() < .7 else rng.choice(["q:0", "w:0"])
               for _ in range(rng.randint(2, 9))] for _ in range(rng.randint(1, 3))]
        progs.append("%d" % rng.choice([0, 0, rng.randrange(1 << 10) & rng.randrange(1 << 10)]) + "".join("|" + " ".join(t) for t in th))
    c.assumptions += ["sequentially consistent memory", "the operating system's source and the TLS library's generator are stand-ins whose bytes tell their position"]
    return explored(c, exe, progs, "SourceTrace", "random material", preempt=2, runs=pick(300, 1200), rand=pick(12, 50), extra=0, parts=8)


main("R01", body)
