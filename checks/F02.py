from common import *

WRAP = ["-Wl,--wrap=" + f for f in "malloc calloc realloc strdup strndup free".split()]


def body(c):
    exe = c.harness("cfault", ["cfault.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    s = seed() * 1000
    runs = [["wire", s + k, pick(40, 300)] for k in range(pick(8, 16))]
    beh = c.behaviours("MsgpackLaws", cfg=pick("MsgpackLaws", "MsgpackLawsBig"), xmx="6g", xss="64m")
    rng = random.Random(seed() * 31 + 2)
    beh = [b for b in beh if b["v"]["t"] in ("list", "map")] + rng.sample(beh, min(len(beh), pick(100, 400)))
    n = pick(600, 4000)
    if len(beh) > n:
        beh = rng.sample(beh, n)
    for k in range(4):
        script = os.path.join(c.dir, "values%d.txt" % k)
        with open(script, "w") as f:
            for b in beh[k::4]:
                f.write("W %s %s\n" % (notation(b["v"]), notation(rng.choice(beh)["v"])))
        runs.append(["script", script])
    return traces(c, exe, runs, "FaultCodecTrace", is_init, "encoding, decoding or comparing with a failed allocation",
                  jobs=6, xss="512m", xmx="4g")


main("F02", body)
