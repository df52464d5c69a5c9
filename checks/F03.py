from common import *

WRAP = ["-Wl,--wrap=" + f for f in "malloc calloc realloc strdup strndup free".split()]


def body(c):
    exe = c.harness("cfault", ["cfault.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    s = seed() * 1000
    rng = random.Random(seed() * 37 + 3)
    runs = [["text", s + k, pick(130, 1000)] for k in range(pick(4, 12))]
    runs += [["edge", s, k * b] for b in (256, 1024) for k in pick((1, 2), (1, 2, 3, 4))]
    lines = ["T " + notation(b["v"]) for b in c.behaviours("PrintableLaws", xmx="8g")]
    built = [b for b in c.behaviours("StringBuilderGen", xmx="8g") if b["c"][1] == 1]
    lines = rng.sample(lines, min(len(lines), pick(1500, 10000)))
    for b in rng.sample(built, min(len(built), pick(1500, 6000))):
        lines.append("S %d %d %s" % (b["c"][0], rng.randrange(2), " ".join("%s:%s" % (h[0][0], bytes(h[0][1]).hex()) for h in b["h"])))
    names = [b for b in c.behaviours("TextLaws", xmx="4g") if b["k"] == "b"]
    for b in rng.sample(names, min(len(names), pick(800, 4000))):
        lines.append("N " + bytes(b["t"]).hex())
    for k in range(4):
        script = os.path.join(c.dir, "texts%d.txt" % k)
        with open(script, "w") as f:
            f.write("".join(l + "\n" for l in lines[k::4]))
        runs.append(["script", script])
    return traces(c, exe, runs, "FaultTextTrace", is_init, "making a text with a failed allocation", jobs=6, xss="256m", xmx="4g")


main("F03", body)
