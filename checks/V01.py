from common import *

WRAP = ["-Wl,--wrap=" + f for f in "malloc calloc realloc strdup strndup free".split()]


def body(c):
    rng = random.Random(seed() * 23 + 6)
    short = c.behaviours("OwnershipGen", cfg=pick("OwnershipGen", "OwnershipGenBig"), xmx="8g", workers=8)
    n = pick(25000, 100000)
    short = rng.sample(short, n) if len(short) > n else short

    pre = c.behaviours("OwnershipGen", cfg=pick("OwnershipGenPre", "OwnershipGenPreBig"), xmx="8g", workers=8)
    pre = rng.sample(pre, n) if len(pre) > n else pre

    def sim(k):
        return c.behaviours("OwnershipGen", cfg="OwnershipGenSim", workers=1, tag="sim%d" % k,
                            extra=["-simulate", "num=%d" % pick(350, 2500), "-depth", "31", "-seed", str(seed() * 100 + k)])

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        long = [h for r in ex.map(sim, range(8)) for h in r]
    hist = short + pre + long
    exe = c.harness("own", ["own.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    files = []
    for k in range(8):
        src = os.path.join(c.dir, "own_%d.txt" % k)
        with open(src, "w") as f:
            for h in hist[k::8]:
                f.write("%d " % rng.randrange(1 << 20) + ";".join("%s %s %d %d %d %d" % (e["f"], e["k"] or "-", e["a"], e["b"], e["l"], e["n"]) for e in h) + "\n")
        files.append(src)

    def run(src):
        out = src[:-4] + ".ndjson"
        return out, c.run([exe, src, out], timeout=300)

    vs, traces = [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, files))
    for f, (rc, out, err) in res:
        if rc != 0:
            vs.append(harness_failure(c, "ownership", rc, err))
            continue
        traces += chunks(f, 30000)
    c.cov["traces_validated_against_impl"] += len(hist)
    for f, idx, msg in c.validate("OwnershipTrace", traces, jobs=6):
        seg = segment(f, idx, is_init)
        vs.append(Violation("ownership: %s is not what the references say" % (seg[-1] if seg else ""), "\n".join(seg), key="ownership"))
    return vs


main("V01", body)
