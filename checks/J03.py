from common import *

WRAP = ["-Wl,--wrap=usleep", "-Wl,--wrap=sleep", "-Wl,--wrap=nanosleep", "-Wl,--wrap=clock_nanosleep"]


def body(c):
    exe = c.harness("small", ["small.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    beh = c.behaviours("DirectoryGen", cfg=pick("DirectoryGen", "DirectoryGenBig"), xmx="4g")
    rng = random.Random(seed() * 7 + 5)
    hist = [" ".join(b) for b in beh]
    for _ in range(pick(400, 4000)):    # larger directories
        names = [chr(97 + k) for k in range(rng.randint(0, 26))]
        h = [rng.choice("fd") + n for n in names] + ["o1."]
        two = False
        for _ in range(rng.randint(0, 40)):
            r = rng.random()
            if r < 0.6:
                h.append("r%d" % (2 if two and rng.random() < 0.5 else 1))
            elif r < 0.75 and names:
                h.append("g" + names.pop(rng.randrange(len(names))))
            elif r < 0.85 and not two:
                h.append("o2.")
                two = True
            else:
                n = chr(97 + rng.randrange(26))
                if n not in names:
                    names.append(n)
                    h.append("f" + n)
                else:
                    h.append("e" + n)
        hist.append(" ".join(h))
    for _ in range(pick(40, 400)):      # directories reached after their removal
        names = [chr(97 + k) for k in range(rng.randint(1, 5))]
        h = ["d" + n for n in names]
        if rng.random() < 0.5:
            h.append("o1" + rng.choice(names + ["."]))
        hist.append(" ".join(h + ["z" + n for n in names if rng.random() < 0.7]))
    runs = []
    for k in range(6):
        script = os.path.join(c.dir, "dir%d.txt" % k)
        with open(script, "w") as f:
            for h in hist[k::6]:
                f.write(h + "\n")
        runs.append(["dir", seed() * 100 + k, script])
    return traces(c, exe, runs, "DirectoryTrace", is_init, "directory calls", jobs=6, xmx="4g")


main("J03", body)
