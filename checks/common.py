"""Imports shared by the checks."""
import json
import os
import random
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
from vlib import *  # noqa: F401,F403,E402
import vlib  # noqa: E402


def traces(c, exe, runs, module, start, what, jobs=4, cfg=None, env=None, timeout=120, **kw):
    """Runs the harness once per argument list in runs (the trace file name is
    appended), validates every trace with TLC, and turns rejections into
    violations. start(line) recognises the first event of a scenario."""
    vs, files = [], []

    def one(k):
        f = os.path.join(c.dir, "t_%s_%d.ndjson" % (os.path.basename(exe), k))
        rc, out, err = c.run([exe] + [str(a) for a in runs[k]] + [f], timeout=timeout)
        return f, rc, err

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(runs))))
    for k, (f, rc, err) in enumerate(res):
        if rc != 0:
            v = harness_failure(c, "%s (run %s)" % (what, " ".join(map(str, runs[k]))), rc, err)
            if os.path.exists(f):
                n = count_lines(f)
                v.detail += "\nlast recorded events:\n" + "\n".join(segment(f, n, start)[-60:])
            vs.append(v)
        else:
            files.append(f)
            n = sum(1 for l in open(f) if start(l))
            c.cov["traces_validated_against_impl"] += n
    if files:
        ls = read_lines(files[0], 1, 400)
        c.sample({"trace": ls[:12]})
    for f, idx, msg in c.validate(module, files, cfg=cfg, env=env, jobs=jobs, **kw):
        seg = segment(f, idx, start)
        vs.append(Violation("%s: recorded history leaves the specification: %s :: %s" % (
            what, msg.replace("\n", " "), seg[-1] if seg else ""), "\n".join(seg),
            key="%s %s %s" % (what, msg.replace("\n", " "), seg[-1] if seg else "")))
    return vs


import concurrent.futures  # noqa: E402


def is_init(line):
    return '"o":"init"' in line


def notation(v):
    """Text notation of a value record (see harness/val.h)."""
    t = v["t"]
    hx = lambda: "".join("%02x" % b for b in v["b"])
    word = lambda: sum(x << (48 - 16 * k) for k, x in enumerate(v["w"]))
    if t == "none":
        return "0."
    if t == "nil":
        return "N."
    if t == "bool":
        return "T." if v["v"] else "F."
    if t == "int":
        x = word()
        return "I%d." % (x - (1 << 64) if x >> 63 else x)
    if t == "dbl":
        return "D%016x." % word()
    if t == "str":
        return "S%s." % hx()
    if t == "geo":
        return "G%s." % hx()
    if t == "bin":
        return "B%d:%s." % (v["k"], hx())
    if t == "list":
        return "L%d." % len(v["e"]) + "".join(notation(e) for e in v["e"])
    if t == "map":
        return "M%d:%d." % (v["f"], len(v["e"])) + "".join(notation(k) + notation(x) for k, x in v["e"])
    if t == "pair":
        return "P." + notation(v["e"][0]) + notation(v["e"][1])
    return {"wild": "W.", "inf": "Y."}[t]


def each(line):
    """Every event is a scenario of its own."""
    return True


def wire(c):
    return c.harness("pack", ["pack.c"], c.lib("asan", ASAN), ASAN)


def wire_values(c, exe, fields):
    """Every value of the universe of MsgpackLaws through the real code; fields
    tells which results to hold against the specification."""
    beh = c.behaviours("MsgpackLaws", cfg=pick("MsgpackLaws", "MsgpackLawsBig"), xmx="6g", xss="64m")
    script, out = os.path.join(c.dir, "values.txt"), os.path.join(c.dir, "values.out")
    with open(script, "w") as f:
        for b in beh:
            f.write("E %s %s\n" % (notation(b["v"]), bytes(b["b"]).hex()))
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        return [harness_failure(c, "encoding and decoding of specified values", rc, err)]
    vs = []
    rank = {"nil": 1, "bool": 2, "int": 3, "str": 4, "list": 5, "map": 6, "bin": 9, "dbl": 10, "geo": 11}
    for b, line in zip(beh, open(out)):
        e = json.loads(line)
        n = len(b["b"])
        want = {"b": b["b"], "ms": n, "gs": n, "rc": 0, "n": n, "d": b["v"], "sz": n, "pre": 0,
                "peek": rank[b["v"]["t"]], "type": rank[b["v"]["t"]]}
        bad = [k for k in fields if e[k] != want[k]]
        if bad:
            k = bad[0]
            vs.append(Violation("value %s: %s expected %r observed %r" % (notation(b["v"]), k, want[k], e[k])))
            break
    c.cov["traces_validated_against_impl"] += len(beh)
    c.sample({"specified": beh[len(beh) // 2]})
    return vs


def wire_pairs(c, exe, fields):
    """Every pair of values of OrderLaws compared by the real code."""
    beh = c.behaviours("OrderLaws", xmx="6g", xss="64m")
    script, out = os.path.join(c.dir, "pairs.txt"), os.path.join(c.dir, "pairs.out")
    with open(script, "w") as f:
        for b in beh:
            f.write("C %s %s\n" % (notation(b["a"]), notation(b["c"])))
    rc, _, err = c.run([exe, "script", script, out], timeout=200)
    if rc != 0:
        return [harness_failure(c, "comparison of specified values", rc, err)]
    vs = []
    for b, line in zip(beh, open(out)):
        e = json.loads(line)
        bad = [k for k in fields if e[k] != (1 if k == "al" else b["r"])]
        if bad:
            vs.append(Violation("comparing %s with %s: %s expected %s observed %s" % (
                notation(b["a"]), notation(b["c"]), {"m": "in memory", "r": "encoded", "w": "encoded with other widths", "al": "cursors"}[bad[0]],
                b["r"], e[bad[0]])))
            break
    c.cov["traces_validated_against_impl"] += len(beh)
    c.sample({"specified": beh[len(beh) // 2]})
    return vs


# ------------------------------------------------------- explored schedules
WRAPS = """malloc calloc realloc free valloc strdup strndup memcpy memmove memset memcmp
__memcpy_chk __memmove_chk __memset_chk pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait
pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_create
pthread_join pthread_detach pthread_self pthread_setname_np prctl pthread_spin_init pthread_spin_destroy
pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_rwlock_init pthread_rwlock_destroy
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once sched_yield usleep
nanosleep clock_gettime gettimeofday time""".split()
POINTS = ["-O1", "-g", "-fsanitize=thread"]


def explorer(c, name, source, wraps=()):
    """Builds a driver whose threads run under harness/explore.c: every memory
    access and pthread call of the repository's code is a scheduling point."""
    lib = c.lib("points", POINTS)
    obj = os.path.join(c.dir, "obj_points")
    for o in os.listdir(obj):
        c._cc(["objcopy", "--rename-section", ".bss=libbss,alloc,load,data,contents", "--rename-section", ".data=libdata",
               os.path.join(obj, o)])
    objs = [os.path.join(obj, o) for o in sorted(os.listdir(obj))]
    rt, drv, exe = (os.path.join(c.dir, name + x) for x in ("_rt.o", "_drv.o", ""))
    inc = ["-I", os.path.join(vlib.REPO, "src/include"), "-I", vlib.HARNESS, "-D_GNU_SOURCE"]
    c._cc(["gcc", "-std=gnu11", "-O2", "-g", "-w", "-c", os.path.join(vlib.HARNESS, "explore.c"), "-o", rt] + inc)
    c._cc(["gcc", "-std=gnu11", "-O0", "-g", "-w", "-fsanitize=thread", "-c", os.path.join(vlib.HARNESS, source), "-o", drv] + inc)
    c._cc(["gcc", drv, rt] + objs + ["-o", exe] + ["-Wl,--wrap=" + w for w in WRAPS + list(wraps)]
          + ["-lssl", "-lcrypto", "-lpthread", "-lm", "-lz"])
    return exe


def chunks(f, most=18000):
    """Splits a file of histories; TLC explores behaviours of at most 65535 steps."""
    res, o, n = [], None, 0
    for l in open(f):
        if o is None or (n > most and is_init(l)):
            res.append("%s_%d.ndjson" % (f[:-7], len(res)))
            o, n = open(res[-1], "w"), 0
        o.write(l)
        n += 1
    if o:
        o.close()
    os.remove(f)
    return res


def explored(c, exe, programs, module, what, preempt=2, runs=3000, rand=150, extra=1, parts=4, timeout=300):
    """Explores each program (one line of input each) and validates the
    distinct histories."""
    vs, files = [], []
    parts = max(1, min(parts, len(programs)))

    def one(k):
        src = os.path.join(c.dir, "p_%s_%s_%d.txt" % (os.path.basename(exe), module, k))
        while os.path.exists(src):
            src += "_"
        with open(src, "w") as f:
            f.write("".join(p + "\n" for p in programs[k::parts]))
        out = src + ".ndjson"
        return out, c.run([exe, src, str(preempt), str(runs), str(rand), str(extra), str(seed()), out], timeout=timeout)

    res = [None] * parts
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(parts)))
    for f, (rc, out, err) in res:
        if rc != 0:
            vs.append(harness_failure(c, what, rc, err))
            continue
        r, h = [int(x) for x in out.decode().split() if x.isdigit()][:2]
        c.cov["schedules"] = c.cov.get("schedules", 0) + r
        c.cov["traces_validated_against_impl"] += h
        files += chunks(f)
    if files:
        c.sample({"history": read_lines(files[0], 1, 14)})
    c.cov["programs"] = c.cov.get("programs", 0) + len(programs)
    for f, idx, msg in c.validate(module, files, jobs=pick(5, 6)):
        seg = segment(f, idx, is_init)
        vs.append(Violation("%s: no order of the calls explains this history, up to %s %s" % (what, seg[-1] if seg else "", msg.replace("\n", " ")),
                            "\n".join(seg), key="%s %s" % (what, seg[-1] if seg else "")))
    return vs


def queue_programs(c, kind, cfg, n, starts=(1700000000 * 10**9,), salt=0):
    """A seeded sample of the small programs of ConcQueueGen with items filled in."""
    beh = c.behaviours("ConcQueueGen", cfg="ConcQueueGen" + cfg, xmx="6g")
    rng = random.Random(seed() * 31 + salt)
    beh = rng.sample(beh, n) if len(beh) > n else beh
    return [queue_program(rng, kind, b["cap"], b["fill"], b["th"], starts) for b in beh]


def queue_program(rng, kind, cap, fill, th, starts):
    x = 9
    line = "%d %d %d %d %d" % (kind, cap, fill, rng.choice([1, 3, 8]), rng.choice(starts))
    for t in th:
        calls = []
        for f, a in t:
            if f in ("push", "pushh", "pushl", "pushhl", "pushi"):
                x += 1
                v = x
            elif f in ("pushu", "del1", "dela", "red", "redr", "redp"):
                v = rng.choice([1, 10, 11])
            else:
                v = 0
            calls.append("%s:%d:%d" % (f, v, a))
        line += "|" + " ".join(calls)
    return line


def pool_programs(c, cfg, n):
    """A seeded sample of the small programs of ThreadPoolGen."""
    beh = c.behaviours("ThreadPoolGen", cfg="ThreadPoolGen" + cfg, xmx="6g")
    rng = random.Random(seed() * 13 + 1)
    beh = rng.sample(beh, n) if len(beh) > n else beh
    res = []
    for b in beh:
        ids = iter(range(1, 8))
        res.append("%d %d %d %d" % (b["w"], b["fail"], b["fini"], b["twice"])
                   + "".join("|" + " ".join("%d:%d" % (next(ids), k) for k in s) for s in b["subs"]))
    return res


def fault_runs(c, exe, hist, call, module, what):
    """Runs histories through a driver that fails every allocation in turn and
    validates what it recorded."""
    vs, traces = [], []

    def run(k):
        src = os.path.join(c.dir, "%s_%d.txt" % (module, k))
        with open(src, "w") as f:
            for h in hist[k::8]:
                f.write(";".join(call(e) for e in h) + "\n")
        out = src[:-4] + ".ndjson"
        return out, c.run([exe, src, out], timeout=400)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, range(8)))
    for f, (rc, out, err) in res:
        if rc != 0:
            vs.append(harness_failure(c, what, rc, err))
            continue
        traces += chunks(f, 30000)
    c.cov["traces_validated_against_impl"] += len(hist)
    for f, idx, msg in c.validate(module, traces, jobs=6):
        seg = segment(f, idx, is_init)
        vs.append(Violation("%s: %s" % (what, seg[-1] if seg else ""), "\n".join(seg) + "\n" + msg, key=what))
    return vs
