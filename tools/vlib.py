"""Shared plumbing of the checks: build, harness runs, TLC runs, evidence.

Exit status of a check: 0 property held on everything explored, 1 broken
(with a VIOLATION line), 2 the check itself failed.
"""
import atexit
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

WARN = ["-w", "-std=gnu99", "-fno-common", "-fno-strict-aliasing",
        "-D_FILE_OFFSET_BITS=64", "-D_REENTRANT", "-D_GNU_SOURCE"]
ASAN = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
PLAIN = ["-O2", "-g"]


class CheckError(Exception):
    """The machinery failed; says nothing about the property."""


class Violation(Exception):
    def __init__(self, what, detail=None, key=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or ""
        self.key = key or what


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or "1")


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def quick():
    return tier() != "thorough"


def pick(q, t):
    return q if quick() else t


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "events_validated": 0,
                    "samples": [], "runs": []}
        self.assumptions = []
        self.violations = []
        self._libs = {}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    # ---------------------------------------------------------------- build
    def _cc(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

    def lib(self, name, flags, cc="gcc", only=None, exclude=()):
        """Compiles the repository's sources as they are now into an archive."""
        key = (name,)
        if key in self._libs:
            return self._libs[key]
        out = os.path.join(self.dir, "obj_" + name)
        os.makedirs(out)
        srcs = []
        for sub in ("aerospike", "citrusleaf"):
            d = os.path.join(REPO, "src/main", sub)
            for f in sorted(os.listdir(d)):
                if f.endswith(".c") and (only is None or f in only) and f not in exclude:
                    srcs.append(os.path.join(d, f))
        objs, jobs = [], []
        for s in srcs:
            o = os.path.join(out, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            jobs.append([cc] + WARN + flags + ["-I", os.path.join(REPO, "src/include"),
                                               "-c", s, "-o", o])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(self._cc, jobs))
        ar = os.path.join(self.dir, "lib%s.a" % name)
        self._cc(["ar", "rcs", ar] + objs)
        self._libs[key] = ar
        return ar

    def harness(self, exe, sources, lib, flags, cc="gcc", link=()):
        out = os.path.join(self.dir, exe)
        srcs = [os.path.join(HARNESS, s) for s in sources]
        self._cc([cc] + WARN + flags + ["-I", os.path.join(REPO, "src/include"), "-I", HARNESS]
                 + srcs + [lib, "-o", out] + list(link)
                 + ["-lssl", "-lcrypto", "-lpthread", "-lm", "-lz"])
        return out

    # ------------------------------------------------------------------ run
    def run(self, argv, timeout=600, env=None, stdin=None, stdout=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1024:detect_stack_use_after_return=0"
        e["LSAN_OPTIONS"] = "report_objects=0"
        if env:
            e.update(env)
        try:
            p = subprocess.run(argv, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=e, cwd=self.dir, input=stdin)
        except subprocess.TimeoutExpired:
            return -999, b"", b"TIMEOUT after %d s" % timeout
        return p.returncode, (p.stdout or b""), (p.stderr or b"")

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=4, timeout=800, extra=(),
            xmx="4g", tag="", xss="64m", capture=None):
        """Runs TLC. Returns a dict with rc, out, generated, distinct, diameter."""
        md = os.path.join(self.dir, "md_%s_%s_%d" % (module, tag, len(self.cov["runs"])))
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss" + xss,
               "-Djava.io.tmpdir=" + self.dir,
               "-cp", JARS, "tlc2.TLC", "-noTE", "-metadir", md, "-workers", str(workers),
               "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=SPECS,
                               env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s %s" % (module, cfg or ""))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = p.stdout.decode("utf-8", "replace")
        gen = dist = diam = 0
        for m in re.finditer(r"^(\d+) states generated, (\d+) distinct states found", out, re.M):
            gen, dist = int(m.group(1)), int(m.group(2))
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        if m:
            diam = int(m.group(1))
        m = re.search(r"^The number of states generated: (\d+)", out, re.M)
        if m and gen == 0:
            gen = int(m.group(1))
        r = {"rc": p.returncode, "out": out, "generated": gen, "distinct": dist,
             "diameter": diam, "wall": round(time.time() - t, 1), "module": module,
             "cfg": cfg or module}
        return r

    def model(self, module, cfg=None, **kw):
        """Design-level run: TLC must find no error. A counterexample here is a
        broken model, not a broken implementation, hence an error of the check."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0:
            raise CheckError("model %s/%s: TLC rc=%d\n%s" % (module, r["cfg"], r["rc"], tail(r["out"])))
        self.note_run(r, "design model, exhaustive" if "-simulate" not in kw.get("extra", ()) else "design model, simulated")
        return r

    def note_run(self, r, what):
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["runs"].append({"what": what, "module": r["module"], "config": r["cfg"],
                                 "distinct": r["distinct"], "generated": r["generated"],
                                 "depth": r["diameter"], "wall_s": r["wall"]})

    def behaviours(self, module, cfg=None, **kw):
        """Runs a generating model; returns the JSON objects it printed."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0:
            raise CheckError("generator %s: TLC rc=%d\n%s" % (module, r["rc"], tail(r["out"])))
        objs = []
        for line in r["out"].splitlines():
            if line.startswith('"@@'):
                objs.append(json.loads(line)[2:])
        self.note_run(r, "behaviour generation")
        if not objs:
            raise CheckError("generator %s printed no behaviour\n%s" % (module, tail(r["out"])))
        # workers print in any order: sort, so that seeded choices repeat
        return [json.loads(o) for o in sorted(objs)]

    def validate(self, module, files, cfg=None, env=None, jobs=4, xmx="3g", timeout=800,
                 workers=1, xss="64m", counts=None):
        """Validates recorded traces (ndjson files), in parallel TLC processes.
        Returns list of (file, index, message) rejections."""
        files = list(files)
        bad = []

        def one(f):
            n = count_lines(f)
            if n == 0:
                raise CheckError("empty trace " + f)
            e = {"TRACE": f}
            e.update(env or {})
            r = self.tlc(module, cfg, env=e, workers=workers, xmx=xmx, timeout=timeout, xss=xss,
                         tag=os.path.basename(f).replace(".", "_"))
            return f, n, r

        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, files))
        for f, n, r in results:
            self.note_run(r, "trace validation, %d events" % n)
            self.cov["events_validated"] += n
            if r["rc"] == 0:
                continue
            if "@REJECTED" in r["out"]:
                mm = re.search(r"@REJECTED (\d+)", r["out"])
                idx = int(mm.group(1))
                mis = [l for l in r["out"].splitlines() if "@MISMATCH" in l]
                bad.append((f, idx, "\n".join(mis[-3:])))
            else:
                raise CheckError("TLC rc=%d validating %s\n%s" % (r["rc"], f, tail(r["out"])))
        return bad

    # -------------------------------------------------------------- outcome
    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def known(self):
        """Committed known findings for this property: list of (regex, text)."""
        res = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for l in open(path):
                l = l.strip()
                m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", l)
                if m and m.group(1) == self.pid:
                    res.append((re.compile(m.group(2)), m.group(3)))
        return res

    def evidence(self):
        if not self.cov["samples"]:
            self.cov["samples"] = [r["what"] for r in self.cov["runs"][:3]]
        ev = {"property": self.pid, "tier": tier() if tier() in ("quick", "thorough") else "quick",
              "seed": seed(), "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def tail(s, n=60):
    return "\n".join(s.splitlines()[-n:])


def count_lines(f):
    n = 0
    with open(f, "rb") as fh:
        for _ in fh:
            n += 1
    return n


def read_lines(f, lo, hi):
    res = []
    with open(f) as fh:
        for i, l in enumerate(fh, 1):
            if i < lo:
                continue
            if i > hi:
                break
            res.append(l.rstrip("\n"))
    return res


def segment(f, idx, start_pred, maxlen=400):
    """The lines of the scenario that contains line idx."""
    lines = read_lines(f, 1, idx)
    j = len(lines) - 1
    while j > 0 and not start_pred(lines[j]):
        j -= 1
    return lines[j:][-maxlen:]


def main(pid, body, level="model_checking"):
    """Runs body(check) -> list of Violation. A violation is reported only if a
    second complete run of the body finds one again."""
    c = Check(pid, level)
    rc = 2
    try:
        vs = body(c) or []
        vs = filter_known(c, vs)
        if vs:
            first = vs
            c2 = Check(pid, level)
            c2.t0 = c.t0
            vs = filter_known(c2, body(c2) or [])
            c = c2
            if not vs:
                raise CheckError("violation not reproduced: %s" % first[0].what)
        c.violations = vs
        if vs:
            rd = os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s_seed%d.txt" % (pid, seed()))
            with open(rp, "w") as f:
                for v in vs:
                    f.write("%s\n%s\n\n" % (v.what, v.detail))
            for v in vs[:5]:
                print(("  " + v.what)[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        else:
            print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
                pid, c.cov["states"], c.cov["transitions"], c.cov["traces_validated_against_impl"],
                c.cov["events_validated"], time.time() - c.t0))
            rc = 0
    except CheckError as ex:
        print("CHECK-ERROR property=%s %s" % (pid, ex))
        rc = 2
    finally:
        try:
            c.evidence()
        except Exception as ex:  # evidence must not mask the outcome
            print("evidence: %s" % ex)
            rc = rc if rc == 1 else 2
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def filter_known(c, vs):
    ks = c.known()
    out = []
    for v in vs:
        hit = None
        for rx, text in ks:
            if rx.search(v.key):
                hit = text
                break
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (c.pid, hit))
        else:
            out.append(v)
    return out


def harness_failure(c, what, rc, err):
    """A harness that died: sanitizer report, crash or hang of the code under test."""
    e = err.decode("utf-8", "replace")
    if rc == 3:
        raise CheckError("%s: harness reported misuse: %s" % (what, e[-2000:]))
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)|FAULT: [^\n]*", e)
    head = m.group(0) if m else ("exit status %d" % rc)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", e)
    where = ", ".join("%s %s" % (a, os.path.basename(b)) for a, b in frames[:6])
    return Violation("%s: %s [%s]" % (what, head, where), e[-6000:], key="%s %s %s" % (what, head, where))
