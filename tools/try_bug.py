"""Tries planted bugs: builds the patched tree, runs the test suite, the
demonstration and the property's quick check, and restores the tree.
usage: try_bug.py [-n] ID...   (-n: skip the check)"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def tests():
    rc, out = sh(["bash", "/opt/vp/build.sh"])
    if rc:
        return "BUILD FAILED\n" + out[-1500:]
    o = "/tmp/try_bug_tests.json"
    rc, out = sh(["bash", "/opt/vp/test.sh", o])
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open(o))
    bad = sorted(set(base["stable"]) - set(got["passed"]))
    return "TESTS FAIL %s" % bad if bad else None


def main():
    args = sys.argv[1:]
    check = "-n" not in args
    for bid in [a for a in args if a != "-n"]:
        d = os.path.join(VERIF, "seeded", bid)
        meta = json.load(open(d + "/meta.json"))
        assert not sh(["git", "-C", REPO, "status", "--porcelain", "-uno"])[1]
        res = []
        rc, out = sh(["bash", "/opt/vp/build.sh"])
        rc, out = sh(["bash", d + "/demo.sh"], cwd=REPO)
        res.append("clean demo=%d%s" % (rc, "" if rc == 0 else " " + out[-500:]))
        rc, out = sh(["git", "-C", REPO, "apply", d + "/patch.diff"])
        if rc:
            print(bid, "patch does not apply", out)
            continue
        try:
            t = tests()
            res.append(t or "tests ok")
            rc, out = sh(["bash", d + "/demo.sh"], cwd=REPO)
            res.append("demo=%d" % rc)
            if check:
                env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
                rc, out = sh(["python3", "checks/%s.py" % meta["property"]], cwd=VERIF, env=env)
                res.append("check=%d %s" % (rc, " | ".join(out.strip().splitlines()[:3])[:400]))
        finally:
            sh(["git", "-C", REPO, "checkout", "-q", "--", "."])
        print(bid, meta["property"], "; ".join(res), flush=True)
    sh(["bash", "/opt/vp/build.sh"])


main()
