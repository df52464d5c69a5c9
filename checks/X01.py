import itertools
from common import *

ADDRESSES = [bytes(16), bytes(15) + b"\1", b"\0\1" + bytes(14), b"\0\1" + bytes(13) + b"\1", b"\0\x0f" + bytes(14), bytes(15) + b"\x0f",
             bytes(4), b"\1\1\1\1", b"\0\0\0\1", bytes(10) + b"\xff\xff\1\1\1\1", bytes(12) + b"\1\1\1\1"]


def body(c):
    vs = []
    exe = c.harness("cert", ["cert.c"], c.lib("asan", ASAN), ASAN, link=["-lssl", "-lcrypto"])
    beh = c.behaviours("CertificateGen", cfg=pick("CertificateGen", "CertificateGenBig"), xmx="8g", workers=8)
    hosts = [bytes(h) for n in range(1, 5) for h in itertools.product([97, 65, 98, 46, 42], repeat=n)]
    at = {h: k for k, h in enumerate(hosts)}
    hx = lambda b: bytes(b).hex()
    script, out = os.path.join(c.dir, "script.txt"), os.path.join(c.dir, "script.out")
    asked = []
    with open(script, "w") as f:
        f.write("h " + " ".join(h.hex() for h in hosts) + "\n")
        for b in beh:
            if b["k"] == "n":
                f.write("n %s\n" % hx(b["v"]))
                asked.append(None)
            else:
                own = [bytes(b["four"]), bytes(b["six"])]
                adr = ADDRESSES + [a for a in own if a and a not in ADDRESSES]
                f.write("a %s %s\n" % (hx(b["v"]) or "-", " ".join(map(hx, adr))))
                asked.append(adr)
    rc, _, err = c.run([exe, "script", script, out], timeout=600)
    if rc != 0:
        vs.append(harness_failure(c, "matching of specified names", rc, err))
    else:
        for b, adr, line in zip(beh, asked, open(out)):
            r = json.loads(line)["r"]
            if adr is None:
                sets = [sorted(at[bytes(h)] for h in b[w]) for w in ("exact", "wild", "san", "exact", "wild")]
                good = r == sets
                exp = sets
            else:
                exp = [int(bytes(b["four"]) == a or bytes(b["six"]) == a) for a in adr]
                good = r == exp
            if not good:
                vs.append(Violation("certificate or text %s (%s): expected %s observed %s" % (bytes(b["v"]), b["k"], exp, r)))
                break
        c.cov["traces_validated_against_impl"] += len(beh)
        c.sample({"specified": {k: b[k] for k in ("k", "v")}})
    runs = [["random", seed() * 1000 + k, pick(700, 3000)] for k in range(pick(6, 12))]
    vs += traces(c, exe, runs, "CertificateTrace", is_init, "certificate", jobs=6)
    c.assumptions += ["host names are not empty and contain no zero, control character or backslash", "alternative names are ASCII"]
    return vs


main("X01", body)
