from common import *


def body(c):
    exe = wire(c)
    s = seed() * 1000
    vs = wire_values(c, exe, ["rc", "n", "sz", "pre"])
    runs = [["read", s + k, pick(4000, 20000)] for k in range(pick(5, 20))]
    runs += [["sweep", s]]
    vs += traces(c, exe, runs, "MsgpackTrace", each, "reading from a byte string", xss="512m", xmx="4g")
    c.assumptions += ["what decoding makes of the wildcard and infinity markers is left open"]
    return vs


main("P04", body)
