from common import *


def body(c):
    exe = wire(c)
    s = seed() * 1000
    vs = []
    runs = [["path", s + k, pick(140, 700)] for k in range(pick(6, 20))]
    runs += [["path1", s + k, pick(500, 3000)] for k in range(pick(2, 8))]
    runs += [["fix", s + k] for k in range(pick(2, 8))]
    runs += [["huge", s]]
    vs += traces(c, exe, runs, "MsgpackTrace", each, "packing into a buffer", xss="512m", xmx="4g")
    return vs


main("P03", body)
