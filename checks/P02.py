from common import *


def body(c):
    exe = wire(c)
    s = seed() * 1000
    vs = wire_values(c, exe, ["b", "ms", "gs"])
    runs = [["enc", s + k, pick(700, 4000)] for k in range(pick(4, 16))]
    runs += [["dir", s + k] for k in range(pick(2, 8))]
    runs += [["bigenc", s + k] for k in range(pick(1, 3))]
    vs += traces(c, exe, runs, "MsgpackTrace", each, "encoding of a value", xss="512m", xmx="4g")
    return vs


main("P02", body)
