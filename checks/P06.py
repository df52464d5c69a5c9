from common import *


def body(c):
    exe = wire(c)
    s = seed() * 1000
    vs = wire_pairs(c, exe, ["r", "w"])
    runs = [["cmp", s + k, pick(2500, 12000)] for k in range(pick(4, 16))]
    runs += [["deepcmp", s + k, pick(80, 400)] for k in range(pick(4, 12))]
    runs += [["chain", s]]
    vs += traces(c, exe, runs, "MsgpackTrace", each, "comparison of encoded values", xss="512m", xmx="4g")
    return vs


main("P06", body)
