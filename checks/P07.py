from common import *


def body(c):
    exe = wire(c)
    s = seed() * 1000
    vs = wire_pairs(c, exe, ["m", "r", "al"])
    runs = [["mcmp", s + k, pick(3000, 15000)] for k in range(pick(4, 16))]
    runs += [["cmp", s + 500 + k, pick(1500, 8000)] for k in range(pick(2, 8))]
    runs += [["deepcmp", s + 500 + k, pick(80, 400)] for k in range(pick(2, 8))]
    vs += traces(c, exe, runs, "MsgpackTrace", each, "comparison in memory and at cursors", xss="512m", xmx="4g")
    return vs


main("P07", body)
