from common import *


def body(c):
    exe = wire(c)
    s = seed() * 1000
    vs = wire_values(c, exe, ["sz", "peek", "type"])
    runs = [["size", s + k, pick(600, 3000)] for k in range(pick(5, 20))]
    runs += [["chain", s]]
    vs += traces(c, exe, runs, "MsgpackTrace", each, "measuring an encoded value", xss="512m", xmx="4g")
    return vs


main("P05", body)
