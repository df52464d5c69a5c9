from common import *


def body(c):
    exe = wire(c)
    s = seed() * 1000
    vs = wire_values(c, exe, ["rc", "n", "d"])
    runs = [["rt", s + k, pick(700, 4000)] for k in range(pick(5, 20))]
    runs += [["deep", s + k] for k in range(pick(2, 4))]
    runs += [["big", s + k] for k in range(pick(1, 3))]
    vs += traces(c, exe, runs, "MsgpackTrace", each, "round trip of a value", xss="512m", xmx="4g")
    c.assumptions += ["texts contain no zero byte", "map keys are integers, strings or blobs, the kinds a map accepts"]
    return vs


main("P01", body)
