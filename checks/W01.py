from common import *


def body(c):
    exe = c.harness("password", ["password.c"], c.lib("asan", ASAN), ASAN)
    s = seed() * 1000
    runs = [["hash", s + k, pick(9, 22)] for k in range(pick(6, 12))]
    runs += [["bad", s + 500 + k, pick(500, 3000)] for k in range(2)]
    runs += [["fixed", s + 600, pick(12, 40)], ["cost", 5, s + 700]]
    runs += pick([], [["cost", 8, s + 701], ["cost", 10, s + 702]])
    vs = traces(c, exe, runs, "BcryptTrace", is_init, "password hash", jobs=6, xmx="3g", xss="64m")
    c.assumptions += ["a password to be prompted for is cut at 63 characters"]
    return vs


main("W01", body)
