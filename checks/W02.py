from common import *

WRAP = ["-Wl,--wrap=tcgetattr", "-Wl,--wrap=tcsetattr"]


def body(c):
    exe = c.harness("prompt", ["prompt.c"], c.lib("asan", ASAN), ASAN, link=WRAP)
    runs = [[seed() * 1000 + k, pick(150, 700)] for k in range(pick(6, 16))]
    vs = traces(c, exe, runs, "PromptTrace", is_init, "password from an option or a prompt", jobs=6)
    c.assumptions += ["the terminal's settings are a stand-in; typed text comes through a pipe on standard input"]
    return vs


main("W02", body)
