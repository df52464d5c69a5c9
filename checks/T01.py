from common import *


def body(c):
    vs = []
    c.model("PoolDesign", cfg=pick("PoolDesign", "PoolDesignBig"), workers=6, xmx="8g")
    exe = explorer(c, "tpool", "tpool.c")
    progs = pool_programs(c, pick("", "Big"), pick(700, 3000))
    vs += explored(c, exe, progs, "ThreadPoolTrace", "worker pool", preempt=2, runs=pick(4000, 8000), rand=pick(80, 150), extra=1, parts=8)
    c.assumptions += ["sequentially consistent memory", "tasks are queued before shutdown starts, or by running tasks at any time"]
    return vs


main("T01", body)
