from common import *


def body(c):
    exe = explorer(c, "tpool", "tpool.c")
    progs = pool_programs(c, pick("Fail", "FailBig"), pick(500, 2500))
    c.assumptions += ["sequentially consistent memory", "a thread that fails to start leaves its handle unset"]
    return explored(c, exe, progs, "ThreadPoolTrace", "worker pool with threads that fail to start", preempt=2,
                    runs=pick(3000, 6000), rand=pick(60, 100), extra=1, parts=8)


main("T02", body)
