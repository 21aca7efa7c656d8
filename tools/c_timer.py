from vlib import *
import vlib


def jobs(scen, n, modes=("eager", "lazy"), sched=3, par=3, dfs=()):
    th = vlib.TIER == "thorough"
    out = []
    for m in modes:
        for i in range(par * (3 if th else 1)):
            for s in scen:
                out.append(["--scenario", s, "--seed", SEED * 100 + i, "--count", n * (8 if th else 1), "--sched", sched, "--mode", m])
    for i, s in enumerate(dfs):
        out.append(["--scenario", s, "--seed", SEED * 1000 + 10 * i, "--count", 2 if not th else 6,
                    "--dfs", 1 if not th else 2, "--secs", 3 if not th else 120, "--max-keep", 100 if not th else 4000])
    return out


def mk(scen, dfs=(), long=0):
    def f(c):
        exe = build("timer", ["high_precision_timer.cpp"])
        c.conform("TraceHighPrecisionTimer", exe, jobs(scen, 60 if len(scen) > 1 else 100, dfs=dfs))
        if long:
            c.conform("TraceHighPrecisionTimer", exe, jobs(["longrun"], long, sched=2, par=2), label="many ticks, long intervals")
        c.assumptions += ["executions are sequentially consistent (threads are serialised by the runtime)",
                          "time is virtual; while start is in progress time advances only if every thread is blocked",
                          "start, stop, set_callback and destruction are issued by one controlling thread (the class does not document them as thread safe); the counters are read by any thread",
                          "the callback does not start, stop or destroy its own timer"]
    return f


CHECKS = {"C13": mk(["ticks"], dfs=["ticks"], long=25), "C14": mk(["lifecycle", "far"], dfs=["lifecycle", "far"])}
