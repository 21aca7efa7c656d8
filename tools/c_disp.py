from vlib import *
import vlib


def jobs(scen, n, sched=4, par=4, dfs=()):
    th = vlib.TIER == "thorough"
    out = []
    for i in range(par * (3 if th else 1)):
        for s in scen:
            out.append(["--scenario", s, "--seed", SEED * 100 + i, "--count", n * (8 if th else 1), "--sched", sched, "--mode", "eager"])
    for i, s in enumerate(dfs):
        out.append(["--scenario", s, "--seed", SEED * 1000 + 10 * i, "--count", 2 if not th else 6,
                    "--dfs", 1 if not th else 2, "--secs", 3 if not th else 120, "--max-keep", 100 if not th else 4000])
    return out


def mk(scen, n, dfs=(), bulk=0):
    def f(c):
        exe = build("disp", ["event_dispatcher.cpp", "thread_pool.cpp"])
        c.conform("TraceEventDispatcher", exe, jobs(scen, n, dfs=dfs))
        if bulk:
            c.conform("TraceEventDispatcher", exe, jobs(["bulk"], bulk, sched=2), label="many handlers and emissions")
        c.assumptions += ["executions are sequentially consistent (threads are serialised by the runtime)",
                          "handlers that block do so only on gates the driver opens, or sleep a bounded virtual time"]
    return f


CHECKS = {"C10": mk(["emits"], 150, dfs=["emits"], bulk=25), "C11": mk(["registry"], 150, dfs=["registry"], bulk=25), "C12": mk(["lifecycle"], 150, dfs=["lifecycle"])}
