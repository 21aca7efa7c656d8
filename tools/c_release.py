"""C32: what is handed over is released exactly when it is no longer needed (the Live operators of the specifications)."""
from vlib import *
import vlib
import c_disp, c_pool, c_queue, c_sched, c_timer
from c_race import DRIVERS


def blame(ev, tr, at):
    return ev.get("e") == "live" or ev.get("e") in ("begin", "ret") and (ev.get("a") == -88 or ev.get("m") == -88)


def mk(spec, d, scens, env=None, prep=None):
    def f(c):
        th = vlib.TIER == "thorough"
        exe = build(d, DRIVERS[d][0])
        jobs = []
        for s, n, modes in scens:
            for m in modes:
                for i in range(2 * (6 if th else 1)):
                    jobs.append(["--scenario", s, "--seed", SEED * 100 + 40 + i, "--count", n * (6 if th else 1), "--sched", 4, "--mode", m])

        def describe(ev, tr, at):
            return (f"{spec}: at event {at + 1} the objects {ev.get('ids')} exist" + (f" (futures held: {ev['held']})" if ev.get("held") else "") + ("; the owner has been destroyed" if ev.get("gone") else "")
                    if ev.get("e") == "live" else f"{spec}: a callable is used after its destruction: {ev}")
        c.conform(spec, exe, jobs, env=env, prep=prep, label=d, blame=blame, describe=describe)
    return f


E, EL = ("eager",), ("eager", "lazy")
PARTS = [mk("TraceThreadPool", "pool", [("submitters", 60, E), ("lifecycle", 60, E), ("busystop", 60, E), ("getters", 30, E), ("bulk", 20, E)], prep=c_pool.prep),
         mk("TraceTaskScheduler", "sched", [("oneshot", 30, EL), ("recurring", 20, EL), ("registry", 40, EL), ("lifecycle", 40, EL), ("farstop", 40, E)], prep=c_sched.prep),
         mk("TraceEventDispatcher", "disp", [("emits", 60, E), ("registry", 60, E), ("lifecycle", 60, E), ("bulk", 10, E)]),
         mk("TraceHighPrecisionTimer", "timer", [("ticks", 30, EL), ("lifecycle", 40, EL), ("far", 30, E), ("longrun", 10, E)]),
         mk("TraceBoundedFifo", "bq", [("mixed", 100, E), ("parked", 100, E), ("bulk", 20, E)], env={"MODE": "ops"})]


def c32(c):
    for p in PARTS:
        p(c)
    c.assumptions += ["executions are sequentially consistent (threads are serialised by the runtime)",
                      "a future may keep what its task was made of for as long as it is held; the driver drops a future once it is ready"]


CHECKS = {"C32": c32}
