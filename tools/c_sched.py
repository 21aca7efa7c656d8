from vlib import *
import vlib


def jobs(scen, n, modes=("eager", "lazy"), sched=4, par=3, dfs=()):
    th = vlib.TIER == "thorough"
    out = []
    for m in modes:
        for i in range(par * (3 if th else 1)):
            for s in scen:
                out.append(["--scenario", s, "--seed", SEED * 100 + i, "--count", n * (8 if th else 1), "--sched", sched, "--mode", m])
    for i, s in enumerate(dfs):
        out.append(["--scenario", s, "--seed", SEED * 1000 + 10 * i, "--count", 2 if not th else 6,
                    "--dfs", 1 if not th else 2, "--secs", 3 if not th else 120, "--max-keep", 100 if not th else 4000])
    return out


def look(t):
    """1 if at every stop the workers were idle and everything due had been started (see TraceTaskScheduler)"""
    busy, quiet = 0, False
    for e in t["ev"]:
        k = e["e"]
        if k in ("begin", "end"):
            busy += 1 if k == "begin" else -1
            quiet = False
        elif k == "quiet":
            quiet = True
        elif k == "tick" or k == "call" and e["op"] not in ("sched", "en", "iv", "size", "stop", "destroy"):
            quiet = False
        elif k not in ("call", "ret", "fut"):
            return 0
        if k == "call" and e["op"] in ("stop", "destroy") and (busy or not quiet):
            return 0
    return 1


def prep(traces):
    for t in traces:
        t["p"]["look"] = look(t)
        t["p"]["ties"] = t["p"].get("bulk", 0)
        b = [[] for _ in range(max([e["k"] for e in t["ev"] if e["e"] == "call" and e["op"] in ("once", "every")], default=0))]
        for i, e in enumerate(t["ev"], 1):
            if e["e"] == "begin" and 1 <= e["k"] <= len(b):
                b[e["k"] - 1].append(i)
        t["p"]["begins"] = b


def mk(scen, dfs=(), bulk=False):
    def f(c):
        exe = build("sched", ["task_scheduler.cpp", "thread_pool.cpp"])
        c.conform("TraceTaskScheduler", exe, jobs(scen, 60 if len(scen) > 1 else 100, dfs=dfs), prep=prep)
        if bulk:
            c.conform("TraceTaskScheduler", exe, jobs(["bulk"], 4, sched=2, par=2), prep=prep, label="many tasks")
        c.assumptions += ["executions are sequentially consistent (threads are serialised by the runtime)",
                          "time is virtual; while a scheduling call is in progress time advances only if every thread is blocked",
                          "different task identifiers have different std::hash values"]
    return f


CHECKS = {"C06": mk(["oneshot"], dfs=["oneshot"], bulk=True), "C07": mk(["recurring"]), "C08": mk(["registry"], dfs=["registry"]), "C09": mk(["lifecycle", "farstop"], dfs=["farstop"])}
