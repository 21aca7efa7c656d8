from vlib import *
import vlib


def jobs(scen, n, sched=5, mode="eager", par=4, dfs=()):
    th = vlib.TIER == "thorough"
    out = []
    for i in range(par * (3 if th else 1)):
        for s in scen:
            out.append(["--scenario", s, "--seed", SEED * 100 + i, "--count", n * (8 if th else 1), "--sched", sched, "--mode", mode])
    for i, s in enumerate(dfs):
        out.append(["--scenario", s, "--seed", SEED * 1000 + 10 * i, "--count", 2 if not th else 6,
                    "--dfs", 1 if not th else 2, "--secs", 3 if not th else 120, "--max-keep", 100 if not th else 4000])
    return out


def prep(traces):
    """what TraceThreadPool's look-ahead needs: where each task begins, whether no submission overlaps a stop, the order in which to accept tasks"""
    for t in traces:
        inf, order, epoch = len(t["ev"]) + 1, 1, 0
        begin, call, ret, ep, open_ = {}, {}, {}, {}, {}
        for i, e in enumerate(t["ev"], 1):
            if e["e"] == "begin":
                begin.setdefault(e["k"], i)
            elif e["e"] == "call" and e["op"] in ("run", "stop", "destroy"):
                run = e["op"] == "run"
                if any((c["op"] == "run") != run for c in open_.values()):
                    order = 0
                open_[e["t"]] = e
                if run:
                    call[e["k"]], ep[e["k"]] = i, epoch
                else:
                    epoch += 1
            elif e["e"] == "ret" and e["t"] in open_:
                c = open_.pop(e["t"])
                if c["op"] == "run":
                    ret[c["k"]] = i
        must, first, where = {}, inf, None  # the first moment at which a task must have been taken
        later = sorted(call, key=lambda k: -call[k])
        j = 0
        for k in sorted(call, key=lambda k: -ret.get(k, inf)):
            while j < len(later) and call[later[j]] > ret.get(k, inf):
                x = later[j]
                if ep[x] != where:
                    first, where = inf, ep[x]
                first = min(first, begin.get(x, inf))
                j += 1
            must[k] = min(begin.get(k, inf), first if where == ep[k] else inf)
        n = max(begin, default=0)
        t["p"].update(bg=[begin.get(k, 0) for k in range(1, n + 1)], order=order, ord=sorted(call, key=lambda k: (ep[k], must[k], call[k])))


def c03(c):
    exe = build("pool", ["thread_pool.cpp"])
    c.conform("TraceThreadPool", exe, jobs(["submitters", "getters"], 200, dfs=["getters", "submitters"]), prep=prep)
    c.conform("TraceThreadPool", exe, jobs(["bulk"], 60, sched=2), prep=prep, label="many tasks")
    common(c)


def c04(c):
    exe = build("pool", ["thread_pool.cpp"])
    c.conform("TraceThreadPool", exe, jobs(["lifecycle", "busystop"], 200, dfs=["busystop", "lifecycle"]), prep=prep)
    common(c)


def common(c):
    c.assumptions += ["executions are sequentially consistent (the runtime serialises threads; weak-memory effects are not explored)",
                      "tasks that block do so only on gates the driver opens, or sleep a bounded virtual time",
                      "threads_count and is_running are queried while no start/stop is in progress"]


CHECKS = {"C03": c03, "C04": c04}
