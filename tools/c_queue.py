from vlib import *
import vlib


def thorough():
    return vlib.TIER == "thorough"


def queue_jobs():
    k = 40 if thorough() else 1
    n = 330 * (8 if thorough() else 1)
    jobs = []
    for i in range(4 * (1 if not thorough() else 4)):
        jobs.append(["--scenario", "mixed", "--seed", SEED * 100 + i, "--count", n, "--sched", 5])
        jobs.append(["--scenario", "parked", "--seed", SEED * 100 + 50 + i, "--count", n, "--sched", 8])
        jobs.append(["--scenario", "bulk", "--seed", SEED * 100 + 80 + i, "--count", n // 10, "--sched", 2])
        jobs.append(["--scenario", "sizes", "--seed", SEED * 100 + 70 + i, "--count", n // 2, "--sched", 10])
    # all schedules with at most 1 (2) preemptions of a few programs
    for i in range(4):
        jobs.append(["--scenario", "parked" if i % 2 else "mixed", "--seed", SEED * 1000 + 10 * i, "--count", 2 if not thorough() else 6,
                     "--dfs", 1 if not thorough() else 2, "--secs", 3 if not thorough() else 120, "--max-keep", 150 if not thorough() else 4000])
    return jobs


CRASH = ("crash", "hang", "terminate", "bad_unlock")


def c01(c):
    exe = build("bq", [])
    c.conform("TraceBoundedFifo", exe, queue_jobs(), env={"MODE": "ops"}, label="linearizable bounded FIFO")
    common(c)


def c02(c):
    exe = build("bq", [])
    c.conform("TraceBoundedFifo", exe, queue_jobs(), env={"MODE": "quiet"}, label="no lost wakeup",
              blame=lambda ev, tr, at: ev.get("e") in ("quiet", "deadlock", "giveup", "livelock", "leaked_threads"))
    common(c)


def common(c):
    c.assumptions += ["executions are sequentially consistent (the runtime serialises threads; weak-memory effects are not explored)",
                      "blocking_queue is instantiated with one item type (int plus heap-allocated string)"]


CHECKS = {"C01": c01, "C02": c02}
