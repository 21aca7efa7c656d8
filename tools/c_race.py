"""C31: executions of every thread-safe class are free of data races (HappensBefore.tla)."""
import shutil

from vlib import *
import vlib
from c_misc import SC

# driver: (sources, [(scenario, quick executions, modes)])
DRIVERS = {
    "bq": ([], [("mixed", 60), ("parked", 40), ("sizes", 30)]),
    "obs": ([], [("concurrent", 90)]),
    "pool": (["thread_pool.cpp"], [("submitters", 40), ("getters", 30), ("lifecycle", 40), ("busystop", 30)]),
    "sched": (["task_scheduler.cpp", "thread_pool.cpp"], [("oneshot", 24), ("recurring", 24), ("registry", 40), ("lifecycle", 40)]),
    "disp": (["event_dispatcher.cpp", "thread_pool.cpp"], [("emits", 40), ("registry", 50), ("lifecycle", 50)]),
    "timer": (["high_precision_timer.cpp"], [("ticks", 40), ("lifecycle", 60)]),
    "quit": (["signal_handler.cpp"], [("quits", 40)]),
    "single": (["service_locator.cpp", "uuid.cpp", "uuid_generator.cpp"], [("requests", 40), ("uuids_shared", 12)]),
}
KINDS = ["read", "write", "atomic read", "atomic write"]


def where(exe, pc):
    if not shutil.which("addr2line") or not pc:
        return hex(pc)
    r = sh(["addr2line", "-e", exe, "-iC", hex(pc - 1)])
    ls = [re.sub(r" \(discriminator.*", "", x) for x in r.stdout.split("\n") if x]
    own = [x for x in ls if x.startswith(vlib.SDK)]
    return (own or ls or ["?"])[0]


ASSUMED = [SC + "; their happens-before order is that of the C++ memory model with fences ordered totally",
           "code of libstdc++ that is not inlined (streams, locales) is not observed, except for its memory copies"]


def race_pass(c, d, scens, more=1):
    th = vlib.TIER == "thorough"
    exe = build(d, DRIVERS[d][0])

    def describe(ev, tr, at):
        k, t, x, pc = ev
        if k > 3:
            return f"HappensBefore: event {at + 1} {ev} cannot be explained"
        prev = [e for e in tr["ev"][:at] if e[0] <= 3 and e[2] == x and e[1] != t]
        p = prev[-1] if prev else [0, -1, x, 0]
        return (f"data race: {KINDS[k]} by thread {t} at {where(exe, pc)} is not ordered with the {KINDS[p[0]]} by thread {p[1]} at {where(exe, p[3])}"
                f" (scenario {tr['args'][1]})")

    jobs = []
    for s, n in scens:
        for m in ("eager", "mixed") if d in ("sched", "timer") else ("eager",):
            for i in range(more if th else 1):
                jobs.append(["--scenario", s, "--seed", SEED * 100 + i, "--count", n * (3 if th else 1), "--sched", 2, "--mode", m, "--race"])
    c.conform("TraceHappensBefore", exe, jobs, label=d + " data races", describe=describe, max_report=2)


def races(c):
    only = os.environ.get("VERIF_DRIVERS", "").split() or list(DRIVERS)
    for d in only:
        race_pass(c, d, DRIVERS[d][1], 4)
    c.assumptions += ASSUMED


# a data race is undefined behaviour, so the property of the class it is in no longer holds: each of these checks also
# looks for races in executions of its own component
OWN = {
    "C01": [("bq", [("mixed", 40), ("sizes", 20)])], "C02": [("bq", [("parked", 40)])],
    "C03": [("pool", [("submitters", 25), ("getters", 20)])], "C04": [("pool", [("lifecycle", 40), ("busystop", 20)])],
    "C06": [("sched", [("oneshot", 10)])], "C07": [("sched", [("recurring", 10)])],
    "C08": [("sched", [("registry", 20)])], "C09": [("sched", [("lifecycle", 20)])],
    "C10": [("disp", [("emits", 30)])], "C11": [("disp", [("registry", 40)])], "C12": [("disp", [("lifecycle", 40)])],
    "C13": [("timer", [("ticks", 30)])], "C14": [("timer", [("lifecycle", 40)])],
    "C15": [("obs", [("concurrent", 50)])], "C17": [("quit", [("quits", 30)])],
    "C19": [("single", [("requests", 30)])], "C23": [("single", [("uuids_shared", 8)])],
}


def own(c):
    for d, scens in OWN.get(c.prop, []):
        race_pass(c, d, scens, 3)
        c.assumptions += ASSUMED


CHECKS = {"C31": races}
