from vlib import *
import vlib


def jobs(scen, n, modes=("eager",), sched=4, par=4, dfs=()):
    th = vlib.TIER == "thorough"
    out = []
    for m in modes:
        for i in range(par * (3 if th else 1)):
            for s in scen:
                out.append(["--scenario", s, "--seed", SEED * 100 + i, "--count", n * (8 if th else 1), "--sched", sched, "--mode", m])
    for i, s in enumerate(dfs):
        out.append(["--scenario", s, "--seed", SEED * 1000 + 10 * i, "--count", 2 if not th else 6,
                    "--dfs", 1 if not th else 2, "--secs", 3 if not th else 120, "--max-keep", 100 if not th else 4000])
    return out


SC = "executions are sequentially consistent (threads are serialised by the runtime)"
VT = "time is virtual"


def observable(c):
    exe = build("obs", [])
    c.conform("TraceObservable", exe, jobs(["concurrent"], 150, dfs=["concurrent"]))
    c.assumptions += [SC, "the callback does not use its own observable"]


def limiter(c):
    exe = build("limiter", ["rate_limiter.cpp"])
    c.conform("TraceRateLimiter", exe, jobs(["rates"], 60, modes=("eager", "lazy"), sched=2))
    c.conform("TraceRateLimiter", exe, jobs(["longrun"], 3, sched=1), label="longrun")
    c.assumptions += [VT, "1 us of tolerance for the rounding of 1/r"]


def quit_(c):
    exe = build("quit", ["signal_handler.cpp"])
    c.conform("TraceQuitSignal", exe, jobs(["quits"], 150, dfs=["quits"]))
    exe = build("quit_real", ["signal_handler.cpp"], controlled=False)
    th = vlib.TIER == "thorough"
    c.conform("TraceQuitSignal", exe, [["--seed", SEED * 10 + i, "--count", 60 if th else 12] for i in range(4)], label="real signals")
    c.assumptions += [SC, "handlers are not (re)installed while a quit request is being handled",
                      "no more requests are outstanding than there are waits (std::binary_semaphore does not define more than one unconsumed release)"]


def singleton(c):
    exe = build("single", ["service_locator.cpp", "uuid.cpp", "uuid_generator.cpp"])
    c.conform("TraceSingleton", exe, jobs(["requests"], 150, dfs=["requests"]))
    c.assumptions += [SC]


def uuidgen(c):
    exe = build("single", ["service_locator.cpp", "uuid.cpp", "uuid_generator.cpp"])
    c.conform("TraceUuidGenerator", exe, jobs(["uuids"], 150))
    exe = build("uuidbulk", ["uuid.cpp", "uuid_generator.cpp"], controlled="seq")
    th = vlib.TIER == "thorough"
    for scen, par, n in (("alone", 2, 2), ("together", 4, 3), ("many", 1 if not th else 8, 1)):
        c.conform("TraceUuidGenerator", exe, [["--scenario", scen, "--seed", SEED * 100 + i, "--count", n * (4 if th and scen != "many" else 1)] for i in range(par)],
                  label="many uuids: " + scen)
    c.assumptions += [SC, "the random source does not repeat 122 bits (checked: no repetition was recorded)"]


def locator(c):
    exe = build("locator", ["service_locator.cpp"])
    c.conform("TraceServiceLocator", exe, jobs(["random", "few"], 60, sched=1))
    c.conform("TraceServiceLocator", exe, jobs(["many"], 25, sched=1), label="many types")
    c.assumptions += ["one thread uses the service locator at a time (the class does not document thread safety)"]


CHECKS = {"C15": observable, "C16": limiter, "C17": quit_, "C18": locator, "C19": singleton, "C23": uuidgen}
