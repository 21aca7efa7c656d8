#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification; TLC trace validation of controlled-schedule executions of the real code"
TD = "TLA+ specification; TLC model checking of an implementation-level design model + TLC trace validation of controlled-schedule executions of the real code"
TA = "TLA+ specification of the function as a state machine; TLC trace validation of every recorded call of the real code (random inputs plus exhaustive enumeration of a bounded domain)"
TG = "TLA+ specification; TLC-generated behaviours replayed into the real code + TLC trace validation of recorded executions"
CLAIMED = {
    "C01": (TD, "traces of the real blocking_queue under random/PCT/bounded-exhaustive schedules, every trace decided by TLC; exhaustive only for the DFS programs"),
    "C02": (TD, "liveness turned into a safety check at quiescence points; schedules sampled plus bounded-exhaustive DFS"),
    "C03": (TD, "as C01, for thread_pool"),
    "C04": (TD, "as C01, for thread_pool start/stop"),
    "C06": (TD, "traces of the real task_scheduler under controlled schedules and virtual time, every trace decided by TLC; sampled plus bounded-exhaustive schedules"),
    "C07": (TD, "as C06, for recurring tasks; due times are exact in virtual time"),
    "C08": (TD, "as C06, for the task registry"),
    "C09": (TD, "as C06, for start/stop of the scheduler"),
    "C10": (TD, "traces of the real event_dispatcher under controlled schedules, every trace decided by TLC"),
    "C11": (TD, "as C10, for handler ids and removal"),
    "C12": (TD, "as C10, for start/stop of the dispatcher"),
    "C13": (TD, "traces of the real high_precision_timer under controlled schedules and virtual time, every trace decided by TLC"),
    "C14": (TD, "as C13, for start/stop/destruction of the timer"),
    "C15": (TD, "traces of the real observable under random/PCT/bounded-exhaustive schedules, every trace decided by TLC"),
    "C16": (TD, "traces of the real rate_limiter under virtual time with late wake-ups, every trace decided by TLC"),
    "C17": (TD, "traces of the real signal handler under controlled schedules and with real POSIX signals, every trace decided by TLC"),
    "C18": (TD, "random operation histories of the real service_locator over types with several inheritance layouts, every trace decided by TLC"),
    "C19": (TD, "traces of the real singleton under random/PCT/bounded-exhaustive schedules, every trace decided by TLC"),
    "C20": (TA + "; TLC model checking of the machine against a definition by roles of tokens", "all short lines of telling tokens are checked on the machine itself; every parse of a random or exhaustively enumerated short command line is recorded and recomputed by TLC from the parser machine of the specification"),
    "C21": (TA, "as C20, over random environments, defaults, required flags and validators"),
    "C32": (T, "which tracked callables and items exist is recorded whenever nobody can move, and decided by TLC from the state of the specification"),
    "C31": (TD, "all memory accesses and synchronisation of executions of every thread-safe class under controlled schedules, each execution decided by TLC against the happens-before order of the C++ memory model; the vector clocks of the specification are model-checked against the declarative definition"),
    "C23": (T, "traces of the real uuid_generator under controlled schedules and in bulk (40 000 in one process), every trace decided by TLC"),
}
_D = "TLA+ specification; TLC model checking of the specification against an independent definition + TLC trace validation of every recorded call of the real code (random histories plus exhaustive enumeration of a bounded domain)"
CLAIMED.update({
    "C22": (_D, "laws of the specification's own functions model checked; random texts plus every single edit of valid texts and all short texts, each verdict recomputed by TLC"),
    "C24": (_D, "four centuries of days by rule against the closed formula; recorded histories and a table of all months of sampled years recomputed by TLC"),
    "C25": (_D, "laws of the specification's own functions model checked; recorded histories recomputed by TLC in exact day/second/microsecond/nanosecond arithmetic"),
    "C26": (_D, "laws of the specification's own functions model checked; recorded prints and parses recomputed by TLC, with every second of a day and every single edit of well-formed texts"),
    "C27": (_D, "all ranges over a small domain against sets of numbers; recorded histories over signed, unsigned and floating point types, up to the limits of int, recomputed by TLC"),
    "C28": (_D, "all rectangles over a small grid against sets of cells; recorded histories recomputed by TLC"),
    "C29": (_D, "all segments on a small grid: parametric against topological intersection; recorded calls recomputed by TLC in exact arithmetic"),
    "C33": (TA, "recorded histories and texts recomputed by TLC, digit by digit, for eight coordinate types"),
    "C34": (TA, "what every parse wrote to standard output and standard error recomputed by TLC from declaration, environment and tokens"),
    "C35": (T, "random histories of tasks and their callables, every result and the number of existing objects decided by TLC"),
    "C36": (T, "random histories under a clock of the driver's own, every reading recomputed by TLC"),
    "C30": (TA, "recorded calls recomputed by TLC in exact arithmetic"),
})


def main():
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
    for i in ids:
        if i in CLAIMED:
            t, n = CLAIMED[i]
            m["checks"].append({"property": i, "quick_cmd": f"python3 tools/run.py {i} quick", "thorough_cmd": f"python3 tools/run.py {i} thorough",
                                "technique": t, "level": "model_checking", "level_note": n})
        else:
            m["not_applicable"].append({"property": i, "reason": "check not built yet"})
    m["notes"] = "No hooks in /repo: the specification is bound at the public API (calls, returns, callbacks) of the unmodified sources."
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
