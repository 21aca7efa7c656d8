// Controlled-concurrency and virtual-time runtime for the conformance drivers.
//
// Exactly one managed thread runs at a time; every synchronisation operation and (for code compiled
// with -fsanitize=thread instrumentation, without libtsan) every memory access is a scheduling point.
// Time is virtual.  All choices come from a seeded generator or from a recorded choice list, so an
// execution is reproduced exactly from (driver, scenario, scenario seed, schedule seed).
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>

namespace vs
{
struct exec_cfg
{
    uint64_t scen_seed = 0;  // drives vs::rnd(): the program that is executed
    uint64_t sched_seed = 0; // drives the scheduler
    int strategy = 0;        // 0 random, 1 PCT, 2 DFS (choices from shared memory)
    unsigned p_sync = 64;    // switch probability (per 1024) at a synchronisation point
    unsigned plain_gap = 0;  // mean number of plain accesses between preemptions (0 = never)
    unsigned p_time = 0;     // probability (per 4096) of time advancing spontaneously at a sync point
    unsigned p_spur = 0;     // probability (per 4096) of a spurious condition variable wakeup at a sync point
    int pct_depth = 3;
    int bound = 2;           // DFS preemption bound
    int hw = 4;              // hardware concurrency
    uint64_t max_steps = 3000000;
};

// ---- used inside an execution -------------------------------------------------------------------
uint64_t rnd();                      // scenario randomness (deterministic)
int rnd(int lo, int hi);             // inclusive
bool chance(int num, int den);
int64_t now_us();                    // virtual time since the start of the execution
void sleep_us(int64_t us);           // virtual sleep of the calling thread
void quiesce();                      // wait until no other managed thread can run without time advancing
void set_hw(int n);                  // what std::thread::hardware_concurrency() reports
void no_time_jumps(bool on);         // suspend spontaneous time advance (lazy mode); counted
void log_ticks();                    // log every advance of the virtual time (q=1: every thread was blocked)
bool lazy();                         // does time advance spontaneously in this execution?
int tid();                           // managed thread id (0 = main)
void yield_point();
// bookkeeping of a driver: neither recorded as accesses nor as synchronisation (--race)
struct unrecorded { unrecorded(); ~unrecorded(); unrecorded(const unrecorded&) = delete; };
void put(int* p, int v);             // unrecorded access to a shared int
int get(const int* p);

// event log: one JSON object per event, appended atomically in execution order
struct ev
{
    explicit ev(const char* kind);
    ev& i(const char* k, int64_t v);
    ev& s(const char* k, const std::string& v);
    ev& b(const char* k, bool v);
    ev& raw(const char* k, const std::string& json);
    ~ev();
private:
    std::string buf;
};
void params(const std::string& json); // parameters of the scenario (object)

// ---- driver main ---------------------------------------------------------------------------------
// scenario: builds and runs one program; called in a forked child as managed thread 0
using scenario_fn = void (*)();
struct scenario { const char* name; scenario_fn fn; };
int driver_main(int argc, char** argv, const scenario* list, int n);
}
