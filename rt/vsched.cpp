#include "vsched.hpp"

#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <malloc.h>

#include <algorithm>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace
{
// ------------------------------------------------------------------------------------------- raw
long raw_syscall6(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    long ret;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
void raw_futex_wait(uint32_t* p, uint32_t v) { raw_syscall6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
void raw_futex_wake(uint32_t* p) { raw_syscall6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

template <typename F>
F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

// -------------------------------------------------------------------------------------- shared mem
constexpr size_t LOG_CAP = 1 << 20;
constexpr size_t MAXCH = 1 << 16;
struct shm_t
{
    size_t log_len;
    char log[LOG_CAP];
    size_t par_len;
    char par[8192];
    int overflow;
    uint64_t steps;
    // DFS
    uint32_t n_choices;  // choices made in this execution
    uint32_t n_prefix;   // prefix to follow
    uint8_t choice[MAXCH];
    uint8_t options[MAXCH];
    uint8_t preempts[MAXCH]; // preemptions used before this choice
    uint8_t is_preempt_pt[MAXCH];
};
shm_t* shm = nullptr;

// ------------------------------------------------------------------------- recording of memory accesses
enum RK { R_RD, R_WR, R_ARD, R_AWR, R_ACQ, R_REL, R_RELJ, R_CLR, R_FORK, R_JOIN, R_ALLOC, R_FREE };
struct racc { uint8_t kind, t; uint32_t size; uint32_t pc; uint64_t addr; };
constexpr size_t MAXRACE = 1500000;
struct race_t { uint64_t n; int overflow; racc a[MAXRACE]; };
race_t* race = nullptr; // shared with the parent; null: not recording
extern "C" char __executable_start;

// ------------------------------------------------------------------------------------------ threads
enum St { RUN, BLK, FIN };
enum Kind { K_NONE, K_MUTEX, K_COND, K_JOIN, K_FUTEX, K_SLEEP, K_QUIESCE, K_ONCE, K_RW, K_SEM };
struct Th
{
    int id = 0;
    pthread_t pt{};
    uint32_t fut = 0;
    St st = RUN;
    Kind kind = K_NONE;
    const void* addr = nullptr;
    const void* mtx = nullptr;
    int64_t deadline = -1;
    bool timedout = false, signaled = false, spurious = false;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    bool detached = false, joined = false;
    int prio = 0;
    uint32_t bitset = 0;
};
struct Mtx { int owner = -1; int count = 0; };
struct Rw { int writer = -1; int readers = 0; };

std::vector<Th*>* ths;
std::unordered_map<const void*, Mtx>* mtxs;
std::unordered_map<const void*, Rw>* rws;
bool active = false;
__thread Th* self = nullptr;
__thread int guard = 0; // >0: runtime-internal, no scheduling

vs::exec_cfg cfg;
int64_t vnow = 0;
const int64_t BASE_MONO = 1000LL * 1000000000LL;
const int64_t BASE_REAL = 1700000000LL * 1000000000LL;
uint64_t steps = 0;
int64_t plain_left = 0;
int hw_threads = 4;
int time_jumps_off = 0;
bool log_tick = false;
int jumps_left = 0; // spontaneous time advances of an execution are bounded (they make traces expensive to explain)
uint64_t run_streak = 0;
int preempts_used = 0;
std::vector<uint64_t>* pct_points;
uint64_t sync_count = 0;
int pct_low = 0;

uint64_t rs_sched, rs_scen;
uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t srnd() { return splitmix(rs_sched); }
unsigned srnd(unsigned n) { return n ? (unsigned)(srnd() % n) : 0; }

[[noreturn]] void die(const char* what);
void append_log(const char* s, size_t n)
{
    if (shm->log_len + n + 2 >= LOG_CAP)
    {
        if (shm->overflow) return;
        shm->overflow = 1;
        if (!race) die("endless"); // (the programs are finite and so are their traces; an unfair schedule may be endless all the same)
        return;
    }
    if (shm->log_len) shm->log[shm->log_len++] = ',';
    memcpy(shm->log + shm->log_len, s, n);
    shm->log_len += n;
}

void advance_to(int64_t t, bool quiet)
{
    if (t <= vnow) return;
    const bool seen = t / 1000 != vnow / 1000; // (the log has microseconds)
    vnow = t;
    if (!log_tick || !seen) return;
    char b[96];
    int n = snprintf(b, sizeof b, "{\"e\":\"tick\",\"t\":-1,\"now\":%lld,\"q\":%d}", (long long)(vnow / 1000), quiet ? 1 : 0);
    append_log(b, (size_t)n);
}

[[noreturn]] void die(const char* what)
{
    char b[2048];
    int n = snprintf(b, sizeof b, "{\"e\":\"%s\",\"t\":%d,\"now\":%lld,\"blocked\":[", what, self ? self->id : -1, (long long)(vnow / 1000));
    if (ths)
        for (size_t i = 0, k = 0; i < ths->size() && n < 1900; ++i)
            if ((*ths)[i]->st == BLK)
                n += snprintf(b + n, sizeof b - n, "%s[%d,%d]", k++ ? "," : "", (*ths)[i]->id, (int)(*ths)[i]->kind);
    n += snprintf(b + n, sizeof b - n, "]}");
    append_log(b, n);
    shm->steps = steps;
    _exit(42);
}

void draw_plain()
{
    if (cfg.strategy == 2 || cfg.plain_gap == 0) { plain_left = INT64_MAX / 2; return; }
    plain_left = 1 + srnd(2 * cfg.plain_gap);
}

// choose among n options (n>=1)
int choose(int n, bool preempt_pt)
{
    if (n <= 1) return 0;
    if (cfg.strategy == 2)
    {
        uint32_t k = shm->n_choices;
        if (k >= MAXCH) die("livelock");
        int c = k < shm->n_prefix ? shm->choice[k] : 0;
        if (c >= n) c = 0;
        shm->choice[k] = (uint8_t)c;
        shm->options[k] = (uint8_t)n;
        shm->is_preempt_pt[k] = preempt_pt;
        shm->preempts[k] = (uint8_t)preempts_used;
        shm->n_choices = k + 1;
        return c;
    }
    return (int)srnd((unsigned)n);
}

void switch_to(Th* t)
{
    if (t == self) return;
    run_streak = 0;
    Th* me = self;
    __atomic_store_n(&t->fut, 1u, __ATOMIC_SEQ_CST);
    raw_futex_wake(&t->fut);
    while (__atomic_load_n(&me->fut, __ATOMIC_SEQ_CST) == 0)
        raw_futex_wait(&me->fut, 0);
    __atomic_store_n(&me->fut, 0u, __ATOMIC_SEQ_CST);
}

void make_run(Th* t) { t->st = RUN; t->kind = K_NONE; t->addr = nullptr; t->deadline = -1; }

void fire_deadlines()
{
    for (Th* t : *ths)
        if (t->st == BLK && t->deadline >= 0 && t->deadline <= vnow)
        {
            t->timedout = true;
            make_run(t);
        }
}

int64_t earliest()
{
    int64_t m = -1;
    for (Th* t : *ths)
        if (t->st == BLK && t->deadline >= 0 && (m < 0 || t->deadline < m)) m = t->deadline;
    return m;
}

Th* pick_from(std::vector<Th*>& r, bool preempt_pt)
{
    if (r.size() == 1) return r[0];
    if (cfg.strategy == 1)
    {
        Th* b = r[0];
        for (Th* t : r) if (t->prio > b->prio) b = t;
        return b;
    }
    return r[choose((int)r.size(), preempt_pt)];
}

// current thread cannot continue: run somebody else (or return if we became runnable again)
void reschedule(bool leaving = false)
{
    for (;;)
    {
        std::vector<Th*> r;
        ++guard;
        for (Th* t : *ths) if (t->st == RUN) r.push_back(t);
        if (r.empty())
        {
            Th* q = nullptr;
            for (Th* t : *ths) if (t->st == BLK && t->kind == K_QUIESCE) { q = t; break; }
            if (q) { make_run(q); --guard; continue; }
            int64_t d = earliest();
            if (d < 0)
            {
                bool all_fin = true;
                for (Th* t : *ths) if (t->st != FIN) all_fin = false;
                if (all_fin) { --guard; return; }
                die("deadlock");
            }
            advance_to(d, true);
            fire_deadlines();
            --guard;
            if (++steps > cfg.max_steps) die("livelock");
            continue;
        }
        Th* t = pick_from(r, false);
        --guard;
        if (leaving)
        {
            __atomic_store_n(&t->fut, 1u, __ATOMIC_SEQ_CST);
            raw_futex_wake(&t->fut);
            return;
        }
        switch_to(t);
        return;
    }
}

void block(Kind k, const void* a, int64_t deadline)
{
    self->st = BLK;
    self->kind = k;
    self->addr = a;
    self->deadline = deadline;
    self->timedout = self->signaled = self->spurious = false;
    if (deadline >= 0 && deadline <= vnow) { self->timedout = true; make_run(self); }
    reschedule();
}

void step()
{
    if (++steps > cfg.max_steps) die("livelock");
}

void maybe_env_events()
{
    if (cfg.p_time && !time_jumps_off && jumps_left > 0 && srnd(4096) < cfg.p_time)
    {
        --jumps_left;
        int64_t d = earliest();
        if (d >= 0 && srnd(2)) advance_to(d, false);
        else advance_to(vnow + (int64_t)(1 + srnd(12)) * 500000, false); // multiples of 0.5 ms
        fire_deadlines();
    }
    if (cfg.p_spur && srnd(4096) < cfg.p_spur)
    {
        std::vector<Th*> w;
        for (Th* t : *ths) if (t->st == BLK && t->kind == K_COND) w.push_back(t);
        if (!w.empty()) { Th* t = w[srnd((unsigned)w.size())]; t->spurious = true; make_run(t); }
    }
}

// scheduling point of a running thread
void sync_point(bool force = false, bool minor = false)
{
    if (!active || !self || guard) return;
    step();
    ++sync_count;
    if (cfg.strategy == 2)
    {
        if (minor && !force) return;
        if (preempts_used >= cfg.bound && !force) return;
        ++guard;
        std::vector<Th*> r;
        if (!force) r.push_back(self);
        for (Th* t : *ths) if (t->st == RUN && t != self) r.push_back(t);
        if (force) r.push_back(self);
        if (r.size() > 1)
        {
            int c = choose((int)r.size(), !force);
            if (r[c] != self)
            {
                if (!force) ++preempts_used;
                --guard;
                switch_to(r[c]);
                return;
            }
        }
        --guard;
        return;
    }
    ++guard;
    maybe_env_events();
    bool sw = force;
    if (cfg.strategy == 0) sw = sw || srnd(1024) < cfg.p_sync;
    if (++run_streak > 20000) { sw = true; run_streak = 0; if (cfg.strategy == 1) self->prio = --pct_low; }
    if (cfg.strategy == 1)
    {
        for (uint64_t p : *pct_points) if (p == sync_count) self->prio = --pct_low;
        if (force) self->prio = --pct_low;
        sw = true;
    }
    if (sw)
    {
        std::vector<Th*> r;
        for (Th* t : *ths) if (t->st == RUN && (cfg.strategy == 1 || t != self)) r.push_back(t);
        if (!r.empty())
        {
            Th* t = pick_from(r, true);
            --guard;
            if (t != self) switch_to(t);
            return;
        }
    }
    --guard;
}

void plain_slow()
{
    draw_plain();
    if (!active || !self || guard) return;
    step();
    steps += 16;
    if (cfg.strategy == 2) return;
    ++guard;
    if (cfg.strategy == 1 && srnd(4)) { --guard; return; }
    std::vector<Th*> r;
    for (Th* t : *ths) if (t->st == RUN && t != self) r.push_back(t);
    if (cfg.strategy == 1) self->prio = --pct_low;
    Th* t = nullptr;
    if (!r.empty()) t = cfg.strategy == 1 ? pick_from(r, true) : r[srnd((unsigned)r.size())];
    --guard;
    if (t && t != self) switch_to(t);
}
// one access; repeated accesses of a thread between two of its synchronisation operations are recorded once
struct rcache { uint64_t addr; uint32_t size; uint32_t epoch; uint8_t kind; };
__thread rcache rc[1024];
__thread uint32_t repoch = 1;
__thread int norec = 0;

void rec_raw(RK k, const void* a, size_t n, const void* pc)
{
    if (race->n >= MAXRACE) { race->overflow = 1; return; }
    racc& r = race->a[race->n++];
    r.kind = (uint8_t)k;
    r.t = (uint8_t)self->id;
    r.size = (uint32_t)n;
    r.pc = (uint32_t)((uintptr_t)pc - (uintptr_t)&__executable_start);
    r.addr = (uint64_t)a;
}
inline void rec(RK k, const void* a, size_t n, const void* pc)
{
    if (!race || !active || !self || guard || norec) return;
    if (k <= R_AWR)
    {
        uint64_t h = ((uint64_t)a * 0x9E3779B97F4A7C15ull) >> 54;
        rcache& c = rc[h & 1023];
        if (c.addr == (uint64_t)a && c.size >= n && c.epoch == repoch && (c.kind == k || (c.kind == R_WR && k == R_RD))) return;
        c = {(uint64_t)a, (uint32_t)n, repoch, (uint8_t)k};
    }
    else ++repoch;
    rec_raw(k, a, n, pc);
}
// synchronisation inside the runtime (guard is set there)
void rec_sync(RK k, const void* a, size_t n = 0)
{
    if (!race || !active || !self || (norec && k != R_ALLOC)) return;
    ++repoch;
    rec_raw(k, a, n, nullptr);
}
#define PC __builtin_return_address(0)

uint64_t plain_total = 0;
inline void plain_point()
{
    if (++plain_total > 60000000ull && active && self) die("livelock");
    if (--plain_left > 0) return;
    plain_slow();
}

bool managed() { return active && self && !guard; }

// ------------------------------------------------------------------------------------------ mutexes
void v_lock(const void* m, bool recursive)
{
    for (;;)
    {
        Mtx& x = (*mtxs)[m];
        if (x.owner < 0) { x.owner = self->id; x.count = 1; rec_sync(R_AWR, m, 1); rec_sync(R_ACQ, m); return; }
        if (x.owner == self->id && recursive) { ++x.count; return; }
        block(K_MUTEX, m, -1);
    }
}
void v_unlock(const void* m)
{
    auto it = mtxs->find(m);
    if (it == mtxs->end() || it->second.owner != self->id)
    {
        die("bad_unlock");
    }
    if (--it->second.count > 0) return;
    rec_sync(R_AWR, m, 1);
    rec_sync(R_REL, m);
    mtxs->erase(it);
    for (Th* t : *ths) if (t->st == BLK && t->kind == K_MUTEX && t->addr == m) make_run(t);
}
bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int v_cond_wait(const void* c, pthread_mutex_t* m, int64_t deadline)
{
    bool rec = is_recursive(m);
    int cnt = (*mtxs)[m].count;
    (*mtxs)[m].count = 1;
    v_unlock(m);
    block(K_COND, c, deadline);
    bool to = self->timedout;
    v_lock(m, rec);
    (*mtxs)[m].count = cnt;
    return to ? ETIMEDOUT : 0;
}
void v_cond_signal(const void* c, bool all)
{
    rec_sync(R_AWR, c, 1);
    std::vector<Th*> w;
    for (Th* t : *ths) if (t->st == BLK && t->kind == K_COND && t->addr == c) w.push_back(t);
    if (w.empty()) return;
    if (all) { for (Th* t : w) { t->signaled = true; make_run(t); } }
    else { Th* t = w[choose((int)w.size(), false)]; t->signaled = true; make_run(t); }
}

int64_t abs_to_v(clockid_t clk, const timespec* ts)
{
    int64_t a = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
    if (ts->tv_sec > 9000000000LL) return INT64_MAX / 2;
    a -= (clk == CLOCK_REALTIME) ? BASE_REAL : BASE_MONO;
    return a < 0 ? 0 : a;
}

void* trampoline(void* p)
{
    Th* t = static_cast<Th*>(p);
    while (__atomic_load_n(&t->fut, __ATOMIC_SEQ_CST) == 0) raw_futex_wait(&t->fut, 0);
    __atomic_store_n(&t->fut, 0u, __ATOMIC_SEQ_CST);
    self = t;
    if (race)
    {
        ++guard;
        pthread_attr_t at;
        void* base = nullptr;
        size_t len = 0;
        if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &base, &len); pthread_attr_destroy(&at); rec_sync(R_ALLOC, base, len); }
        --guard;
    }
    void* r = t->fn(t->arg);
    // finished
    ++guard;
    t->st = FIN;
    for (Th* o : *ths) if (o->st == BLK && o->kind == K_JOIN && o->addr == t) make_run(o);
    --guard;
    reschedule(true);
    self = nullptr;
    return r;
}

void on_terminate()
{
    if (active && self)
        die("terminate");
    _exit(43);
}
}

// ============================================================================== interposed functions
extern "C"
{
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!managed()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); if (active) return 0; return f(m); }
    sync_point();
    ++guard; v_lock(m, is_recursive(m)); --guard;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!managed()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); if (active) return 0; return f(m); }
    sync_point();
    auto it = mtxs->find(m);
    if (it != mtxs->end() && it->second.owner >= 0 && !(it->second.owner == self->id && is_recursive(m))) return EBUSY;
    ++guard; v_lock(m, is_recursive(m)); --guard;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    if (!managed()) return 0;
    sync_point();
    ++guard;
    int64_t d = abs_to_v(CLOCK_REALTIME, ts);
    for (;;)
    {
        Mtx& x = (*mtxs)[m];
        if (x.owner < 0 || (x.owner == self->id && is_recursive(m))) { x.owner = self->id; ++x.count; rec_sync(R_AWR, m, 1); rec_sync(R_ACQ, m); --guard; return 0; }
        block(K_MUTEX, m, d);
        if (self->timedout) { --guard; return ETIMEDOUT; }
    }
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const timespec* ts)
{
    if (!managed()) return 0;
    sync_point();
    ++guard;
    int64_t d = abs_to_v(clk, ts);
    for (;;)
    {
        Mtx& x = (*mtxs)[m];
        if (x.owner < 0 || (x.owner == self->id && is_recursive(m))) { x.owner = self->id; ++x.count; rec_sync(R_AWR, m, 1); rec_sync(R_ACQ, m); --guard; return 0; }
        block(K_MUTEX, m, d);
        if (self->timedout) { --guard; return ETIMEDOUT; }
    }
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!managed()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); if (active) return 0; return f(m); }
    ++guard; v_unlock(m); --guard;
    sync_point();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (active && mtxs) mtxs->erase(m);
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!managed()) return 0;
    sync_point();
    ++guard;
    for (;;) { Rw& x = (*rws)[m]; if (x.writer < 0) { ++x.readers; break; } block(K_RW, m, -1); }
    rec_sync(R_AWR, m, 1); rec_sync(R_ACQ, m);
    --guard;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!managed()) return 0;
    sync_point();
    ++guard;
    for (;;) { Rw& x = (*rws)[m]; if (x.writer < 0 && x.readers == 0) { x.writer = self->id; break; } block(K_RW, m, -1); }
    rec_sync(R_AWR, m, 1); rec_sync(R_ACQ, m);
    --guard;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!managed()) return 0;
    sync_point();
    Rw& x = (*rws)[m];
    if (x.writer >= 0) return EBUSY;
    ++x.readers;
    rec_sync(R_AWR, m, 1); rec_sync(R_ACQ, m);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!managed()) return 0;
    sync_point();
    Rw& x = (*rws)[m];
    if (x.writer >= 0 || x.readers) return EBUSY;
    x.writer = self->id;
    rec_sync(R_AWR, m, 1); rec_sync(R_ACQ, m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!managed()) return 0;
    ++guard;
    rec_sync(R_AWR, m, 1); rec_sync(R_RELJ, m);
    Rw& x = (*rws)[m];
    if (x.writer == self->id) x.writer = -1; else --x.readers;
    for (Th* t : *ths) if (t->st == BLK && t->kind == K_RW && t->addr == m) make_run(t);
    --guard;
    sync_point();
    return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!managed()) return 0;
    sync_point();
    ++guard; int r = v_cond_wait(c, m, -1); --guard;
    sync_point();
    return r;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (!managed()) return 0;
    sync_point();
    ++guard; int r = v_cond_wait(c, m, abs_to_v(CLOCK_REALTIME, ts)); --guard;
    sync_point();
    return r;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts)
{
    if (!managed()) return 0;
    sync_point();
    ++guard; int r = v_cond_wait(c, m, abs_to_v(clk, ts)); --guard;
    sync_point();
    return r;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!managed()) return 0;
    sync_point();
    ++guard; v_cond_signal(c, false); --guard;
    sync_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!managed()) return 0;
    sync_point();
    ++guard; v_cond_signal(c, true); --guard;
    sync_point();
    return 0;
}

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!managed()) return f(out, attr, fn, arg);
    sync_point();
    ++guard;
    Th* t = new Th;
    t->fn = fn;
    t->arg = arg;
    t->id = (int)ths->size();
    t->prio = cfg.strategy == 1 ? (int)(srnd(1000) + 1000) : 0;
    rec_sync(R_FORK, nullptr, (size_t)t->id);
    int r = f(&t->pt, attr, trampoline, t);
    if (r == 0)
    {
        *out = t->pt;
        ths->push_back(t);
        if (ths->size() > 200) die("livelock");
    }
    --guard;
    if (r == 0) sync_point();
    return r;
}
int pthread_join(pthread_t p, void** ret)
{
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!managed()) return f(p, ret);
    sync_point();
    ++guard;
    Th* t = nullptr;
    for (Th* o : *ths) if (!o->joined && o->id != 0 && pthread_equal(o->pt, p)) t = o;
    if (t)
    {
        if (t == self) { --guard; return EDEADLK; }
        while (t->st != FIN) block(K_JOIN, t, -1);
        t->joined = true;
        rec_sync(R_JOIN, nullptr, (size_t)t->id);
    }
    --guard;
    int r = f(p, ret);
    sync_point();
    return r;
}
int pthread_detach(pthread_t p)
{
    static auto f = real<int (*)(pthread_t)>("pthread_detach");
    if (managed()) { for (Th* o : *ths) if (!o->joined && o->id && pthread_equal(o->pt, p)) { o->detached = true; } }
    return f(p);
}
int pthread_once(pthread_once_t* ctl, void (*fn)(void))
{
    static auto f = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    if (!managed()) return f(ctl, fn);
    sync_point(false, true);
    for (;;)
    {
        if (*ctl == 2) { rec_sync(R_ACQ, ctl); return 0; }
        if (*ctl == 0)
        {
            *ctl = 1;
            try { fn(); }
            catch (...)
            {
                *ctl = 0;
                ++guard;
                for (Th* t : *ths) if (t->st == BLK && t->kind == K_ONCE && t->addr == ctl) make_run(t);
                --guard;
                throw;
            }
            *ctl = 2;
            rec_sync(R_REL, ctl);
            ++guard;
            for (Th* t : *ths) if (t->st == BLK && t->kind == K_ONCE && t->addr == ctl) make_run(t);
            --guard;
            return 0;
        }
        ++guard; block(K_ONCE, ctl, -1); --guard;
    }
}

int sched_yield(void)
{
    if (!managed()) return 0;
    sync_point(true);
    return 0;
}

int clock_gettime(clockid_t clk, timespec* ts)
{
    if (!active || !self)
    {
        raw_syscall6(SYS_clock_gettime, clk, (long)ts, 0, 0, 0, 0);
        return 0;
    }
    int64_t a = vnow + ((clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ? BASE_REAL : BASE_MONO);
    ts->tv_sec = a / 1000000000LL;
    ts->tv_nsec = a % 1000000000LL;
    return 0;
}
static void v_sleep(int64_t ns)
{
    if (ns < 0) ns = 0;
    sync_point();
    ++guard; block(K_SLEEP, nullptr, vnow + ns); --guard;
    sync_point();
}
int nanosleep(const timespec* ts, timespec* rem)
{
    if (!managed()) return (int)raw_syscall6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0);
    // a loop that sleeps until a fraction of a nanosecond has passed must end: every sleep takes some time
    v_sleep(std::max<int64_t>(1, (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec));
    return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const timespec* ts, timespec* rem)
{
    if (!managed()) return (int)-raw_syscall6(SYS_clock_nanosleep, clk, flags, (long)ts, (long)rem, 0, 0);
    if (flags & TIMER_ABSTIME) { int64_t d = abs_to_v(clk, ts); v_sleep(d - vnow); }
    else v_sleep((int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec);
    return 0;
}
int usleep(useconds_t us) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int get_nprocs(void) { return hw_threads; }

// futex-based waiting (std::future, std::latch, std::semaphore, atomic wait, static guards)
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && managed())
    {
        int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        uint32_t* addr = (uint32_t*)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sync_point();
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; return -1; }
            int64_t dl = -1;
            if (d)
            {
                const timespec* ts = (const timespec*)d;
                if (op == FUTEX_WAIT) dl = vnow + (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
                else dl = abs_to_v((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            ++guard; block(K_FUTEX, addr, dl); bool to = self->timedout; --guard;
            sync_point();
            if (to) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            sync_point();
            ++guard;
            long k = 0;
            std::vector<Th*> w;
            for (Th* t : *ths) if (t->st == BLK && t->kind == K_FUTEX && t->addr == addr) w.push_back(t);
            while (!w.empty() && k < (int)c)
            {
                int i = ((int)c >= (int)w.size()) ? 0 : choose((int)w.size(), false);
                make_run(w[i]);
                w.erase(w.begin() + i);
                ++k;
            }
            --guard;
            sync_point();
            return k;
        }
    }
    long r = raw_syscall6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

int sem_init(sem_t* s, int, unsigned v) { *(uint32_t*)s = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s)
{
    if (managed()) sync_point();
    rec_sync(R_RELJ, s);
    ++*(uint32_t*)s;
    if (active && self) { ++guard; for (Th* t : *ths) if (t->st == BLK && t->kind == K_SEM && t->addr == s) make_run(t); --guard; }
    return 0;
}
int sem_wait(sem_t* s)
{
    if (managed()) sync_point();
    ++guard;
    while (*(uint32_t*)s == 0) block(K_SEM, s, -1);
    --*(uint32_t*)s;
    rec_sync(R_ACQ, s);
    --guard;
    return 0;
}
int sem_trywait(sem_t* s)
{
    if (managed()) sync_point();
    if (*(uint32_t*)s == 0) { errno = EAGAIN; return -1; }
    --*(uint32_t*)s;
    rec_sync(R_ACQ, s);
    return 0;
}
int sem_timedwait(sem_t* s, const timespec* ts)
{
    if (managed()) sync_point();
    ++guard;
    while (*(uint32_t*)s == 0)
    {
        block(K_SEM, s, abs_to_v(CLOCK_REALTIME, ts));
        if (self->timedout) { --guard; errno = ETIMEDOUT; return -1; }
    }
    --*(uint32_t*)s;
    rec_sync(R_ACQ, s);
    --guard;
    return 0;
}

// ------------------------------------------------------------------------------- tsan entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { rec(R_WR, p, 8, PC); plain_point(); }
void __tsan_vptr_read(void** p) { rec(R_RD, p, 8, PC); plain_point(); }
void __tsan_read_range(void* p, unsigned long n) { rec(R_RD, p, n, PC); plain_point(); }
void __tsan_write_range(void* p, unsigned long n) { rec(R_WR, p, n, PC); plain_point(); }
#define RW(n) \
    void __tsan_read##n(void* p) { rec(R_RD, p, n, PC); plain_point(); } \
    void __tsan_write##n(void* p) { rec(R_WR, p, n, PC); plain_point(); } \
    void __tsan_unaligned_read##n(void* p) { rec(R_RD, p, n, PC); plain_point(); } \
    void __tsan_unaligned_write##n(void* p) { rec(R_WR, p, n, PC); plain_point(); } \
    void __tsan_volatile_read##n(void* p) { rec(R_RD, p, n, PC); plain_point(); } \
    void __tsan_volatile_write##n(void* p) { rec(R_WR, p, n, PC); plain_point(); } \
    void __tsan_read_write##n(void* p) { rec(R_WR, p, n, PC); plain_point(); } \
    void __tsan_read##n##_pc(void* p, void*) { rec(R_RD, p, n, PC); plain_point(); } \
    void __tsan_write##n##_pc(void* p, void*) { rec(R_WR, p, n, PC); plain_point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
#define MO_ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) >= 4)
#define MO_REL(mo) ((mo) >= 3)
#define A_LOAD(a, mo) (rec(R_ARD, (const void*)a, sizeof *a, PC), MO_ACQ(mo) ? rec(R_ACQ, (const void*)a, 0, PC) : (void)0)
#define A_STORE(a, mo) (rec(R_AWR, (const void*)a, sizeof *a, PC), rec(MO_REL(mo) ? R_REL : R_CLR, (const void*)a, 0, PC))
#define A_RMW(a, mo) (rec(R_AWR, (const void*)a, sizeof *a, PC), MO_ACQ(mo) ? rec(R_ACQ, (const void*)a, 0, PC) : (void)0, MO_REL(mo) ? rec(R_RELJ, (const void*)a, 0, PC) : (void)0)
#define AFETCH(bits, T, op) \
    T __tsan_atomic##bits##_fetch_##op(volatile T* a, T v, int mo) { sync_point(false, true); A_RMW(a, mo); return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST); }
#define ACAS(bits, T, kind) \
    int __tsan_atomic##bits##_compare_exchange_##kind(volatile T* a, T* c, T v, int mo, int fmo) { sync_point(); \
        if (*a == *c) A_RMW(a, mo); else A_LOAD(a, fmo); \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { sync_point(); A_LOAD(a, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { sync_point(); A_STORE(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { sync_point(); A_RMW(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    AFETCH(bits, T, add) AFETCH(bits, T, sub) AFETCH(bits, T, and) AFETCH(bits, T, or) AFETCH(bits, T, xor) AFETCH(bits, T, nand) \
    ACAS(bits, T, strong) ACAS(bits, T, weak) \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { sync_point(); \
        if (*a == c) A_RMW(a, mo); else A_LOAD(a, fmo); \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// fences order everything with every other fence (more order than C++ guarantees: no false alarms)
void __tsan_atomic_thread_fence(int) { static int f; sync_point(false, true); rec(R_ACQ, &f, 0, PC); rec(R_RELJ, &f, 0, PC); }
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain_point(); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain_point(); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain_point(); return memmove(d, s, n); }

// ------------------------------------------------------------------ memory functions the library calls
static inline void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline size_t rlen(size_t n) { return n > 4096 ? 4096 : n; }
void* memcpy(void* d, const void* s, size_t n)
{
    if (race && n) { rec(R_RD, s, rlen(n), PC); rec(R_WR, d, rlen(n), PC); }
    raw_copy(d, s, n);
    return d;
}
void* memmove(void* d, const void* s, size_t n)
{
    if (race && n) { rec(R_RD, s, rlen(n), PC); rec(R_WR, d, rlen(n), PC); }
    if ((uintptr_t)d - (uintptr_t)s >= n) raw_copy(d, s, n);
    else
    {
        volatile char* dd = (volatile char*)d;
        const volatile char* ss = (const volatile char*)s;
        while (n--) dd[n] = ss[n];
    }
    return d;
}
void* memset(void* d, int c, size_t n)
{
    if (race && n) rec(R_WR, d, rlen(n), PC);
    void* p = d;
    asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory");
    return d;
}
int memcmp(const void* a, const void* b, size_t n)
{
    if (race && n) { rec(R_RD, a, rlen(n), PC); rec(R_RD, b, rlen(n), PC); }
    const volatile unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (; n; --n, ++x, ++y)
    {
        unsigned char p = *x, q = *y;
        if (p != q) return p < q ? -1 : 1;
    }
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static inline void* fresh(void* p, size_t n) { if (race && p) rec_sync(R_ALLOC, p, n); return p; }
void* malloc(size_t n) { return fresh(__libc_malloc(n), n); }
void* calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b), a * b); }
void* realloc(void* q, size_t n) { return fresh(__libc_realloc(q, n), n); }
void* aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n), n); }
void* memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n), n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = fresh(__libc_memalign(a, n), n); return *p ? 0 : ENOMEM; }
void free(void* p) { __libc_free(p); }

// function-local statics
static int (*real_ga)(long long*) = nullptr;
static void (*real_gr)(long long*) = nullptr;
int __cxa_guard_acquire(long long* g)
{
    if (!real_ga) real_ga = (int (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    int r = real_ga(g);
    rec(R_ACQ, g, 0, PC);
    return r;
}
void __cxa_guard_release(long long* g)
{
    if (!real_gr) real_gr = (void (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_release");
    rec(R_REL, g, 0, PC);
    real_gr(g);
}
}

// a deleted object must not be in use any more: deletion counts as a write to all of it
static void del(void* p, const void* pc) { if (race && p) rec(R_FREE, p, malloc_usable_size(p), pc); __libc_free(p); }
void operator delete(void* p) noexcept { del(p, PC); }
void operator delete(void* p, std::size_t) noexcept { del(p, PC); }
void operator delete[](void* p) noexcept { del(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { del(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { del(p, PC); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { del(p, PC); }

// ================================================================================== driver interface
namespace vs
{
uint64_t rnd() { return splitmix(rs_scen); }
int rnd(int lo, int hi) { return lo + (int)(rnd() % (uint64_t)(hi - lo + 1)); }
bool chance(int num, int den) { return rnd(1, den) <= num; }
int64_t now_us() { return vnow / 1000; }
void sleep_us(int64_t us) { v_sleep(us * 1000); }
void quiesce()
{
    ++guard; block(K_QUIESCE, nullptr, -1); --guard;
}
void set_hw(int n) { hw_threads = n; }
void no_time_jumps(bool on) { time_jumps_off += on ? 1 : -1; }
void log_ticks() { log_tick = true; }
bool lazy() { return cfg.p_time != 0; }
int tid() { return self ? self->id : -1; }
void yield_point() { sync_point(); }
unrecorded::unrecorded() { ++norec; }
unrecorded::~unrecorded() { --norec; }
void put(int* p, int v) { *(volatile int*)p = v; }
int get(const int* p) { return *(const volatile int*)p; }

ev::ev(const char* kind)
{
    ++guard;
    buf = std::string("{\"e\":\"") + kind + "\",\"t\":" + std::to_string(tid()) + ",\"now\":" + std::to_string(now_us());
}
static std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
ev& ev::i(const char* k, int64_t v)
{
    if (v > 2000000000LL) v = 2000000000LL;
    if (v < -2000000000LL) v = -2000000000LL;
    buf += std::string(",\"") + k + "\":" + std::to_string(v);
    return *this;
}
ev& ev::s(const char* k, const std::string& v) { buf += std::string(",\"") + k + "\":\"" + esc(v) + "\""; return *this; }
ev& ev::b(const char* k, bool v) { buf += std::string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
ev& ev::raw(const char* k, const std::string& v) { buf += std::string(",\"") + k + "\":" + v; return *this; }
ev::~ev()
{
    buf += "}";
    append_log(buf.data(), buf.size());
    buf = std::string();
    --guard;
}
void params(const std::string& j)
{
    ++guard;
    snprintf(shm->par, sizeof shm->par, "%s", j.c_str());
    shm->par_len = strlen(shm->par);
    --guard;
}

static void child(const exec_cfg& c, scenario_fn fn)
{
    cfg = c;
    ths = new std::vector<Th*>;
    ths->reserve(256);
    mtxs = new std::unordered_map<const void*, Mtx>;
    mtxs->reserve(256);
    rws = new std::unordered_map<const void*, Rw>;
    pct_points = new std::vector<uint64_t>;
    rs_sched = c.sched_seed * 0x9E3779B97F4A7C15ull + 12345;
    rs_scen = c.scen_seed * 0xD1B54A32D192ED03ull + 777;
    hw_threads = c.hw;
    vnow = 0;
    steps = 0;
    if (c.strategy == 1)
        for (int i = 0; i < c.pct_depth; ++i) pct_points->push_back(1 + srnd(60u << srnd(5)));
    jumps_left = 2 + (int)srnd(8);
    draw_plain();
    std::set_terminate(on_terminate);
    Th* m = new Th;
    m->id = 0;
    m->pt = pthread_self();
    m->prio = c.strategy == 1 ? (int)(srnd(1000) + 1000) : 0;
    ths->push_back(m);
    self = m;
    active = true;
    fn();
    // let everything else finish
    for (;;)
    {
        bool other = false;
        for (Th* t : *ths) if (t != self && t->st != FIN) other = true;
        if (!other) break;
        ++guard; block(K_QUIESCE, nullptr, -1); --guard;
        bool still = false;
        for (Th* t : *ths) if (t != self && t->st != FIN) still = true;
        if (still) die("leaked_threads");
    }
    shm->steps = steps;
    _exit(0);
}

static volatile int alarm_hit = 0;

static int stuck = 0; // executions that ran into a time or step limit

static int run_one(const exec_cfg& c, scenario_fn fn, bool& crashed)
{
    shm->log_len = 0;
    shm->par_len = 0;
    shm->overflow = 0;
    shm->n_choices = 0;
    shm->steps = 0;
    if (race) race->n = 0, race->overflow = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(60);
        rlimit rl{3, 3}; // CPU seconds: a single execution takes milliseconds
        setrlimit(RLIMIT_CPU, &rl);
        child(c, fn);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    crashed = false;
    if (WIFSIGNALED(st) ? WTERMSIG(st) != SIGSEGV && WTERMSIG(st) != SIGABRT : shm->log_len > 20 && memmem(shm->log, shm->log_len, "\"e\":\"livelock\"", 14)) ++stuck;
    if (WIFSIGNALED(st))
    {
        crashed = true;
        char b[128];
        int n = snprintf(b, sizeof b, "{\"e\":\"%s\",\"t\":-1,\"now\":0,\"sig\":%d}", WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL) ? "hang" : "crash", WTERMSIG(st));
        append_log(b, (size_t)n);
    }
    else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 42)
    {
        crashed = true;
        char b[128];
        int n = snprintf(b, sizeof b, "{\"e\":\"crash\",\"t\":-1,\"now\":0,\"sig\":%d}", -WEXITSTATUS(st));
        append_log(b, (size_t)n);
    }
    return st;
}

static uint64_t fnv(const char* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
    return h;
}

// Reduce the recorded accesses to the memory locations that several threads use, at least one of them writing,
// and to the synchronisation objects that several threads use; bytes with the same history are one location.
// Returns the events as [kind, thread, object, code address] and the numbers of threads, objects, locations.
static std::string reduce_race(std::string& par)
{
    struct block { uint64_t end; uint32_t gen; };
    std::map<uint64_t, block> live;
    uint32_t gens = 0;
    typedef std::pair<uint32_t, uint64_t> key; // generation, address
    std::map<key, std::vector<uint32_t>> bytes, objs;
    const size_t N = race->n;
    std::vector<uint32_t> gen_of(N, 0);
    int nt = 1;
    for (size_t i = 0; i < N; ++i)
    {
        const racc& r = race->a[i];
        nt = std::max(nt, r.t + 1);
        if (r.kind == R_FORK || r.kind == R_JOIN) { nt = std::max(nt, (int)r.size + 1); continue; }
        auto it = live.upper_bound(r.addr);
        if (it != live.begin() && std::prev(it)->second.end > r.addr) gen_of[i] = std::prev(it)->second.gen;
        if (r.kind == R_ALLOC)
        {
            if (it != live.begin() && std::prev(it)->second.end > r.addr) it = std::prev(it);
            while (it != live.end() && it->first < r.addr + r.size) it = live.erase(it);
            live[r.addr] = {r.addr + std::max<uint64_t>(r.size, 1), ++gens};
            continue;
        }
        if (r.kind >= R_ACQ && r.kind <= R_CLR) { objs[{gen_of[i], r.addr}].push_back((uint32_t)i); continue; }
        if (r.kind == R_FREE)
        {
            // concerns the bytes that have been used
            for (auto b = bytes.lower_bound({gen_of[i], r.addr}); b != bytes.end() && b->first < key{gen_of[i], r.addr + r.size}; ++b) b->second.push_back((uint32_t)i);
            continue;
        }
        for (uint32_t b = 0; b < r.size; ++b) bytes[{gen_of[i], r.addr + b}].push_back((uint32_t)i);
    }
    std::map<std::vector<uint32_t>, int> locs;
    std::vector<std::vector<int>> touch(N);
    for (auto& [k, h] : bytes)
    {
        bool wr = false, several = false, plain = false;
        for (uint32_t i : h)
        {
            const racc& r = race->a[i];
            wr |= r.kind == R_WR || r.kind == R_AWR || r.kind == R_FREE;
            plain |= r.kind == R_WR || r.kind == R_RD || r.kind == R_FREE;
            several |= r.t != race->a[h[0]].t;
        }
        if (!wr || !several || !plain) continue;
        auto [it, fresh] = locs.try_emplace(h, (int)locs.size());
        if (fresh) for (uint32_t i : h) touch[i].push_back(it->second);
    }
    int no = 0;
    std::vector<int> obj(N, -1);
    for (auto& [k, h] : objs)
    {
        bool several = false;
        for (uint32_t i : h) several |= race->a[i].t != race->a[h[0]].t;
        if (!several) continue;
        for (uint32_t i : h) obj[i] = no;
        ++no;
    }
    std::string out;
    size_t n = 0;
    // per thread and location: what has been recorded since the last synchronisation of the thread
    std::map<std::pair<int, int>, std::pair<uint32_t, int>> seen;
    std::vector<uint32_t> epoch((size_t)nt, 1);
    auto put = [&](int k, int t, int x, uint32_t pc) {
        char b[80];
        int l = snprintf(b, sizeof b, "%s[%d,%d,%d,%u]", n ? "," : "", k, t, x, pc);
        out.append(b, (size_t)l);
        ++n;
    };
    for (size_t i = 0; i < N && n < 40000; ++i)
    {
        const racc& r = race->a[i];
        if (r.kind == R_FORK || r.kind == R_JOIN) { put(r.kind, r.t, (int)r.size, 0); ++epoch[r.t]; }
        else if (r.kind >= R_ACQ && r.kind <= R_CLR) { if (obj[i] >= 0) { put(r.kind, r.t, obj[i], r.pc); ++epoch[r.t]; } }
        else if (r.kind != R_ALLOC)
            for (int x : touch[i])
            {
                int k = r.kind == R_FREE ? (int)R_WR : r.kind;
                auto& s = seen[{r.t, x}];
                if (s.first != epoch[r.t]) s = {epoch[r.t], 0};
                if (s.second & (1 << k) || (k == R_RD && s.second & (1 << R_WR))) continue;
                s.second |= 1 << k;
                put(k, r.t, x, r.pc);
            }
    }
    par = "{\"nt\":" + std::to_string(nt) + ",\"no\":" + std::to_string(no) + ",\"nl\":" + std::to_string(locs.size()) + "}";
    return out;
}

static void derive(exec_cfg& c, uint64_t sched_seed, const std::string& mode)
{
    // choose the exploration strategy of one execution from its schedule seed
    uint64_t s = sched_seed * 0xA24BAED4963EE407ull + 99;
    uint64_t r = splitmix(s);
    c.sched_seed = sched_seed;
    c.strategy = (r % 3 == 0) ? 1 : 0;
    r = splitmix(s);
    static const unsigned ps[] = {512, 256, 128, 64, 16, 1000};
    c.p_sync = ps[r % 6];
    r = splitmix(s);
    static const unsigned pg[] = {0, 0, 40, 150, 600, 15};
    c.plain_gap = pg[r % 6];
    r = splitmix(s);
    c.pct_depth = 1 + (int)(r % 4);
    r = splitmix(s);
    c.p_spur = (r % 4 == 0) ? 40 : 0;
    r = splitmix(s);
    c.p_time = 0;
    if (mode == "lazy") { static const unsigned pt[] = {8, 40, 160}; c.p_time = pt[r % 3]; }
    if (mode == "mixed") { static const unsigned pt[] = {0, 0, 8, 60}; c.p_time = pt[r % 4]; }
}

// usage: driver --scenario NAME --seed S --count N --sched M --mode eager|lazy|mixed --out FILE [--secs T]
//        [--from I] [--dfs BOUND] [--one SCEN SCHED MODE]
int driver_main(int argc, char** argv, const scenario* list, int n)
{
    std::string name, out = "/dev/stdout", mode = "eager";
    uint64_t seed = 1, count = 100, msched = 4;
    double secs = 1e9;
    int dfs = -1;
    bool one = false, verbose = false, racing = false;
    uint64_t one_scen = 0, one_sched = 0;
    uint64_t max_keep = 1000000;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--scenario") name = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--count") count = strtoull(nx().c_str(), 0, 10);
        else if (a == "--sched") msched = strtoull(nx().c_str(), 0, 10);
        else if (a == "--mode") mode = nx();
        else if (a == "--out") out = nx();
        else if (a == "--secs") secs = atof(nx().c_str());
        else if (a == "--dfs") dfs = atoi(nx().c_str());
        else if (a == "--max-keep") max_keep = strtoull(nx().c_str(), 0, 10);
        else if (a == "--one") { one = true; one_scen = strtoull(nx().c_str(), 0, 10); one_sched = strtoull(nx().c_str(), 0, 10); }
        else if (a == "--race") racing = true;
        else if (a == "-v") verbose = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    scenario_fn fn = nullptr;
    for (int i = 0; i < n; ++i) if (name == list[i].name) fn = list[i].fn;
    if (!fn) { fprintf(stderr, "unknown scenario %s\n", name.c_str()); return 2; }
    shm = (shm_t*)mmap(nullptr, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return 2;
    if (racing)
    {
        race = (race_t*)mmap(nullptr, sizeof(race_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (race == MAP_FAILED) return 2;
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    timespec t0, t1;
    raw_syscall6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t0, 0, 0, 0, 0);
    auto elapsed = [&] {
        raw_syscall6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t1, 0, 0, 0, 0);
        return (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
    };
    std::unordered_set<uint64_t> seen;
    uint64_t execs = 0, kept = 0, total_steps = 0, bad = 0;
    auto emit = [&](uint64_t scen, uint64_t sched, const char* strat) {
        ++execs;
        total_steps += shm->steps;
        if (shm->overflow) { ++bad; return; }
        if (race)
        {
            std::string par, evs = reduce_race(par);
            if (!seen.insert(fnv(evs.data(), evs.size())).second || kept >= max_keep) return;
            ++kept;
            fprintf(f, "{\"scen\":%llu,\"sched\":%llu,\"strat\":\"%s\",\"p\":%s,\"ev\":[%s]}\n", (unsigned long long)scen, (unsigned long long)sched, strat, par.c_str(), evs.c_str());
            return;
        }
        uint64_t h = fnv(shm->log, shm->log_len, fnv(shm->par, shm->par_len));
        if (!seen.insert(h).second) return;
        if (kept >= max_keep) return;
        ++kept;
        fprintf(f, "{\"scen\":%llu,\"sched\":%llu,\"strat\":\"%s\",\"p\":%.*s,\"ev\":[%.*s]}\n", (unsigned long long)scen, (unsigned long long)sched, strat,
                shm->par_len ? (int)shm->par_len : 2, shm->par_len ? shm->par : "{}", (int)shm->log_len, shm->log);
    };
    bool crashed;
    int exhausted = 0;
    if (one)
    {
        exec_cfg c;
        c.scen_seed = one_scen;
        derive(c, one_sched, mode);
        run_one(c, fn, crashed);
        emit(one_scen, one_sched, mode.c_str());
    }
    else if (dfs >= 0)
    {
        // for each scenario seed enumerate all schedules with at most `dfs` preemptions at synchronisation points
        for (uint64_t s = 0; s < count && elapsed() < secs && stuck < 3; ++s)
        {
            exec_cfg c;
            c.scen_seed = seed + s;
            c.strategy = 2;
            c.bound = dfs;
            shm->n_prefix = 0;
            uint64_t k = 0;
            for (;;)
            {
                run_one(c, fn, crashed);
                emit(c.scen_seed, k++, "dfs");
                uint32_t i = shm->n_choices;
                bool found = false;
                while (i > 0)
                {
                    --i;
                    if (shm->choice[i] + 1 < shm->options[i] && !(shm->is_preempt_pt[i] && shm->preempts[i] >= dfs))
                    {
                        ++shm->choice[i];
                        shm->n_prefix = i + 1;
                        found = true;
                        break;
                    }
                }
                if (!found) { ++exhausted; break; }
                if (elapsed() >= secs || stuck >= 3) break;
            }
        }
    }
    else
    {
        for (uint64_t i = 0; i < count && elapsed() < secs && stuck < 3; ++i)
        {
            exec_cfg c;
            c.scen_seed = seed * 1000003ull + i / msched;
            derive(c, seed * 7919ull * 1000ull + i, mode);
            run_one(c, fn, crashed);
            emit(c.scen_seed, c.sched_seed, mode.c_str());
        }
    }
    fclose(f);
    fprintf(stderr, "{\"execs\":%llu,\"distinct\":%zu,\"kept\":%llu,\"steps\":%llu,\"overflow\":%llu,\"exhausted\":%d,\"secs\":%.2f}\n", (unsigned long long)execs, seen.size(),
            (unsigned long long)kept, (unsigned long long)total_steps, (unsigned long long)bad, exhausted, elapsed());
    (void)verbose;
    return 0;
}
}
