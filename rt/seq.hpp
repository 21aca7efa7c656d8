// Runtime of the drivers for sequential components: same interface as vsched.hpp (programs, event log),
// but without thread control.  Every execution runs in a forked child; abnormal ends become events.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vs
{
struct shared
{
    size_t par_len, log_len;
    bool overflow;
    char par[1 << 16];
    char log[1 << 26];
};
inline shared* shm;
inline uint64_t rng;
inline uint64_t part_no = 0, part_of = 1; // a sweep may be split among jobs

inline uint64_t rnd()
{
    uint64_t z = (rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline int rnd(int lo, int hi) { return lo + (int)(rnd() % (uint64_t)(hi - lo + 1)); }
inline int64_t rnd64(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + rnd() % ((uint64_t)hi - (uint64_t)lo + 1)); }
inline bool chance(int num, int den) { return (int)(rnd() % (uint64_t)den) < num; }
inline void append(const std::string& s)
{
    if (shm->log_len + s.size() + 2 > sizeof shm->log) { shm->overflow = true; return; }
    if (shm->log_len) shm->log[shm->log_len++] = ',';
    memcpy(shm->log + shm->log_len, s.data(), s.size());
    shm->log_len += s.size();
}
struct ev
{
    std::string buf;
    explicit ev(const char* kind) { buf = std::string("{\"e\":\"") + kind + "\""; }
    ev& i(const char* k, int64_t v) { buf += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
    ev& s(const char* k, const std::string& v) { buf += std::string(",\"") + k + "\":\"" + v + "\""; return *this; }
    ev& raw(const char* k, const std::string& v) { buf += std::string(",\"") + k + "\":" + v; return *this; }
    ~ev() { append(buf + "}"); }
};
inline void params(const std::string& j)
{
    shm->par_len = std::min(j.size(), sizeof shm->par);
    memcpy(shm->par, j.data(), shm->par_len);
}
// text as a JSON array of byte codes
inline std::string codes(const std::string& s)
{
    std::string r = "[";
    for (unsigned char c : s) { if (r.size() > 1) r += ','; r += std::to_string((int)c); }
    return r + "]";
}
template <class V> std::string arr(const V& v)
{
    std::string r = "[";
    for (auto x : v) { if (r.size() > 1) r += ','; r += std::to_string((long long)x); }
    return r + "]";
}
using scenario_fn = void (*)();
struct scenario { const char* name; scenario_fn fn; };

inline int driver_main(int argc, char** argv, const scenario* list, int n)
{
    std::string name, out = "/dev/stdout", mode = "seq";
    uint64_t seed = 1, count = 10;
    bool one = false;
    uint64_t one_scen = 0;
    int limit = 120;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--scenario") name = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--count") count = strtoull(nx().c_str(), 0, 10);
        else if (a == "--mode") mode = nx();
        else if (a == "--out") out = nx();
        else if (a == "--part") part_no = strtoull(nx().c_str(), 0, 10);
        else if (a == "--of") part_of = strtoull(nx().c_str(), 0, 10);
        else if (a == "--one") { one = true; one_scen = strtoull(nx().c_str(), 0, 10); nx(); }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    scenario_fn fn = nullptr;
    for (int i = 0; i < n; ++i) if (name == list[i].name) fn = list[i].fn;
    if (!fn) { fprintf(stderr, "unknown scenario %s\n", name.c_str()); return 2; }
    shm = (shared*)mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) return 2;
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    uint64_t execs = 0, over = 0;
    int hung = 0;
    for (uint64_t i = 0; i < (one ? 1 : count) && hung < 2; ++i)
    {
        uint64_t scen = one ? one_scen : seed * 1000003ull + i;
        shm->par_len = shm->log_len = 0;
        shm->overflow = false;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            alarm(limit);
            rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(9);
            rng = scen * 2654435761ull + 17;
            try { fn(); }
            catch (...) { append("{\"e\":\"uncaught\"}"); }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st))
        {
            bool h = WTERMSIG(st) == SIGALRM;
            hung += h;
            append(h ? "{\"e\":\"hang\"}" : "{\"e\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}");
        }
        else if (WEXITSTATUS(st)) append("{\"e\":\"crash\",\"sig\":" + std::to_string(-WEXITSTATUS(st)) + "}");
        ++execs;
        if (shm->overflow) { ++over; continue; }
        fprintf(f, "{\"scen\":%llu,\"sched\":0,\"strat\":\"seq\",\"p\":%.*s,\"ev\":[%.*s]}\n", (unsigned long long)scen, shm->par_len ? (int)shm->par_len : 2,
                shm->par_len ? shm->par : "{}", (int)shm->log_len, shm->log);
    }
    fclose(f);
    fprintf(stderr, "{\"execs\":%llu,\"overflow\":%llu}\n", (unsigned long long)execs, (unsigned long long)over);
    return 0;
}
}
