// thread_pool driver
#include "token.hpp"
#include "vsched.hpp"
#include <teiacare/sdk/thread_pool.hpp>

#include <chrono>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace
{
using pool_t = tc::sdk::thread_pool;
struct boom { int v; };

struct world
{
    pool_t* pool = nullptr;
    bool gone = false;
    std::mutex m; // driver bookkeeping
    std::map<int, std::future<int>> futs;
    int next_k = 0;
    int gate_open = 0;
    std::mutex gm;
    std::condition_variable gcv;
} *w;

struct plan { const char* kind; int a; int nested; int sleep; vs::token tok{}; };

int body(int k, int a, const std::string& tag, plan p);

void submit(plan p)
{
    int k;
    {
        vs::unrecorded u_; std::scoped_lock l(w->m);
        k = ++w->next_k;
    }
    p.tok = vs::token(k);
    vs::ev("call").s("op", "run").i("k", k).s("kind", p.kind).i("a", p.a);
    std::future<int> f;
    int style = (k + p.a) % 3;
    if (style == 0)
    {
        // lvalue arguments, changed right after submission
        int kk = k, aa = p.a;
        std::string tag = "argument-string-number-" + std::to_string(p.a);
        f = w->pool->run(body, kk, aa, tag, p);
        kk = -1; aa = -1; tag = "overwritten";
    }
    else if (style == 1)
    {
        f = w->pool->run([k, p] { return body(k, p.a, "argument-string-number-" + std::to_string(p.a), p); });
    }
    else
    {
        auto fn = [p](int k, int a, std::string t) { return body(k, a, t, p); };
        f = w->pool->run(fn, k, p.a, std::string("argument-string-number-" + std::to_string(p.a)));
    }
    vs::ev("ret").s("op", "run").i("r", 1);
    vs::unrecorded u_; std::scoped_lock l(w->m);
    w->futs[k] = std::move(f);
}

int body(int k, int a, const std::string& tag, plan p)
{
    vs::ev("begin").i("k", k).i("a", !p.tok.ok(k) ? -88 : tag == "argument-string-number-" + std::to_string(p.a) ? a : -77);
    std::string kind = p.kind;
    if (p.sleep) vs::sleep_us(p.sleep * 1000);
    if (kind == "gate")
    {
        vs::unrecorded u_; std::unique_lock l(w->gm);
        w->gcv.wait(l, [] { return w->gate_open > 0; });
    }
    for (int i = 0; i < p.nested; ++i) submit({"ret", p.a + 1 + i, 0, 0});
    vs::ev("end").i("k", k);
    if (kind == "throw") throw boom{5 * k + a};
    return 7 * k + a;
}

void fut_event(int k, std::future<int>& f, bool block)
{
    if (!block && f.wait_for(std::chrono::seconds(0)) != std::future_status::ready)
    {
        vs::ev("fut").i("k", k).s("x", "pending").i("v", 0);
        return;
    }
    try
    {
        int v = f.get();
        vs::ev("fut").i("k", k).s("x", "val").i("v", v);
    }
    catch (const boom& b) { vs::ev("fut").i("k", k).s("x", "exc").i("v", b.v); }
    catch (const std::future_error& e)
    {
        vs::ev("fut").i("k", k).s("x", e.code() == std::future_errc::broken_promise ? "broken" : "error").i("v", 0);
    }
    catch (...) { vs::ev("fut").i("k", k).s("x", "error").i("v", -1); }
}

void poll_futs()
{
    std::vector<int> done;
    for (auto& [k, f] : w->futs)
    {
        bool ready = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
        fut_event(k, f, false);
        if (ready) done.push_back(k);
    }
    for (int k : done) w->futs.erase(k);
}

bool start(unsigned n)
{
    vs::ev("call").s("op", "start").i("n", n);
    bool r = n == std::thread::hardware_concurrency() ? w->pool->start() : w->pool->start(n); // (the default)
    vs::ev("ret").s("op", "start").i("r", r);
    return r;
}
bool stop()
{
    vs::ev("call").s("op", "stop");
    bool r = w->pool->stop();
    vs::ev("ret").s("op", "stop").i("r", r);
    return r;
}
void destroy()
{
    vs::ev("call").s("op", "destroy");
    w->pool->~thread_pool(); // (a task still running may submit during the destruction: the pointer stays valid)
    vs::ev("ret").s("op", "destroy").i("r", 1);
    w->gone = true;
}
void count()
{
    vs::ev("call").s("op", "count");
    size_t c = w->pool->threads_count();
    vs::ev("ret").s("op", "count").i("r", (int64_t)c);
}
void running()
{
    vs::ev("call").s("op", "running");
    bool r = w->pool->is_running();
    vs::ev("ret").s("op", "running").i("r", r);
}
void quiet()
{
    vs::quiesce();
    vs::ev("quiet");
    vs::live_event(w->futs, w->gone);
}
void open_gate()
{
    vs::unrecorded u_; std::scoped_lock l(w->gm);
    w->gate_open = 1;
    w->gcv.notify_all();
}

void init(int hw = 0)
{
    if (!hw) hw = vs::rnd(1, 4);
    vs::set_hw(hw);
    vs::params("{\"hw\":" + std::to_string(hw) + "}");
    w = new world;
    w->pool = new pool_t;
}

plan rnd_plan(bool gates)
{
    int r = vs::rnd(0, 9);
    plan p{"ret", vs::rnd(0, 5), 0, 0};
    if (r <= 1) p.kind = "throw";
    if (gates && r >= 7) p.kind = "gate";
    if (vs::chance(1, 5)) p.nested = vs::rnd(1, 2);
    if (vs::chance(1, 4)) p.sleep = vs::rnd(1, 3);
    return p;
}

// pool running during the whole run, several submitters
void submitters()
{
    init();
    bool early = vs::chance(1, 4);
    if (early) submit(rnd_plan(false)); // accepted before the start
    start((unsigned)vs::rnd(0, 5));
    count();
    running();
    bool gates = vs::chance(1, 2);
    int nth = vs::rnd(1, 3);
    std::vector<std::vector<plan>> prog((size_t)nth);
    for (auto& p : prog) for (int i = vs::rnd(1, 3); i > 0; --i) p.push_back(rnd_plan(gates));
    std::vector<std::thread> th;
    bool warm = vs::chance(1, 2);
    if (warm) quiet(); // all workers parked
    for (auto& p : prog) th.emplace_back([&p] { for (auto& x : p) submit(x); });
    quiet();
    vs::sleep_us(20000);
    if (gates) { quiet(); open_gate(); }
    for (auto& t : th) t.join();
    quiet();
    vs::sleep_us(30000);
    quiet();
    poll_futs();
    count();
    // second burst, all workers parked again
    if (vs::chance(1, 2))
    {
        for (int i = vs::rnd(1, 4); i > 0; --i) submit(rnd_plan(false));
        quiet();
        vs::sleep_us(30000);
        quiet();
        poll_futs();
    }
    destroy();
    poll_futs();
    quiet();
}

// clients that wait for their own futures
void getters()
{
    init();
    start((unsigned)vs::rnd(1, 3));
    int nth = vs::rnd(1, 3);
    std::vector<std::thread> th;
    std::vector<plan> ps;
    for (int i = 0; i < nth; ++i) ps.push_back(rnd_plan(false));
    for (int i = 0; i < nth; ++i)
        th.emplace_back([p = ps[(size_t)i]]() mutable {
            for (int j = 0; j < 2; ++j)
            {
                p.nested = 0;
                int k;
                { vs::unrecorded u_; std::scoped_lock l(w->m); k = ++w->next_k; }
                p.tok = vs::token(k);
                vs::ev("call").s("op", "run").i("k", k).s("kind", p.kind).i("a", p.a);
                auto f = w->pool->run([k, p] { return body(k, p.a, "argument-string-number-" + std::to_string(p.a), p); });
                vs::ev("ret").s("op", "run").i("r", 1);
                fut_event(k, f, true);
            }
        });
    for (auto& t : th) t.join();
    ps.clear();
    quiet();
    destroy();
    quiet();
}

// start/stop from several threads, concurrent submissions, restarts
void lifecycle()
{
    init();
    if (vs::chance(2, 3)) start((unsigned)vs::rnd(0, 5));
    int nth = vs::rnd(1, 3);
    std::vector<std::vector<int>> prog((size_t)nth);
    bool gates = vs::chance(1, 3);
    for (auto& p : prog) for (int i = vs::rnd(1, 4); i > 0; --i) p.push_back(vs::rnd(0, 9));
    std::vector<std::vector<plan>> plans((size_t)nth);
    for (size_t i = 0; i < prog.size(); ++i) for (size_t j = 0; j < prog[i].size(); ++j) plans[i].push_back(rnd_plan(gates));
    std::vector<std::thread> th;
    if (vs::chance(1, 2)) for (int i = vs::rnd(1, 3); i > 0; --i) submit(rnd_plan(gates));
    if (vs::chance(1, 2)) quiet();
    for (size_t i = 0; i < prog.size(); ++i)
        th.emplace_back([&, i] {
            for (size_t j = 0; j < prog[i].size(); ++j)
            {
                int o = prog[i][j];
                if (o <= 4) submit(plans[i][j]);
                else if (o <= 6) stop();
                else if (o == 7) { count(); running(); }
                else start((unsigned)(o % 3) + (unsigned)j);
            }
        });
    quiet();
    vs::sleep_us(20000);
    quiet();
    open_gate();
    for (auto& t : th) t.join();
    vs::sleep_us(20000);
    quiet();
    running();
    count();
    poll_futs();
    int more = vs::rnd(0, 3);
    if (more & 1) { stop(); quiet(); vs::sleep_us(5000); quiet(); poll_futs(); running(); count(); }
    if (more & 2) { start((unsigned)vs::rnd(0, 4)); running(); count(); submit(rnd_plan(false)); quiet(); vs::sleep_us(30000); quiet(); poll_futs(); if (vs::chance(1, 2)) submit(rnd_plan(false)); }
    destroy();
    poll_futs();
    quiet();
}

// many tasks and many workers
void bulk()
{
    init(vs::rnd(1, 12));
    int n = vs::rnd(20, 120), before = vs::chance(1, 3) ? vs::rnd(0, n) : 0;
    bool gates = vs::chance(1, 3), drop = vs::chance(1, 4);
    auto one = [&] {
        plan p{vs::chance(1, 10) ? "throw" : gates && vs::chance(1, 8) ? "gate" : "ret", vs::rnd(0, 5), !drop && vs::chance(1, 20) ? vs::rnd(1, 3) : 0, vs::chance(1, 6) ? vs::rnd(1, 3) : 0};
        submit(p);
    };
    for (int i = 0; i < before; ++i) one();
    start((unsigned)vs::rnd(1, 14));
    count();
    if (vs::chance(1, 2)) quiet();
    int nth = vs::chance(1, 2) ? 1 : vs::rnd(2, 4);
    std::vector<std::thread> th;
    for (int j = 1; j < nth; ++j) th.emplace_back([&] { for (int i = before; i < n; i += nth) one(); });
    for (int i = before; i < n; i += nth) one();
    for (auto& t : th) t.join();
    quiet();
    if (vs::chance(1, 2)) vs::sleep_us(vs::rnd(0, 5) * 1000);
    if (gates || !drop) { quiet(); open_gate(); }
    if (!drop) { vs::sleep_us(1000000); quiet(); }
    if (drop) { stop(); quiet(); }
    poll_futs();
    if (vs::chance(1, 3)) { if (drop) start((unsigned)vs::rnd(1, 14)); for (int i = vs::rnd(1, 30); i > 0; --i) one(); vs::sleep_us(200000); quiet(); poll_futs(); }
    open_gate();
    destroy();
    poll_futs();
    quiet();
}

// stop while workers are busy and tasks are queued behind them
void busystop()
{
    init();
    int n = vs::rnd(1, 3);
    start((unsigned)n);
    for (int i = vs::rnd(1, 4); i > 0; --i) submit({vs::chance(2, 3) ? "gate" : "ret", vs::rnd(0, 3), 0, vs::chance(1, 4) ? 2 : 0});
    for (int i = vs::rnd(0, 3); i > 0; --i) submit(rnd_plan(false));
    if (vs::chance(1, 2)) quiet();
    std::thread a([] { stop(); });
    std::thread b([late = vs::chance(1, 2)] { if (late) submit({"ret", 1, 0, 0}); else stop(); });
    std::thread c([r = vs::chance(1, 3), o = vs::chance(1, 3)] { if (o) { count(); running(); } if (r) start(2); if (o) { running(); count(); } });
    quiet();
    vs::sleep_us(10000);
    quiet();
    open_gate();
    a.join();
    b.join();
    c.join();
    quiet();
    vs::sleep_us(10000);
    quiet();
    poll_futs();
    running();
    count();
    if (vs::chance(1, 2)) { start(2); quiet(); submit({"ret", 3, 0, 0}); quiet(); poll_futs(); }
    destroy();
    poll_futs();
    quiet();
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"submitters", submitters}, {"getters", getters}, {"lifecycle", lifecycle}, {"busystop", busystop}, {"bulk", bulk}};
    return vs::driver_main(argc, argv, list, 5);
}
