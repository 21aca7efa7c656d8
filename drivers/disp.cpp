// event_dispatcher driver
#include "token.hpp"
#include "vsched.hpp"
#include <teiacare/sdk/event_dispatcher.hpp>

#include <chrono>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace
{
using disp_t = tc::sdk::event_dispatcher;
struct world
{
    disp_t* d = nullptr;
    bool gone = false;
    disp_t* other = nullptr; // an unrelated dispatcher
    std::mutex m;
    std::vector<unsigned long> ids; // ids returned so far
    int next_k = 0, next_m = 0;
    int chain = 0; // emissions made by handlers
    int gate_open = 0;
    std::mutex gm;
    std::condition_variable gcv;
} *w;

struct op
{
    std::string name;
    int ev = 0, sig = 0, n = 0;
    std::string kind = "plain"; // plain, throw, gate
    int sleep = 0;
    std::vector<op> nested;
};
void exec_op(const op& o);

std::string ev_name(int e)
{
    switch (e)
    {
    case 0: return "E";
    case 1: return "E1";
    case 2: return "";
    case 3: return "E" + std::to_string(typeid(int).hash_code());
    case 4: return "an-event-with-a-rather-long-name";
    case 5: return "an-event-with-a-rather-long-name-too";
    default: return "event/" + std::to_string(e * 7919);
    }
}
std::string text(int m) { return "payload-text-of-emission-number-" + std::to_string(m); }
int untext(const std::string& s)
{
    const std::string p = "payload-text-of-emission-number-";
    if (s.rfind(p, 0) != 0) return -77;
    try { return std::stoi(s.substr(p.size())); } catch (...) { return -78; }
}

void body(int k, int m, const std::shared_ptr<const op>& p)
{
    vs::ev("begin").i("k", k).i("m", m);
    if (p->sleep) vs::sleep_us(p->sleep);
    if (p->kind == "gate")
    {
        vs::unrecorded u_; std::unique_lock l(w->gm);
        w->gcv.wait(l, [] { return w->gate_open > 0; });
    }
    for (auto& o : p->nested)
    {
        if (o.name == "emit")
        {
            vs::unrecorded u_; std::scoped_lock l(w->m);
            if (++w->chain > 4) continue; // a handler may emit the event it handles
        }
        exec_op(o);
    }
    vs::ev("end").i("k", k).i("m", m);
    if (p->kind == "throw") throw 42;
}

unsigned long add_to(disp_t* d, int e, int sig, int k, const std::shared_ptr<const op>& p)
{
    std::string n = ev_name(e);
    switch (sig)
    {
    case 0: return d->add_handler(n, [k, p, c = vs::token(k)]() { body(k, c.ok() ? 0 : -88, p); });
    case 1: return d->add_handler<int>(n, [k, p, c = vs::token(k)](int m) { body(k, c.ok() ? m : -88, p); });
    case 2: return d->add_handler<std::string>(n, [k, p, c = vs::token(k)](std::string s) { int m = untext(s); s = "consumed by the handler, no longer what was emitted"; body(k, c.ok() ? m : -88, p); });
    case 3: return d->add_handler<int, double>(n, [k, p, c = vs::token(k)](int m, double x) { body(k, c.ok() ? x == m + 0.5 ? m : -77 : -88, p); });
    case 4: return d->add_handler<double, int>(n, [k, p, c = vs::token(k)](double x, int m) { body(k, c.ok() ? x == m + 0.5 ? m : -77 : -88, p); });
    case 5: return d->add_handler<int, std::string>(n, [k, p, c = vs::token(k)](int m, const std::string& s) { body(k, c.ok() ? untext(s) == m ? m : -77 : -88, p); });
    case 6: return d->add_handler<std::string, int>(n, [k, p, c = vs::token(k)](const std::string& s, int m) { body(k, c.ok() ? untext(s) == m ? m : -77 : -88, p); });
    case 7: return d->add_handler<unsigned int>(n, [k, p, c = vs::token(k)](unsigned int m) { body(k, c.ok() ? (int)m : -88, p); });
    case 8: return d->add_handler<int, int>(n, [k, p, c = vs::token(k)](int m, int x) { body(k, c.ok() ? x == m + 1 ? m : -77 : -88, p); });
    case 9: return d->add_handler<std::vector<std::string>>(n, [k, p, c = vs::token(k)](const std::vector<std::string>& v) { body(k, c.ok() ? v.size() == 2 && v[0] == v[1] ? untext(v[0]) : -77 : -88, p); });
    default: return d->add_handler<int, double, std::string>(n, [k, p, c = vs::token(k)](int m, double x, const std::string& s) { body(k, c.ok() ? x == m + 0.5 && untext(s) == m ? m : -77 : -88, p); });
    }
}
bool emit_to(disp_t* d, int e, int sig, int m)
{
    std::string n = ev_name(e);
    switch (sig)
    {
    case 0: return d->emit(n);
    case 1: { int v = m; bool r = d->emit(n, v); v = -1; return r; }
    case 2: { std::string s = text(m); bool r = d->emit(n, s); s = "changed after the emission, must not be seen"; return r; }
    case 3: return d->emit(n, m, m + 0.5);
    case 4: return d->emit(n, m + 0.5, m);
    case 5: return d->emit(n, m, text(m));
    case 6: return d->emit(n, text(m), m);
    case 7: return d->emit(n, (unsigned int)m);
    case 8: return d->emit(n, m, m + 1);
    case 9: { std::vector<std::string> v{text(m), text(m)}; bool r = d->emit(n, v); v.clear(); return r; }
    default: return d->emit(n, m, m + 0.5, text(m));
    }
}

void exec_op(const op& o)
{
    if (o.name == "sleep") { vs::sleep_us(o.n); return; }
    if (o.name == "other")
    {
        // activity on another dispatcher must not matter
        std::scoped_lock l(w->m);
        if (!w->other) return;
        auto p = std::make_shared<const op>();
        for (int i = 0; i < o.n; ++i) (void)w->other->add_handler("E", []() {});
        if (o.sig & 1) { delete w->other; w->other = new disp_t; }
        else if (o.sig & 2) w->other->remove_event("E");
        return;
    }
    if (o.name == "add")
    {
        int k;
        { vs::unrecorded u_; std::scoped_lock l(w->m); k = ++w->next_k; }
        auto p = std::make_shared<const op>(o);
        vs::ev("call").s("op", "add").i("k", k).i("ev", o.ev).i("sig", o.sig).i("v", 0);
        unsigned long id = add_to(w->d, o.ev, o.sig, k, p);
        vs::ev("ret").s("op", "add").i("r", (int64_t)id);
        vs::unrecorded u_; std::scoped_lock l(w->m);
        w->ids.push_back(id);
        return;
    }
    if (o.name == "emit")
    {
        int m = 0;
        if (o.sig != 0) { vs::unrecorded u_; std::scoped_lock l(w->m); m = ++w->next_m; }
        vs::ev("call").s("op", "emit").i("k", 0).i("ev", o.ev).i("sig", o.sig).i("v", m);
        bool r = emit_to(w->d, o.ev, o.sig, m);
        vs::ev("ret").s("op", "emit").i("r", r);
        return;
    }
    if (o.name == "rmh")
    {
        unsigned long id = 0;
        {
            vs::unrecorded u_; std::scoped_lock l(w->m);
            if (!w->ids.empty()) id = w->ids[(size_t)o.n % w->ids.size()];
        }
        vs::ev("call").s("op", "rmh").i("k", 0).i("ev", 0).i("sig", 0).i("v", (int64_t)id);
        bool r = w->d->remove_handler(id);
        vs::ev("ret").s("op", "rmh").i("r", r);
        return;
    }
    vs::ev("call").s("op", o.name).i("k", 0).i("ev", o.ev).i("sig", 0).i("v", o.n);
    int64_t r = 0;
    if (o.name == "rme") r = w->d->remove_event(ev_name(o.ev));
    else if (o.name == "start") r = o.n == 1 ? w->d->start() : w->d->start((unsigned)o.n); // (the default; 0 is taken as 1)
    else if (o.name == "stop") r = w->d->stop();
    else if (o.name == "destroy") { w->d->~disp_t(); r = 1; w->gone = true; }
    vs::ev("ret").s("op", o.name).i("r", r);
}
op mk(const std::string& n, int ev = 0, int sig = 0, int v = 0)
{
    op o;
    o.name = n; o.ev = ev; o.sig = sig; o.n = v;
    return o;
}
void quiet()
{
    vs::quiesce();
    vs::ev("quiet");
    vs::live_event(w->gone);
}
void open_gate()
{
    vs::unrecorded u_; std::scoped_lock l(w->gm);
    w->gate_open = 1;
    w->gcv.notify_all();
}
void init(int hw = 0)
{
    if (!hw) hw = vs::rnd(1, 3);
    vs::set_hw(hw);
    vs::params("{\"hw\":" + std::to_string(hw) + "}");
    w = new world;
    if (vs::chance(1, 2)) w->other = new disp_t;
    w->d = new disp_t;
    if (vs::chance(1, 2) && !w->other) w->other = new disp_t;
}

// the events and signatures one program uses
struct pool
{
    std::vector<int> evs, sigs;
    pool()
    {
        static const std::vector<std::vector<int>> ss = {{3, 4}, {5, 6}, {0, 1}, {1, 2, 7}, {1, 8}, {1, 3, 4, 10}, {2, 9}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}};
        sigs = ss[(size_t)vs::rnd(0, (int)ss.size() - 1)];
        static const std::vector<std::vector<int>> es = {{0, 1}, {0, 2}, {0}, {0, 3}, {4, 5}, {0, 1, 2, 3, 4, 5}};
        evs = es[(size_t)vs::rnd(0, (int)es.size() - 1)];
    }
    int e() const { return evs[(size_t)vs::rnd(0, (int)evs.size() - 1)]; }
    int s() const { return sigs[(size_t)vs::rnd(0, (int)sigs.size() - 1)]; }
};
op rnd_op(const pool& p, int adds, int emits, int rmhs, int rmes, bool gates, int depth = 0)
{
    int r = vs::rnd(1, adds + emits + rmhs + rmes);
    if (r <= adds)
    {
        op o = mk("add", p.e(), p.s());
        if (vs::chance(1, 8)) o.kind = "throw";
        if (gates && vs::chance(1, 4)) o.kind = "gate";
        if (vs::chance(1, 6)) o.sleep = vs::rnd(1, 3) * 1000;
        if (depth == 0 && vs::chance(1, 8)) o.nested.push_back(rnd_op(p, 1, 2, 2, 1, false, 1));
        return o;
    }
    if (r <= adds + emits) return mk("emit", p.e(), p.s());
    if (r <= adds + emits + rmhs) return mk("rmh", 0, 0, vs::rnd(0, 20));
    return mk("rme", p.e());
}
using prog = std::vector<std::vector<op>>;
void run_threads(const prog& p, bool gates)
{
    std::vector<std::thread> th;
    for (auto& q : p) th.emplace_back([&q] { for (auto& o : q) exec_op(o); });
    quiet();
    if (gates) { vs::sleep_us(2000); quiet(); open_gate(); }
    for (auto& t : th) t.join();
}

void emits()
{
    init();
    pool pl;
    bool gates = vs::chance(1, 4);
    for (int i = vs::rnd(0, 3); i > 0; --i) exec_op(rnd_op(pl, 1, 0, 0, 0, gates));
    exec_op(mk("start", 0, 0, vs::rnd(0, 3)));
    if (vs::chance(1, 2)) quiet();
    prog p((size_t)vs::rnd(1, 3));
    for (auto& q : p)
        for (int i = vs::rnd(1, p.size() == 3 ? 3 : 5); i > 0; --i)
        {
            if (vs::chance(1, 8)) q.push_back(mk("other", 0, vs::rnd(0, 3), vs::rnd(0, 2)));
            q.push_back(rnd_op(pl, 3, 6, 1, 1, gates));
        }
    run_threads(p, gates);
    vs::sleep_us(20000);
    quiet();
    for (int i = vs::rnd(0, 2); i > 0; --i) exec_op(mk("emit", pl.e(), pl.s()));
    vs::sleep_us(20000);
    quiet();
    exec_op(mk("destroy"));
    quiet();
}

void registry()
{
    init();
    pool pl;
    prog p((size_t)vs::rnd(1, 3));
    if (vs::chance(1, 2)) exec_op(mk("start", 0, 0, 1));
    for (auto& q : p)
        for (int i = vs::rnd(2, p.size() == 3 ? 4 : 8); i > 0; --i)
        {
            if (vs::chance(1, 6)) q.push_back(mk("other", 0, vs::rnd(0, 3), vs::rnd(0, 2)));
            q.push_back(rnd_op(pl, 5, 1, 3, 2, false));
        }
    run_threads(p, false);
    quiet();
    // afterwards, the registry is exactly what the specification says: probe it
    for (int i = 0; i < 4; ++i) exec_op(vs::chance(1, 2) ? mk("rme", pl.e()) : mk("rmh", 0, 0, vs::rnd(0, 20)));
    for (int e : pl.evs) exec_op(mk("rme", e));
    quiet();
    exec_op(mk("destroy"));
    quiet();
}

// many events, handlers and emissions
void bulk()
{
    init(vs::rnd(1, 8));
    pool pl;
    w->chain = 4;
    int nev = vs::rnd(1, 40);
    auto e = [&] { return vs::chance(1, 2) ? vs::rnd(0, 5) : 6 + vs::rnd(0, nev); };
    bool early = vs::chance(1, 4);
    if (!early) exec_op(mk("start", 0, 0, vs::rnd(1, 10)));
    int adds = vs::rnd(10, 70);
    std::vector<int> evs;
    for (int i = 0; i < adds; ++i)
    {
        if (vs::chance(1, 12)) exec_op(mk("other", 0, vs::rnd(0, 3), vs::rnd(0, 5)));
        op o = mk("add", evs.empty() || vs::chance(1, 3) ? e() : evs[(size_t)vs::rnd(0, (int)evs.size() - 1)], pl.s());
        if (vs::chance(1, 12)) o.kind = "throw";
        if (vs::chance(1, 10)) o.sleep = vs::rnd(1, 3) * 1000;
        evs.push_back(o.ev);
        exec_op(o);
    }
    for (int round = vs::rnd(1, 3); round > 0; --round)
    {
        for (int i = vs::rnd(0, 12); i > 0; --i) exec_op(vs::chance(1, 8) ? mk("rme", evs[(size_t)vs::rnd(0, adds - 1)]) : mk("rmh", 0, 0, vs::rnd(0, 200)));
        if (early) { exec_op(mk("start", 0, 0, vs::rnd(1, 10))); early = false; }
        if (vs::chance(1, 2)) quiet();
        for (int i = vs::rnd(5, 25); i > 0; --i) exec_op(mk("emit", evs[(size_t)vs::rnd(0, adds - 1)], pl.s()));
        quiet();
        vs::sleep_us(300000);
        quiet();
        for (int i = vs::rnd(0, 4); i > 0; --i) exec_op(mk("add", evs[(size_t)vs::rnd(0, adds - 1)], pl.s()));
    }
    if (vs::chance(1, 3))
    {
        for (int i = vs::rnd(1, 8); i > 0; --i) exec_op(mk("emit", evs[(size_t)vs::rnd(0, adds - 1)], pl.s()));
        exec_op(mk("stop"));
        quiet();
        for (int i = 0; i < 4; ++i) exec_op(vs::chance(1, 2) ? mk("rme", evs[(size_t)vs::rnd(0, adds - 1)]) : mk("rmh", 0, 0, vs::rnd(0, 200)));
        for (int i = vs::rnd(1, 8); i > 0; --i) exec_op(mk("emit", evs[(size_t)vs::rnd(0, adds - 1)], pl.s()));
    }
    exec_op(mk("destroy"));
    quiet();
}

void lifecycle()
{
    init();
    pool pl;
    bool gates = vs::chance(1, 4);
    if (vs::chance(2, 3)) exec_op(mk("start", 0, 0, vs::rnd(0, 3)));
    for (int i = vs::rnd(0, 2); i > 0; --i) exec_op(rnd_op(pl, 1, 0, 0, 0, gates));
    for (int i = vs::rnd(0, 3); i > 0; --i) exec_op(rnd_op(pl, 0, 1, 0, 0, gates));
    if (vs::chance(1, 3))
    {
        // a handler that uses the dispatcher while it is being stopped
        op o = mk("add", pl.e(), pl.s());
        o.sleep = vs::chance(1, 2) ? vs::rnd(1, 3) * 1000 : 0;
        for (int i = vs::rnd(1, 2); i > 0; --i) o.nested.push_back(rnd_op(pl, 1, 2, 1, 1, false, 1));
        exec_op(o);
        exec_op(mk("emit", o.ev, o.sig));
        if (vs::chance(1, 2)) vs::sleep_us(vs::rnd(0, 2) * 500);
    }
    prog p((size_t)vs::rnd(1, 3));
    for (auto& q : p)
        for (int i = vs::rnd(1, 3); i > 0; --i)
        {
            int r = vs::rnd(0, 9);
            if (r <= 3) q.push_back(mk("stop"));
            else if (r <= 5) q.push_back(mk("start", 0, 0, vs::rnd(0, 3)));
            else q.push_back(rnd_op(pl, 2, 4, 1, 1, gates));
        }
    run_threads(p, gates);
    vs::sleep_us(10000);
    quiet();
    for (int i = vs::rnd(0, 2); i > 0; --i) exec_op(mk("emit", pl.e(), pl.s()));
    open_gate();
    if (vs::chance(1, 2)) { exec_op(mk("stop")); exec_op(mk("emit", pl.e(), pl.s())); quiet(); }
    if (vs::chance(1, 2))
    {
        exec_op(mk("start", 0, 0, vs::rnd(0, 2)));
        quiet();
        exec_op(mk("emit", pl.e(), pl.s()));
        exec_op(rnd_op(pl, 1, 0, 0, 0, false));
        exec_op(mk("emit", pl.e(), pl.s()));
        vs::sleep_us(10000);
        quiet();
    }
    exec_op(mk("destroy"));
    quiet();
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"emits", emits}, {"registry", registry}, {"lifecycle", lifecycle}, {"bulk", bulk}};
    return vs::driver_main(argc, argv, list, 4);
}
