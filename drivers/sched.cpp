// task_scheduler driver
#include "token.hpp"
#include "vsched.hpp"
#include <teiacare/sdk/task_scheduler.hpp>

#include <chrono>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

namespace
{
using sched_t = tc::sdk::task_scheduler;
using std::chrono::microseconds;
struct boom { int v; };

struct world
{
    sched_t* s = nullptr;
    bool gone = false;
    std::mutex m;
    std::map<int, std::future<int>> futs;
    int next_k = 0;
    int gate_open = 0;
    std::mutex gm;
    std::condition_variable gcv;
    tc::sdk::clock::time_point base;
} *w;

// one API operation, or a body plan
struct op
{
    std::string name;
    int id = 0;       // 0: none
    int t1 = 0;       // due offset / interval, in us
    int t2 = 0;       // delay
    bool on = false;
    int a = 0;
    std::string kind = "ret"; // ret, throw, gate
    int sleep = 0;    // body duration (us)
    int style = 0;
    vs::token tok{};
    std::vector<op> nested; // operations executed by the body
};
void exec_op(const op& o);

int body(int k, int a, const std::string& tag, std::shared_ptr<const op> p)
{
    vs::ev("begin").i("k", k).i("a", !p->tok.ok(k) ? -88 : tag == "argument-string-number-" + std::to_string(p->a) ? a : -77);
    if (p->sleep) vs::sleep_us(p->sleep);
    if (p->kind == "gate")
    {
        vs::unrecorded u_; std::unique_lock l(w->gm);
        w->gcv.wait(l, [] { return w->gate_open > 0; });
    }
    for (auto& n : p->nested) exec_op(n);
    vs::ev("end").i("k", k);
    if (p->kind == "throw") throw boom{5 * k + a};
    return 7 * k + a;
}

std::string id_name(int id) { return id == 0 ? std::string() : "the-task-identifier-" + std::to_string(id); }

struct still
{
    still() { vs::no_time_jumps(true); }
    ~still() { vs::no_time_jumps(false); }
};

void schedule(const op& o)
{
    still st;
    int k;
    {
        vs::unrecorded u_; std::scoped_lock l(w->m);
        k = ++w->next_k;
    }
    op mine = o;
    mine.tok = vs::token(k);
    auto p = std::make_shared<const op>(std::move(mine));
    auto tag = [](int a) { return "argument-string-number-" + std::to_string(a); };
    bool rec = o.name == "every";
    bool absolute = o.name == "at";
    int64_t now = vs::now_us();
    // t1: due time relative to now (one-shot) / interval;  t2: initial delay
    int64_t due = rec ? now + o.t2 : now + o.t1;
    vs::ev("call").s("op", rec ? "every" : "once").i("k", k).i("id", o.id).i("due", due).i("iv", rec ? o.t1 : 0).s("kind", o.kind).i("a", o.a);
    std::optional<std::future<int>> f;
    bool ok = false;
    auto fn = [p](int k, int a, const std::string& t) { return body(k, a, t, p); };
    auto closure = [k, p, tag] { return body(k, p->a, tag(p->a), p); };
    auto tp = [&] { return w->base + microseconds(due); };
    if (rec)
    {
        auto iv = microseconds(o.t1);
        if (o.id == 0) ok = o.style & 1 ? w->s->every(iv, fn, k, o.a, tag(o.a)) : w->s->every(iv, closure);
        else if (o.t2 != 0 || (o.style & 1)) ok = w->s->every(id_name(o.id), iv, tc::sdk::clock::duration(microseconds(o.t2)), fn, k, o.a, tag(o.a));
        else ok = w->s->every(id_name(o.id), iv, fn, k, o.a, tag(o.a));
    }
    else if (absolute)
    {
        if (o.id) f = w->s->at(id_name(o.id), tp(), fn, k, o.a, tag(o.a));
        else if (o.style & 1)
        {
            int kk = k, aa = o.a;
            std::string tt = tag(o.a);
            f = w->s->at(tp(), fn, kk, aa, tt);
            kk = aa = -1; tt = "overwritten";
        }
        else f = w->s->at(tp(), closure);
        ok = f.has_value();
    }
    else
    {
        auto d = microseconds(o.t1);
        if (o.id) f = w->s->in(id_name(o.id), d, fn, k, o.a, tag(o.a));
        else if (o.style & 1) f = w->s->in(d, fn, k, o.a, tag(o.a));
        else f = w->s->in(d, closure);
        ok = f.has_value();
    }
    vs::ev("ret").s("op", rec ? "every" : "once").i("r", ok);
    if (f)
    {
        vs::unrecorded u_; std::scoped_lock l(w->m);
        w->futs[k] = std::move(*f);
    }
}

void exec_op(const op& o)
{
    if (o.name == "every" || o.name == "at" || o.name == "in") { schedule(o); return; }
    if (o.name == "sleep") { vs::sleep_us(o.t1); return; }
    still st;
    vs::ev("call").s("op", o.name).i("id", o.id).i("v", o.name == "enable" ? o.on : o.t1);
    int64_t r = 0;
    if (o.name == "remove") r = w->s->remove_task(id_name(o.id));
    else if (o.name == "enable") r = w->s->set_enabled(id_name(o.id), o.on);
    else if (o.name == "update") r = w->s->update_interval(id_name(o.id), microseconds(o.t1));
    else if (o.name == "sched") r = w->s->is_scheduled(id_name(o.id));
    else if (o.name == "en") r = w->s->is_enabled(id_name(o.id));
    else if (o.name == "iv")
    {
        auto d = w->s->get_interval(id_name(o.id));
        r = d ? std::chrono::duration_cast<microseconds>(*d).count() : -1;
    }
    else if (o.name == "size") r = (int64_t)w->s->tasks_size();
    else if (o.name == "start") r = (unsigned)o.t1 == std::thread::hardware_concurrency() ? w->s->start() : w->s->start((unsigned)o.t1); // (the default)
    else if (o.name == "stop") r = w->s->stop();
    else if (o.name == "destroy") { w->s->~sched_t(); r = 1; w->gone = true; }
    vs::ev("ret").s("op", o.name).i("r", r);
}
op mk(const std::string& n, int id = 0, int t1 = 0, int t2 = 0)
{
    op o;
    o.name = n; o.id = id; o.t1 = t1; o.t2 = t2;
    return o;
}

void fut_event(int k, std::future<int>& f)
{
    if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready)
    {
        vs::ev("fut").i("k", k).s("x", "pending").i("v", 0);
        return;
    }
    try { int v = f.get(); vs::ev("fut").i("k", k).s("x", "val").i("v", v); }
    catch (const boom& b) { vs::ev("fut").i("k", k).s("x", "exc").i("v", b.v); }
    catch (const std::future_error& e) { vs::ev("fut").i("k", k).s("x", e.code() == std::future_errc::broken_promise ? "broken" : "error").i("v", 0); }
    catch (...) { vs::ev("fut").i("k", k).s("x", "error").i("v", -1); }
}
void poll_futs()
{
    still st;
    std::vector<std::pair<int, std::future<int>>> fs;
    {
        vs::unrecorded u_;
        std::scoped_lock l(w->m);
        for (auto& [k, f] : w->futs) fs.emplace_back(k, std::move(f));
        w->futs.clear();
    }
    std::vector<std::pair<int, std::future<int>>> pending;
    for (auto& [k, f] : fs)
    {
        bool ready = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
        fut_event(k, f);
        if (!ready) pending.emplace_back(k, std::move(f));
    }
    vs::unrecorded u_;
    std::scoped_lock l(w->m);
    for (auto& [k, f] : pending) w->futs[k] = std::move(f);
}
void quiet()
{
    still st;
    vs::quiesce();
    vs::ev("quiet");
    vs::live_event(w->futs, w->gone);
}
void open_gate()
{
    vs::unrecorded u_; std::scoped_lock l(w->gm);
    w->gate_open = 1;
    w->gcv.notify_all();
}
void init(const std::string& more = "")
{
    int hw = vs::rnd(1, 3);
    vs::set_hw(hw);
    vs::params("{\"hw\":" + std::to_string(hw) + ",\"lazy\":" + (vs::lazy() ? "1" : "0") + more + "}");
    w = new world;
    w->s = new sched_t;
    w->base = tc::sdk::clock::now() - std::chrono::nanoseconds(0);
    vs::log_ticks();
}
// the times of an execution lie within milliseconds, seconds or minutes
int scale = 1;
int ms(int lo, int hi) { return vs::rnd(lo * 2, hi * 2) * 500 * scale; }
void some_scale() { static const int scales[] = {1, 1, 1, 37, 10000}; scale = scales[vs::rnd(0, 4)]; }

op rnd_once(bool ids, bool gates = false, int depth = 0)
{
    op o = mk(vs::chance(1, 2) ? "at" : "in", ids && vs::chance(1, 2) ? vs::rnd(1, 3) : 0, ms(-2, 12));
    if (vs::chance(1, 6)) o.t1 = 0;
    o.a = vs::rnd(0, 5);
    o.style = vs::rnd(0, 1);
    if (vs::chance(1, 5)) o.kind = "throw";
    if (gates && vs::chance(1, 4)) o.kind = "gate";
    if (vs::chance(1, 4)) o.sleep = ms(1, 5);
    if (depth == 0 && vs::chance(1, 5))
    {
        int r = vs::rnd(0, 3);
        if (r == 0 && ids) o.nested.push_back(mk("remove", vs::rnd(1, 3)));
        else if (r == 1 && ids && o.id) { op n = rnd_once(false, false, 1); n.id = o.id; o.nested.push_back(n); } // reuse of the own id
        else o.nested.push_back(rnd_once(ids, false, 1));
    }
    return o;
}
op rnd_every(int id)
{
    op o = mk("every", id, ms(1, 6), 0);
    if (id && vs::chance(1, 2)) o.t2 = ms(0, 8);
    o.a = vs::rnd(0, 5);
    o.style = vs::rnd(0, 1);
    if (vs::chance(1, 6)) o.kind = "throw";
    if (vs::chance(1, 3)) o.sleep = ms(1, 3);
    return o;
}
op rnd_query(int ids)
{
    static const char* q[] = {"sched", "en", "iv", "size"};
    return mk(q[vs::rnd(0, 3)], vs::rnd(0, 9) ? vs::rnd(1, ids) : 0);
}
using prog = std::vector<std::vector<op>>;
void open_gate();
void quiet();
void run_threads(const prog& p, bool quiets, bool gates = false)
{
    std::vector<std::thread> th;
    for (auto& q : p) th.emplace_back([&q] { for (auto& o : q) exec_op(o); });
    if (quiets) quiet();
    if (gates) { vs::sleep_us(3000); quiet(); open_gate(); }
    for (auto& t : th) t.join();
}

void oneshot()
{
    init();
    some_scale();
    exec_op(mk("start", 0, vs::rnd(0, 3)));
    bool ids = vs::chance(1, 2), gates = vs::chance(1, 4);
    prog p((size_t)vs::rnd(1, 3));
    for (auto& q : p)
        for (int i = vs::rnd(1, 3); i > 0; --i)
        {
            if (vs::chance(1, 3)) q.push_back(mk("sleep", 0, ms(0, 6)));
            if (ids && vs::chance(1, 4)) q.push_back(mk("remove", vs::rnd(1, 3)));
            q.push_back(rnd_once(ids, gates));
        }
    if (vs::chance(1, 2)) quiet();
    run_threads(p, vs::chance(1, 2));
    quiet();
    poll_futs();
    vs::sleep_us(ms(3, 6));
    quiet();
    poll_futs();
    open_gate();
    vs::sleep_us(25000 * scale);
    quiet();
    exec_op(mk("size"));
    poll_futs();
    if (vs::chance(1, 2)) exec_op(mk("stop"));
    exec_op(mk("destroy"));
    quiet();
    poll_futs();
}

void recurring()
{
    init();
    some_scale();
    exec_op(mk("start", 0, vs::rnd(0, 3)));
    prog p((size_t)vs::rnd(1, 2));
    for (size_t i = 0; i < p.size(); ++i)
    {
        auto& q = p[i];
        bool withid = vs::chance(4, 5);
        int id = withid ? (int)i + 1 : 0;
        if (vs::chance(1, 4)) q.push_back(mk("sleep", 0, ms(0, 3)));
        q.push_back(rnd_every(id));
        for (int n = vs::rnd(0, 3); n > 0; --n)
        {
            q.push_back(mk("sleep", 0, ms(0, 9)));
            int r = vs::rnd(0, 9);
            if (r <= 3) q.push_back(mk("update", vs::rnd(1, 2), ms(1, 7)));
            else if (r <= 5) { op o = mk("enable", vs::rnd(1, 2)); o.on = vs::chance(1, 2); q.push_back(o); }
            else if (r == 6) q.push_back(mk("remove", id));
            else if (r == 7) q.push_back(rnd_once(false));
            else q.push_back(rnd_query(2));
        }
        q.push_back(mk("sleep", 0, ms(4, 14)));
    }
    if (vs::chance(1, 8)) p[0].insert(p[0].begin() + vs::rnd(0, (int)p[0].size()), vs::chance(1, 2) ? mk("every", vs::rnd(0, 2), -ms(0, 1)) : mk("update", 1, vs::chance(1, 2) ? 0 : -ms(1, 3)));
    run_threads(p, false);
    quiet();
    exec_op(mk("size"));
    exec_op(mk("iv", 1));
    exec_op(mk("destroy"));
    quiet();
    poll_futs();
}

void registry()
{
    init();
    if (vs::chance(1, 6)) exec_op(rnd_query(2));
    exec_op(mk("start", 0, vs::rnd(0, 3)));
    prog p((size_t)vs::rnd(1, 3));
    int ids = vs::rnd(1, 3);
    for (auto& q : p)
        for (int i = vs::rnd(2, p.size() == 3 ? 4 : 7); i > 0; --i)
        {
            int r = vs::rnd(0, 15);
            op o;
            if (r <= 1) { o = rnd_every(vs::rnd(0, 5) ? vs::rnd(1, ids) : 0); if (o.id) o.t2 = ms(0, 30); }
            else if (r <= 3) { o = rnd_once(false); o.id = vs::rnd(0, 5) ? vs::rnd(1, ids) : 0; o.t1 = vs::chance(1, 3) ? 0 : ms(0, 30); }
            else if (r <= 5) o = mk("remove", vs::rnd(0, 7) ? vs::rnd(1, ids) : 0);
            else if (r <= 7) { o = mk("enable", vs::rnd(0, 7) ? vs::rnd(1, ids) : 0); o.on = vs::chance(1, 3); }
            else if (r == 8) o = mk("update", vs::rnd(0, 7) ? vs::rnd(1, ids) : 0, ms(1, 9));
            else if (r == 9) o = mk("sleep", 0, ms(0, 10));
            else o = rnd_query(ids);
            q.push_back(o);
        }
    run_threads(p, vs::chance(1, 3));
    quiet();
    poll_futs();
    for (int i = 0; i < 3; ++i) exec_op(rnd_query(ids));
    vs::sleep_us(ms(5, 20));
    quiet();
    exec_op(mk("size"));
    poll_futs();
    exec_op(mk("destroy"));
    quiet();
    poll_futs();
}

void lifecycle()
{
    init();
    if (vs::chance(2, 3)) exec_op(mk("start", 0, vs::rnd(0, 3)));
    prog p((size_t)vs::rnd(1, 3));
    bool gates = vs::chance(1, 4);
    bool heavy = vs::chance(1, 2);
    if (vs::chance(1, 2)) exec_op(rnd_every(vs::rnd(0, 2)));
    if (vs::chance(1, 3)) { exec_op(rnd_once(true, gates)); }
    if (vs::chance(1, 2)) quiet();
    for (auto& q : p)
        for (int i = vs::rnd(1, 3); i > 0; --i)
        {
            int r = vs::rnd(0, 9);
            if (r <= 2) q.push_back(mk("stop"));
            else if (r <= 4 && heavy) q.push_back(mk("start", 0, vs::rnd(0, 3)));
            else if (r == 5) q.push_back(rnd_every(vs::rnd(0, 2)));
            else if (r == 6) q.push_back(rnd_query(2));
            else if (r == 7) q.push_back(mk("sleep", 0, ms(0, 4)));
            else q.push_back(rnd_once(vs::chance(1, 2), gates));
        }
    run_threads(p, vs::chance(1, 2), gates);
    quiet();
    exec_op(mk("size"));
    poll_futs();
    open_gate();
    if (vs::chance(1, 2)) exec_op(mk("stop"));
    if (vs::chance(1, 2)) vs::sleep_us(ms(1, 8));
    exec_op(mk("start", 0, vs::rnd(0, 2)));
    quiet();
    exec_op(mk("size"));
    if (vs::chance(1, 2)) exec_op(rnd_once(true));
    vs::sleep_us(ms(5, 14));
    quiet();
    poll_futs();
    exec_op(mk("destroy"));
    quiet();
    poll_futs();
}

// many tasks at once
void bulk()
{
    init(",\"bulk\":1");
    exec_op(mk("start", 0, vs::rnd(1, 3)));
    int n = vs::rnd(20, 70);
    bool same = vs::chance(1, 3), mixed = vs::chance(1, 2);
    for (int i = 0; i < n; ++i)
    {
        op o = mk(vs::chance(1, 2) ? "at" : "in", vs::chance(1, 3) ? 10 + i : 0, same ? 50000 : 50000 + vs::rnd(0, 40) * 500);
        o.a = vs::rnd(0, 5);
        o.style = vs::rnd(0, 1);
        if (vs::chance(1, 8)) o.sleep = ms(1, 3);
        exec_op(o);
    }
    if (mixed) for (int i = 1; i <= 2; ++i) { op o = mk("every", i, ms(4, 9), 50000 + ms(0, 8)); exec_op(o); }
    for (int i = vs::rnd(0, 20); i > 0; --i)
    {
        op o = mk("remove", 10 + vs::rnd(0, n - 1));
        if (vs::chance(1, 3)) { o.name = "enable"; o.on = vs::chance(1, 3); }
        exec_op(o);
    }
    exec_op(mk("size"));
    quiet();
    vs::sleep_us(110000);
    quiet();
    exec_op(mk("size"));
    poll_futs();
    exec_op(mk("destroy"));
    quiet();
    poll_futs();
}

// stop racing with the scheduler thread: far due times, the stop must still return at once
void farstop()
{
    init();
    exec_op(mk("start", 0, vs::rnd(0, 2)));
    for (int i = vs::rnd(0, 2); i > 0; --i)
    {
        op o = vs::chance(1, 2) ? rnd_once(true) : rnd_every(vs::rnd(1, 2));
        (o.name == "every" ? o.t2 : o.t1) = ms(100, 3000);
        exec_op(o);
    }
    if (vs::chance(1, 2)) quiet();
    prog p((size_t)vs::rnd(1, 3));
    for (auto& q : p)
    {
        if (vs::chance(1, 3)) q.push_back(mk("sleep", 0, ms(0, 2)));
        if (vs::chance(1, 2)) { op o = rnd_once(true); if (vs::chance(1, 2)) o.t1 = ms(100, 3000); q.push_back(o); }
        if (vs::chance(1, 3)) q.push_back(mk("remove", vs::rnd(1, 2)));
        q.push_back(vs::chance(2, 3) ? mk("stop") : rnd_query(2));
    }
    run_threads(p, false);
    quiet();
    exec_op(mk("stop"));
    quiet();
    poll_futs();
    exec_op(mk("start", 0, 1));
    exec_op(mk("size"));
    vs::sleep_us(ms(0, 20));
    quiet();
    exec_op(mk("destroy"));
    quiet();
    poll_futs();
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"oneshot", oneshot}, {"recurring", recurring}, {"registry", registry}, {"lifecycle", lifecycle}, {"farstop", farstop}, {"bulk", bulk}};
    return vs::driver_main(argc, argv, list, 6);
}
