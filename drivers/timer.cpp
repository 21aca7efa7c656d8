// high_precision_timer driver
#include "token.hpp"
#include "vsched.hpp"
#include <teiacare/sdk/high_precision_timer.hpp>

#include <chrono>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace
{
using timer_t_ = tc::sdk::high_precision_timer;
using std::chrono::microseconds;

struct plan
{
    std::vector<int> sleeps; // duration of the successive invocations
    int read = 0;            // what the callback reads: 1 invoked, 2 missed
    size_t n = 0;
};
struct world
{
    timer_t_* t = nullptr;
    bool gone = false;
    std::unique_ptr<timer_t_> other;
    std::vector<std::shared_ptr<plan>> plans;
    int other_runs = 0;
} *w;

struct still
{
    still() { vs::no_time_jumps(true); }
    ~still() { vs::no_time_jumps(false); }
};
void read(bool missed)
{
    const char* n = missed ? "mis" : "inv";
    vs::ev("call").s("op", n).i("v", 0);
    uint64_t r = missed ? w->t->missed_callback_count() : w->t->invoked_callback_count();
    vs::ev("ret").s("op", n).i("r", r > 100000000u ? -1 : (int64_t)r);
}
void body(int k, const std::string& tag, const vs::token& a)
{
    auto p = w->plans[(size_t)k - 1];
    bool ok = a.ok(k) && tag == "argument-of-callback-number-" + std::to_string(k);
    vs::ev("begin").i("k", ok ? k : -77);
    int s = p->sleeps.empty() ? 0 : p->sleeps[p->n++ % p->sleeps.size()];
    if (p->read & 1) read(false);
    if (s > 0) vs::sleep_us(s);
    if (p->read & 2) read(true);
    vs::ev("end").i("k", k);
}
void setcb(const plan& pl)
{
    w->plans.push_back(std::make_shared<plan>(pl));
    int k = (int)w->plans.size();
    vs::ev("call").s("op", "setcb").i("v", k);
    std::string tag = "argument-of-callback-number-" + std::to_string(k);
    if (k % 2) w->t->set_callback([k, a = vs::token(k)](const std::string& s) { body(k, s, a); }, tag);
    else w->t->set_callback([k, tag, a = vs::token(k)]() { body(k, tag, a); });
    tag = "this text must not be seen by the callback";
    vs::ev("ret").s("op", "setcb").i("r", 1);
}
void start(int iv)
{
    still st;
    vs::ev("call").s("op", "start").i("v", iv);
    bool r = w->t->start(microseconds(iv));
    vs::ev("ret").s("op", "start").i("r", r);
}
void stop()
{
    vs::ev("call").s("op", "stop").i("v", 0);
    w->t->stop();
    vs::ev("ret").s("op", "stop").i("r", 1);
}
void destroy()
{
    vs::ev("call").s("op", "destroy").i("v", 0);
    w->t->~timer_t_();
    vs::ev("ret").s("op", "destroy").i("r", 1);
    w->gone = true;
}
void quiet()
{
    vs::quiesce();
    vs::ev("quiet");
    vs::live_event(w->gone);
}

void init()
{
    vs::log_ticks();
    vs::params("{}");
    w = new world;
    if (vs::chance(1, 4))
    {
        w->other = std::make_unique<timer_t_>();
        w->other->set_callback([] { ++w->other_runs; });
        w->other->start(microseconds(vs::rnd(1, 4) * 700));
    }
    w->t = static_cast<timer_t_*>(operator new(sizeof(timer_t_)));
    new (w->t) timer_t_;
}
plan rnd_plan(int iv)
{
    plan p;
    int n = vs::rnd(0, 4);
    for (int i = 0; i < n; ++i)
    {
        switch (vs::rnd(0, 7))
        {
        case 0: p.sleeps.push_back(0); break;
        case 1: p.sleeps.push_back(vs::rnd(1, iv > 1 ? iv - 1 : 1)); break;
        case 2: p.sleeps.push_back(iv); break;
        case 3: p.sleeps.push_back(2 * iv); break;
        case 4: p.sleeps.push_back(iv + vs::rnd(1, iv)); break;
        case 5: p.sleeps.push_back(3 * iv + vs::rnd(0, iv)); break;
        case 6: p.sleeps.push_back(iv + 1); break;
        default: p.sleeps.push_back(iv > 1 ? iv - 1 : 0); break;
        }
    }
    p.read = vs::rnd(0, 3);
    return p;
}
int rnd_iv()
{
    static const int v[] = {1000, 1000, 500, 333, 1700, 1, 7};
    return v[vs::rnd(0, 6)];
}
void wait_some(int iv)
{
    switch (vs::rnd(0, 4))
    {
    case 0: quiet(); break;
    case 1: vs::sleep_us(iv * vs::rnd(1, 6)); break;
    case 2: vs::sleep_us(iv * vs::rnd(1, 6) + vs::rnd(0, iv)); quiet(); break;
    case 3: vs::sleep_us(vs::rnd(1, iv)); break;
    default: vs::sleep_us(iv * vs::rnd(2, 12)); quiet(); break;
    }
}

void ticks()
{
    init();
    int iv = rnd_iv();
    setcb(rnd_plan(iv));
    start(iv);
    std::thread reader;
    if (vs::chance(1, 2))
    {
        int n = vs::rnd(1, 6);
        reader = std::thread([n, iv] {
            for (int i = 0; i < n; ++i)
            {
                read(vs::chance(1, 2));
                if (vs::chance(1, 2)) vs::sleep_us(vs::rnd(1, 2) * iv);
            }
        });
    }
    for (int i = vs::rnd(1, 3); i > 0; --i)
    {
        wait_some(iv);
        read(vs::chance(1, 2));
    }
    if (reader.joinable()) reader.join();
    stop();
    read(false);
    read(true);
    if (vs::chance(1, 2)) { vs::sleep_us(3 * iv); read(false); quiet(); }
    destroy();
    quiet();
    w->other.reset();
}

void lifecycle()
{
    init();
    int iv = rnd_iv();
    if (vs::chance(1, 5)) start(iv);
    if (vs::chance(1, 5)) stop();
    setcb(rnd_plan(iv));
    bool running = false;
    std::thread reader;
    if (vs::chance(1, 3))
    {
        int n = vs::rnd(1, 5);
        reader = std::thread([n, iv] {
            for (int i = 0; i < n; ++i)
            {
                read(vs::chance(1, 2));
                if (vs::chance(1, 2)) vs::sleep_us(vs::rnd(1, iv));
            }
        });
    }
    for (int i = vs::rnd(2, 6); i > 0; --i)
    {
        switch (vs::rnd(0, 6))
        {
        case 0: case 1: case 2: if (vs::chance(1, 3)) iv = rnd_iv(); start(iv); running = true; break;
        case 3: stop(); running = false; break;
        case 4: if (!running) { setcb(rnd_plan(iv)); break; } [[fallthrough]];
        case 5: wait_some(iv); break;
        default: if (vs::chance(1, 3)) start(-vs::rnd(0, 3)); else read(vs::chance(1, 2)); break;
        }
    }
    if (vs::chance(1, 2)) wait_some(iv);
    if (reader.joinable()) reader.join();
    if (vs::chance(1, 2)) { stop(); read(false); vs::sleep_us(2 * iv); quiet(); }
    destroy();
    vs::sleep_us(3 * iv);
    quiet();
    w->other.reset();
}

// a timer whose next tick is hours away: stop, restart and destruction must not wait for it
void far()
{
    init();
    if (w->other) w->other->stop();
    int iv = 600000000;
    setcb(plan{});
    start(iv);
    switch (vs::rnd(0, 3))
    {
    case 0: quiet(); break;
    case 1: vs::sleep_us(100); break;
    case 2: start(500); if (vs::chance(1, 2)) vs::sleep_us(vs::rnd(100, 1200)); break;
    default: break;
    }
    if (vs::chance(1, 2)) stop();
    destroy();
    quiet();
    w->other.reset();
}
// many ticks; or a long interval; the process may be held up for many intervals
void longrun()
{
    init();
    if (w->other) w->other->stop();
    static const int v[] = {1000, 250000, 999999, 1000000, 5000000, 60000000, 35791394};
    int iv = v[vs::rnd(0, 6)];
    int ticks = iv == 1000 ? 300 : 1200000000 / iv;
    if (ticks > 200 && iv > 1000) ticks = 200;
    plan p = rnd_plan(iv);
    if (vs::chance(1, 3)) p.sleeps = {0};
    for (auto& x : p.sleeps) if (iv > 1000000) x %= iv; // (a callback that takes longer than the interval can hold up a stop)
    if (vs::chance(1, 3)) p.sleeps = {0, 0, iv * vs::rnd(1, ticks / 6), 0, 0, 0};
    p.read = vs::chance(1, 3) ? vs::rnd(0, 3) : 0;
    setcb(p);
    start(iv);
    for (int i = vs::rnd(1, 4), left = ticks; i > 0; --i)
    {
        int n = i == 1 ? left : vs::rnd(1, left / 2);
        left -= n;
        vs::sleep_us(n * iv - (vs::chance(1, 2) ? 0 : vs::rnd(1, iv)));
        read(vs::chance(1, 2));
        if (vs::chance(1, 2)) quiet();
        if (left < 4) break;
    }
    stop();
    read(false);
    read(true);
    if (vs::chance(1, 3)) { start(iv > 30000000 ? 1000 : iv); vs::sleep_us(3000); read(false); read(true); quiet(); }
    destroy();
    quiet();
    w->other.reset();
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"ticks", ticks}, {"lifecycle", lifecycle}, {"far", far}, {"longrun", longrun}};
    return vs::driver_main(argc, argv, list, 4);
}
