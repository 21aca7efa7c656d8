// observable<T> driver
#include "vsched.hpp"
#include <teiacare/sdk/observable.hpp>

#include <memory>
#include <mutex>
#include <condition_variable>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace
{
// a value is key * 1000 + aux; equality looks at the key only
struct pair_t
{
    int key, aux, key2; // key2: detects torn reads and writes
    explicit pair_t(int v) : key(v / 1000), aux(v % 1000), key2(v / 1000) {}
    bool operator==(const pair_t& o) const { return key == o.key; }
    int num() const { return key == key2 ? key * 1000 + aux : -1; }
};
struct text_t
{
    std::string s;
    explicit text_t(int v) : s("an-observed-text-value-with-number-" + std::to_string(v)) {}
    bool operator==(const text_t& o) const { return num() / 1000 == o.num() / 1000; }
    int num() const
    {
        const std::string p = "an-observed-text-value-with-number-";
        if (s.rfind(p, 0) != 0) return -1;
        try { return std::stoi(s.substr(p.size())); } catch (...) { return -2; }
    }
};
struct op { std::string name; int v = 0, style = 0; bool exc = false; };
using prog = std::vector<std::vector<op>>;

int sleep_mode;
std::mutex gm;
std::condition_variable gcv;
bool gate_open = true;
int throws[64];

template <typename T>
void execute(const prog& p, int init, bool rv)
{
    auto cb = [](T v) {
        int n = v.num();
        vs::ev("begin").i("v", n);
        if (sleep_mode) vs::sleep_us(sleep_mode * 100);
        { vs::unrecorded u_; std::unique_lock l(gm); gcv.wait(l, [] { return gate_open; }); }
        bool ex = throws[vs::tid() & 63];
        vs::ev("end").i("v", n);
        if (ex) throw 1;
    };
    std::unique_ptr<tc::sdk::observable<T>> o;
    if (rv) o = std::make_unique<tc::sdk::observable<T>>(T(init), cb);
    else { T t(init); o = std::make_unique<tc::sdk::observable<T>>(t, cb); t = T(999); }
    auto ex = [&](const op& a) {
        if (a.name == "sleep") { vs::sleep_us(a.v); return; }
        throws[vs::tid() & 63] = a.exc;
        vs::ev("call").s("op", a.name).i("v", a.v).i("x", a.exc);
        int r = 0;
        if (a.name == "set")
        {
            try
            {
                T t(a.v);
                if (a.style & 1) { *o = std::move(t); }
                else { *o = t; t = T(888); }
            }
            catch (int) { r = 1; }
        }
        else if (a.name == "get")
        {
            if (a.style == 0) r = o->value().num();
            else if (a.style == 1) { T t = *o; r = t.num(); }
            else { const auto& c = *o; T t = c; r = t.num(); }
        }
        else if (a.name == "isen") r = o->callback_enabled();
        else o->callback_enabled(a.v);
        vs::ev("ret").s("op", a.name).i("r", r);
    };
    std::vector<std::thread> th;
    for (auto& q : p) th.emplace_back([&] { for (auto& a : q) ex(a); });
    vs::quiesce();
    vs::ev("quiet");
    {
        vs::unrecorded u_; std::scoped_lock l(gm);
        gate_open = true;
        gcv.notify_all();
    }
    for (auto& t : th) t.join();
    ex({"get", 0, 0, false});
    ex({"isen", 0, 0, false});
    vs::quiesce();
    vs::ev("quiet");
}

void concurrent()
{
    int init = vs::rnd(0, 2) * 1000 + vs::rnd(0, 2);
    vs::params("{\"init\":" + std::to_string(init) + "}");
    prog p((size_t)vs::rnd(1, 4));
    for (auto& q : p)
        for (int i = vs::rnd(1, p.size() == 1 ? 10 : p.size() == 2 ? 5 : 3); i > 0; --i)
        {
            int r = vs::rnd(0, 15);
            if (r <= 6) q.push_back({"set", vs::rnd(0, 3) * 1000 + vs::rnd(0, 3), vs::rnd(0, 1), vs::chance(1, 8)});
            else if (r <= 10) q.push_back({"get", 0, vs::rnd(0, 2), false});
            else if (r <= 12) q.push_back({"en", vs::rnd(0, 1), 0, false});
            else if (r <= 14) q.push_back({"isen", 0, 0, false});
            else q.push_back({"sleep", vs::rnd(1, 300), 0, false});
        }
    sleep_mode = vs::chance(1, 3) ? vs::rnd(1, 3) : 0;
    gate_open = !vs::chance(1, 4);
    bool rv = vs::chance(1, 2);
    if (vs::chance(1, 2)) execute<pair_t>(p, init, rv);
    else execute<text_t>(p, init, rv);
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"concurrent", concurrent}};
    return vs::driver_main(argc, argv, list, 1);
}
