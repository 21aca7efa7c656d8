// blocking_queue driver: random concurrent programs, call/return events at the public API.
#include "token.hpp"
#include "vsched.hpp"
#include <teiacare/sdk/blocking_queue.hpp>

#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace
{
struct item
{
    int v = 0;
    std::string tag;
    vs::token tok;
    explicit item(int x) : v{x}, tag("item-with-a-long-tag-" + std::to_string(x)), tok(x) {}
    int checked() const { return tok.ok(v) && tag == "item-with-a-long-tag-" + std::to_string(v) ? v : -99; }
};
struct op { const char* name; int v; };
using Q = tc::sdk::blocking_queue<item>;

enum { IDLE, IN_PUSH, IN_POP };

void do_op(Q& q, const op& o, int* what)
{
    const std::string n = o.name;
    vs::ev("call").s("op", n).i("v", o.v);
    if (n == "push") { vs::put(what, IN_PUSH); const item it(o.v); q.push(it); vs::put(what, IDLE); vs::ev("ret").s("op", n).i("v", it.checked() == o.v ? 0 : -99); }
    else if (n == "pushm") { vs::put(what, IN_PUSH); q.push(item(o.v)); vs::put(what, IDLE); vs::ev("ret").s("op", n).i("v", 0); }
    else if (n == "trypush") { const item it(o.v); bool r = q.try_push(it); vs::ev("ret").s("op", n).i("v", it.checked() == o.v ? r : -99); }
    else if (n == "trypushm") { bool r = q.try_push(item(o.v)); vs::ev("ret").s("op", n).i("v", r); }
    else if (n == "pop") { vs::put(what, IN_POP); item it = q.pop(); vs::put(what, IDLE); vs::ev("ret").s("op", n).i("v", it.checked()); }
    else if (n == "trypop") { auto it = q.try_pop(); vs::ev("ret").s("op", n).i("v", it ? it->checked() : 0); }
    else if (n == "size") { size_t s = q.size(); vs::ev("ret").s("op", n).i("v", (int64_t)s); }
    else if (n == "cap") { size_t s = q.capacity(); vs::ev("ret").s("op", n).i("v", (int64_t)s); }
}

void run(int cap, std::vector<std::vector<op>> prog)
{
    int nth = (int)prog.size();
    vs::params("{\"cap\":" + std::to_string(cap) + ",\"n\":" + std::to_string(nth + 1) + "}");
    auto holder = std::make_unique<Q>((size_t)cap);
    Q& q = *holder;
    std::vector<int> what((size_t)nth + 1, IDLE), done((size_t)nth + 1, 0);
    std::vector<std::thread> th;
    for (int i = 1; i <= nth; ++i)
        th.emplace_back([&, i] {
            for (auto& o : prog[(size_t)i - 1]) do_op(q, o, &what[(size_t)i]);
            vs::put(&done[(size_t)i], 1);
        });
    int next = 1000, dummy = IDLE;
    for (int round = 0; round < 60; ++round)
    {
        vs::quiesce();
        vs::ev("quiet");
        vs::live_event(false);
        int pops = 0, pushes = 0, all = 1;
        for (int i = 1; i <= nth; ++i)
        {
            if (!vs::get(&done[(size_t)i])) all = 0;
            if (vs::get(&what[(size_t)i]) == IN_POP) ++pops;
            if (vs::get(&what[(size_t)i]) == IN_PUSH) ++pushes;
        }
        if (all)
        {
            for (auto& t : th) t.join();
            do_op(q, op{"size", 0}, &dummy);
            do_op(q, op{"trypop", 0}, &dummy);
            vs::ev("quiet");
            vs::live_event(false);
            holder.reset();
            vs::live_event(true);
            return;
        }
        // release the blocked threads, several at a time
        int k = 1 + vs::rnd(0, 2);
        for (int i = 0; i < k; ++i)
        {
            if (pops >= pushes) do_op(q, op{vs::chance(1, 2) ? "trypush" : "trypushm", ++next}, &dummy);
            else do_op(q, op{"trypop", 0}, &dummy);
        }
    }
    vs::ev("giveup");
    _Exit(0);
}

// mixed programs
void mixed()
{
    static const int caps[] = {0, 1, 1, 2, 2, 3, 4};
    int cap = caps[vs::rnd(0, 6)];
    int nth = vs::rnd(2, 4);
    std::vector<std::vector<op>> prog((size_t)nth);
    int v = 0;
    int bias = vs::rnd(0, 2);
    for (auto& p : prog)
    {
        int len = vs::rnd(1, nth == 4 ? 3 : 4);
        for (int i = 0; i < len; ++i)
        {
            int r = vs::rnd(0, 11);
            if (bias == 1 && r >= 8) r = 0;
            if (bias == 2 && r >= 8) r = 5;
            switch (r)
            {
            case 0: case 1: p.push_back({"push", ++v}); break;
            case 2: p.push_back({"pushm", ++v}); break;
            case 3: p.push_back({"trypush", ++v}); break;
            case 4: p.push_back({"trypushm", ++v}); break;
            case 5: case 6: case 7: p.push_back({"pop", 0}); break;
            case 8: case 9: p.push_back({"trypop", 0}); break;
            case 10: p.push_back({"size", 0}); break;
            default: p.push_back({vs::chance(1, 3) ? "cap" : "pop", 0}); break;
            }
        }
    }
    run(cap, prog);
}
// several parked consumers or producers, bursts of opposite operations
void parked()
{
    int cap = vs::rnd(1, 4);
    int nc = vs::rnd(1, 3), np = vs::rnd(1, 3);
    std::vector<std::vector<op>> prog;
    int v = 0;
    bool consumers_park = vs::chance(1, 2);
    if (consumers_park)
    {
        for (int i = 0; i < nc; ++i) prog.push_back(std::vector<op>((size_t)vs::rnd(1, 2), op{"pop", 0}));
        for (int i = 0; i < (np + 1) / 2; ++i)
        {
            std::vector<op> p;
            for (int k = vs::rnd(1, 3); k > 0; --k) p.push_back({vs::chance(1, 3) ? (vs::chance(1, 2) ? "trypush" : "trypushm") : (vs::chance(1, 2) ? "push" : "pushm"), ++v});
            prog.push_back(p);
        }
    }
    else
    {
        for (int i = 0; i < np; ++i)
        {
            std::vector<op> p;
            for (int k = vs::rnd(1, 3); k > 0; --k) p.push_back({vs::chance(1, 2) ? "push" : "pushm", ++v});
            prog.push_back(p);
        }
        for (int i = 0; i < (nc + 1) / 2; ++i)
        {
            std::vector<op> p;
            for (int k = vs::rnd(1, 3); k > 0; --k) p.push_back({vs::chance(1, 3) ? "trypop" : "pop", 0});
            prog.push_back(p);
        }
    }
    run(cap, prog);
}
// one or two observers calling size/trypop in a row against producers and consumers
void sizes()
{
    int cap = vs::rnd(2, 4);
    std::vector<std::vector<op>> prog;
    int v = 0;
    for (int k = vs::rnd(1, 2); k > 0; --k) prog.push_back(std::vector<op>((size_t)vs::rnd(3, 7), op{"size", 0}));
    std::vector<op> a, b;
    for (int k = vs::rnd(3, 8); k > 0; --k) { a.push_back({vs::chance(1, 2) ? "push" : "pushm", ++v}); if (vs::chance(1, 2)) a.push_back({"trypop", 0}); }
    for (int k = vs::rnd(2, 8); k > 0; --k) b.push_back({vs::chance(1, 2) ? "trypop" : "pop", 0});
    prog.push_back(a);
    prog.push_back(b);
    run(cap, prog);
}
// one producer, up to three consumers, many items, large capacities
void bulk()
{
    static const int caps[] = {5, 17, 40, 100, 300, 600};
    int cap = caps[vs::rnd(0, 5)], fill = vs::chance(1, 2) ? cap : vs::rnd(0, cap), n = vs::rnd(20, 80), nc = vs::rnd(1, 3), v = 0;
    std::vector<std::vector<op>> prog(1);
    // (a producer's first items are pushed without anybody else: the consumers first look at the size)
    for (int i = 0; i < fill + n; ++i) prog[0].push_back({i < fill || vs::chance(1, 10) ? (vs::chance(1, 2) ? "trypush" : "trypushm") : (vs::chance(1, 2) ? "push" : "pushm"), ++v});
    if (vs::chance(1, 2)) prog[0].insert(prog[0].begin() + fill, {"size", 0});
    for (int c = 0; c < nc; ++c)
    {
        std::vector<op> p;
        int k = (vs::chance(1, 2) ? n : n + fill) / nc;
        for (int i = 0; i < k; ++i) p.push_back({vs::chance(1, 12) ? "trypop" : "pop", 0});
        if (vs::chance(1, 2)) p.push_back({"size", 0});
        prog.push_back(p);
    }
    run(cap, prog);
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"mixed", mixed}, {"parked", parked}, {"sizes", sizes}, {"bulk", bulk}};
    return vs::driver_main(argc, argv, list, 4);
}
