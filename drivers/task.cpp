// tc::sdk::task as the owner of a callable
#include "seq.hpp"
#include <teiacare/sdk/task.hpp>

#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <vector>

namespace
{
using tc::sdk::task;
std::vector<int> live; // objects of every callable
int result = -1;       // what the last call saw
bool throws = false;   // the next call throws
struct failure { int id; };

// a counter with a value of its own; copies count on their own
template <int Size> struct counter
{
    int id;
    std::unique_ptr<int> n;
    std::array<char, Size> fill{};
    counter(int id_, int n_) : id(id_), n(new int(n_)) { ++live[(size_t)id]; fill.fill((char)id_); }
    counter(const counter& o) : id(o.id), n(new int(*o.n)), fill(o.fill) { ++live[(size_t)id]; }
    counter(counter&& o) noexcept : id(o.id), n(std::move(o.n)), fill(o.fill) { o.id = -1; }
    ~counter() { if (id >= 0) --live[(size_t)id]; id = -2; }
    int next() const
    {
        for (char c : fill) if (c != (char)id) return -7;
        return (*n)++;
    }
    void operator()() { call(); }
    void operator()() const { call(); }
    void call() const
    {
        result = next();
        if (throws) throw failure{result};
    }
};
template <int Size> void history()
{
    live.clear();
    vs::params("{\"size\":" + std::to_string(Size) + "}");
    std::array<std::optional<task>, 4> t;
    struct original { int id; std::unique_ptr<const counter<Size>> c; };
    std::vector<original> orig;
    std::vector<bool> moved(4, false);
    auto log_live = [&] { vs::ev("live").raw("n", vs::arr(live)); };
    auto drop = [&](size_t i) {
        int id = orig[i].id;
        orig.erase(orig.begin() + (long)i);
        vs::ev("droporig").i("c", id + 1);
    };
    for (int step = 0; step < 80; ++step)
    {
        int s = vs::rnd(0, 3);
        auto& x = t[(size_t)s];
        int op = vs::rnd(0, 9);
        if (!x)
        {
            int n = vs::chance(1, 2) ? 0 : vs::rnd(0, 50), id = (int)live.size();
            live.push_back(0);
            bool copied = false;
            switch (vs::rnd(0, 6))
            {
            case 0: x.emplace(counter<Size>(id, n)); break;
            case 1: { counter<Size> c(id, n); x.emplace(std::move(c)); break; }
            case 2: // an object of the user, which it keeps
            {
                auto c = std::make_unique<const counter<Size>>(id, n);
                x.emplace(*c);
                copied = true;
                orig.push_back({id, std::move(c)});
                break;
            }
            case 3: x.emplace([c = counter<Size>(id, n)]() mutable { c(); }); break;
            case 4: x.emplace(std::function<void()>(counter<Size>(id, n))); break;
            case 5: x.emplace(std::bind([](counter<Size>& c, int k) { if (k == 5) c(); }, counter<Size>(id, n), 5)); break;
            default: // a callable that is a task itself
            {
                task inner{counter<Size>(id, n)};
                x.emplace([in = std::move(inner)] { in(); });
            }
            }
            moved[(size_t)s] = false;
            vs::ev("make").i("s", s + 1).i("n", n).i("copied", copied);
            log_live();
            continue;
        }
        if (op < 5 && !moved[(size_t)s])
        {
            result = -1;
            bool made = throws = vs::chance(1, 6), threw = false;
            int seen = -1;
            try { if (vs::chance(1, 2)) x->invoke(); else (*x)(); }
            catch (const failure& f) { threw = true; seen = f.id; }
            catch (...) { threw = true; seen = -9; }
            throws = false;
            vs::ev("invoke").i("s", s + 1).i("r", threw ? seen : result).i("made", made).i("threw", threw);
        }
        else if (op < 7)
        {
            int to = vs::rnd(0, 3);
            if (t[(size_t)to] || moved[(size_t)s]) continue;
            t[(size_t)to].emplace(std::move(*x));
            moved[(size_t)to] = false;
            moved[(size_t)s] = true;
            vs::ev("move").i("s", s + 1).i("t", to + 1);
        }
        else if (op == 7)
        {
            x.reset();
            vs::ev("destroy").i("s", s + 1);
        }
        else if (!orig.empty())
        {
            size_t i = (size_t)vs::rnd(0, (int)orig.size() - 1);
            if (op == 8) { orig[i].c->call(); vs::ev("orig").i("c", orig[i].id + 1).i("r", result); }
            else drop(i);
        }
        log_live();
    }
    while (!orig.empty()) { drop(0); log_live(); }
    for (int s = 0; s < 4; ++s)
        if (t[(size_t)s])
        {
            t[(size_t)s].reset();
            vs::ev("destroy").i("s", s + 1);
        }
    log_live();
}
void scenario() { if (vs::chance(1, 2)) history<4>(); else history<200>(); }
const vs::scenario list_[] = {{"task", scenario}};
}
int main(int argc, char** argv) { return vs::driver_main(argc, argv, list_, sizeof list_ / sizeof *list_); }
