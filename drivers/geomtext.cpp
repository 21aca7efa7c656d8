// texts of range, rectangle, line, point and size values with histories
#include "seq.hpp"
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>

#include <limits>
#include <sstream>
#include <utility>

namespace
{
using namespace tc::sdk;

std::string J(uint64_t whole, bool neg, int micro)
{
    return vs::arr(std::initializer_list<int64_t>{neg, (int64_t)(whole / 1000000000000000000ull), (int64_t)(whole / 1000000000ull % 1000000000ull), (int64_t)(whole % 1000000000ull), micro});
}
// a number of type T and how the specification sees it
template <class T> struct num { T v; std::string j; };
template <class T> num<T> pick()
{
    if constexpr (std::is_floating_point_v<T>)
    {
        // multiples of 1/64, which six decimals show exactly
        constexpr int digits = std::numeric_limits<T>::digits;
        uint64_t k = vs::rnd() >> (64 - digits);
        k >>= vs::rnd(0, digits);
        int up = vs::chance(1, 4) ? vs::rnd(0, 63 - digits) : -6; // large whole numbers as well
        uint64_t whole = up >= 0 ? k << up : k >> 6;
        int micro = up >= 0 ? 0 : (int)(k & 63) * 15625;
        bool neg = k != 0 && vs::chance(1, 2);
        T v = (T)whole + (T)micro / (T)1000000;
        if (up < 0) v = (T)k / (T)64;
        return {neg ? -v : v, J(whole, neg, micro)};
    }
    else
    {
        using U = std::make_unsigned_t<T>;
        U u = (U)vs::rnd();
        if (vs::chance(1, 2)) u = (U)(u >> vs::rnd(0, (int)sizeof(T) * 8 - 1));
        if (vs::chance(1, 3)) u = (U)(U(0) - u);
        if (vs::chance(1, 12)) u = (U)std::numeric_limits<T>::min();
        if (vs::chance(1, 12)) u = (U)std::numeric_limits<T>::max();
        T v = (T)u;
        bool neg = v < T(0);
        uint64_t m = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v;
        return {v, J(m, neg, -1)};
    }
}
std::string L(std::initializer_list<std::string> v)
{
    std::string s = "[";
    for (auto& x : v) { if (s.size() > 1) s += ','; s += x; }
    return s + "]";
}
template <class V> void text(int r, const V& v)
{
    std::ostringstream os;
    std::string pre = vs::chance(1, 2) ? "a " : "", post = vs::chance(1, 2) ? " b" : "";
    os << pre << v << post;
    vs::ev("text").i("r", r + 1).raw("s", vs::codes(v.to_string())).raw("o", vs::codes(os.str())).raw("pre", vs::codes(pre)).raw("post", vs::codes(post));
}
// histories: mk builds a value, set changes one; both log what they do
template <class V, class Mk, class Set> void history(Mk mk, Set set)
{
    V v[2]{};
    text(0, v[0]);
    for (int i = 0; i < 25; ++i)
    {
        int r = vs::rnd(0, 1);
        switch (vs::rnd(0, 5))
        {
        case 0: v[r] = mk(r); break;
        case 1:
            vs::ev("copy").i("r", r + 1);
            if (vs::chance(1, 2)) v[r] = v[1 - r];
            else { V c(v[1 - r]); v[r] = std::move(c); }
            break;
        default: set(r, v[r]);
        }
        text(r, v[r]);
        if (vs::chance(1, 4)) text(1 - r, v[1 - r]);
    }
}
void logset(int r, std::initializer_list<int64_t> is, std::initializer_list<std::string> vs_) { vs::ev("set").i("r", r + 1).raw("i", vs::arr(is)).raw("v", L(vs_)); }
template <class T> void run(int kind)
{
    static const char* kinds[] = {"point", "size", "range", "line", "rect"};
    vs::params(std::string("{\"kind\":\"") + kinds[kind] + "\",\"micro\":" + (std::is_floating_point_v<T> ? "0" : "-1") + "}");
    auto lnew = [](int r, std::initializer_list<std::string> v) { vs::ev("new").i("r", r + 1).raw("v", L(v)); };
    if (kind == 0)
        history<point<T>>([&](int r) { auto a = pick<T>(), b = pick<T>(); lnew(r, {a.j, b.j}); return point<T>(a.v, b.v); },
                          [&](int r, point<T>& p) {
                              auto a = pick<T>();
                              if (vs::chance(1, 2)) { p.set_x(a.v); logset(r, {1}, {a.j}); } else { p.set_y(a.v); logset(r, {2}, {a.j}); }
                          });
    else if (kind == 1)
        history<tc::sdk::size<T>>([&](int r) { auto a = pick<T>(), b = pick<T>(); lnew(r, {a.j, b.j}); return tc::sdk::size<T>(a.v, b.v); },
                                  [&](int r, tc::sdk::size<T>& p) {
                                      auto a = pick<T>();
                                      if (vs::chance(1, 2)) { p.set_width(a.v); logset(r, {1}, {a.j}); } else { p.set_height(a.v); logset(r, {2}, {a.j}); }
                                  });
    else if (kind == 2)
        history<range<T>>([&](int r) { auto a = pick<T>(), b = pick<T>(); if (b.v < a.v) std::swap(a, b); lnew(r, {a.j, b.j}); return range<T>(a.v, b.v); },
                          [&](int r, range<T>& p) {
                              auto a = pick<T>();
                              if (vs::chance(1, 2)) { p.set_min(a.v); vs::ev("low").i("r", r + 1).raw("v", a.j); } else { p.set_max(a.v); vs::ev("high").i("r", r + 1).raw("v", a.j); }
                          });
    else if (kind == 3)
        history<line<T>>([&](int r) { auto a = pick<T>(), b = pick<T>(), c = pick<T>(), d = pick<T>(); lnew(r, {a.j, b.j, c.j, d.j}); return line<T>(point<T>(a.v, b.v), point<T>(c.v, d.v)); },
                         [&](int r, line<T>& p) {
                             auto a = pick<T>(), b = pick<T>();
                             if (vs::chance(1, 2)) { p.set_start(point<T>(a.v, b.v)); logset(r, {1, 2}, {a.j, b.j}); } else { p.set_end(point<T>(a.v, b.v)); logset(r, {3, 4}, {a.j, b.j}); }
                         });
    else
        history<rectangle<T>>([&](int r) {
                                  auto a = pick<T>(), b = pick<T>(), c = pick<T>(), d = pick<T>();
                                  lnew(r, {a.j, b.j, c.j, d.j});
                                  return vs::chance(1, 2) ? rectangle<T>(point<T>(a.v, b.v), c.v, d.v) : rectangle<T>(a.v, b.v, c.v, d.v);
                              },
                              [&](int r, rectangle<T>& p) {
                                  auto a = pick<T>(), b = pick<T>();
                                  switch (vs::rnd(0, 3))
                                  {
                                  case 0: p.set_width(a.v); logset(r, {3}, {a.j}); break;
                                  case 1: p.set_height(a.v); logset(r, {4}, {a.j}); break;
                                  case 2: p.set_size(a.v, b.v); logset(r, {3, 4}, {a.j, b.j}); break;
                                  default: p.set_position(point<T>(a.v, b.v)); logset(r, {1, 2}, {a.j, b.j});
                                  }
                              });
}
void scenario()
{
    int kind = vs::rnd(0, 4);
    switch (vs::rnd(0, 8))
    {
    case 0: case 1: return run<int>(kind);
    case 2: return run<float>(kind);
    case 3: case 4: return run<double>(kind);
    case 5: return run<long long>(kind);
    case 6: return run<unsigned>(kind);
    case 7: return run<unsigned long>(kind);
    default: return run<short>(kind);
    }
}
const vs::scenario list_[] = {{"texts", scenario}};
}
int main(int argc, char** argv) { return vs::driver_main(argc, argv, list_, sizeof list_ / sizeof *list_); }
