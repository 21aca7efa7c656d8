// date, time, datetime, timedelta
#include "seq.hpp"
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>

#include <climits>
#include <sstream>
#include <vector>

namespace
{
namespace ch = std::chrono;
using tc::sdk::date;
using tc::sdk::datetime;
using tc::sdk::timedelta;
using tod = tc::sdk::time;
using i128 = __int128;

constexpr int64_t DAY = 86400000000000ll;
constexpr int64_t LO = -106751 * DAY; // first instant used: start of the first whole day of the clock's range

// ---- nanoseconds as [days, seconds, microseconds, nanoseconds]
std::string quad(i128 ns)
{
    i128 d = ns / DAY, r = ns % DAY;
    if (r < 0) { r += DAY; --d; }
    int64_t v = (int64_t)r;
    return vs::arr(std::vector<int64_t>{(int64_t)d, v / 1000000000, v % 1000000000 / 1000, v % 1000});
}
template <class D> i128 ns_of(D d) { return (i128)d.count() * (i128)(D::period::num * (1000000000 / D::period::den)); }
int64_t ns_of(const timedelta& d) { return d.total_nanoseconds().count(); }
int64_t ns_of(const tod& t) { return t.to_duration().count(); }
int64_t ns_of(const datetime& x) { return x.to_time_point().time_since_epoch().count(); }
std::string J(const date& d) { return vs::arr(std::vector<int64_t>{(int)d.year(), (int64_t)(unsigned)d.month(), (int64_t)(unsigned)d.day()}); }
date mkdate(int64_t y, int64_t m, int64_t d) { return date{ch::year{(int)y}, ch::month{(unsigned)m}, ch::day{(unsigned)d}}; }
// the driver's own calendar, for its choices only
int64_t days_of(int64_t y, int64_t m, int64_t d)
{
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int dim(int64_t y, int m) { return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
struct civil { int64_t y; int m, d; };
int64_t day_no(const date& d) { return days_of((int)d.year(), (unsigned)d.month(), (unsigned)d.day()); }
bool okdate(const date& d) { int64_t y = (int)d.year(); unsigned m = (unsigned)d.month(), n = (unsigned)d.day(); return m >= 1 && m <= 12 && n >= 1 && (int)n <= dim(y, m); }
constexpr int64_t MINDAY = -12406880, MAXDAY = 10968000; // within the years -32000..32000

template <class F> auto with_precision(int p, F f) // 4..7
{
    switch (p)
    {
    case 4: return f(ch::seconds{});
    case 5: return f(ch::milliseconds{});
    case 6: return f(ch::microseconds{});
    default: return f(ch::nanoseconds{});
    }
}
template <class F> auto with_precision_t(int p, F f) // 2..7
{
    switch (p)
    {
    case 2: return f(ch::hours{});
    case 3: return f(ch::minutes{});
    default: return with_precision(p, f);
    }
}
std::string text(const datetime& x, int p, const std::string& f = "%FT%T") { return with_precision(p, [&](auto u) { return x.to_string<decltype(u)>(f); }); }
std::string text(const tod& t, int p, const std::string& f = "%T") { return with_precision_t(p, [&](auto u) { return t.to_string<decltype(u)>(f); }); }
std::string text(const timedelta& t, int p) { return with_precision(p, [&](auto u) { return t.to_string<decltype(u)>(); }); }
datetime read_x(const std::string& s, int p, const std::string& f = "%FT%T") { return with_precision(p, [&](auto u) { return datetime::from_string<decltype(u)>(s, f); }); }
tod read_t(const std::string& s, int p, const std::string& f = "%T") { return with_precision_t(p, [&](auto u) { return tod::from_string<decltype(u)>(s, f); }); }
template <class T> std::string streamed(const T& v) { std::ostringstream o; o << v; return o.str(); }
struct list
{
    std::string s = "[";
    void add(const std::string& x) { if (s.size() > 1) s += ','; s += x; }
    std::string str() const { return s + "]"; }
};

// ---- choice of values
civil pick_day()
{
    static const int64_t lo[] = {1677, 1960, 0, -9999, -32000, 1899, 1999}, hi[] = {2262, 2040, 9999, 9999, 32000, 2101, 2001};
    int s = vs::rnd(0, 6);
    int64_t y = vs::rnd64(lo[s], hi[s]);
    if (vs::chance(1, 4)) y = y / 100 * 100;
    if (vs::chance(1, 4)) y = y / 4 * 4;
    int m = vs::chance(1, 3) ? 2 : vs::chance(1, 4) ? 1 : vs::chance(1, 3) ? 12 : vs::rnd(1, 12);
    int n = dim(y, m), d = vs::chance(1, 3) ? n : vs::chance(1, 3) ? 1 : vs::rnd(1, n);
    return {y, m, d};
}
int64_t pick_span() // a duration in nanoseconds
{
    static const int64_t units[] = {1, 1000, 1000000, 1000000000, 60000000000ll, 3600000000000ll, DAY, 30 * DAY, 365 * DAY};
    int64_t u = units[vs::rnd(0, 8)], v;
    switch (vs::rnd(0, 5))
    {
    case 0: v = u * vs::rnd(0, 3); break;
    case 1: v = u * vs::rnd(0, 70); break;
    case 2: v = (int64_t)(vs::rnd() % (uint64_t)(u * 70)); break;
    case 3: v = DAY * vs::rnd(0, 5); break;
    case 4: v = (int64_t)(vs::rnd() % (uint64_t)(106751 * DAY)); break;
    default: v = (int64_t)(vs::rnd() % (uint64_t)(3 * DAY));
    }
    if (vs::chance(1, 3)) v += vs::rnd(-1, 1);
    if (v > 106750 * DAY) v = 106750 * DAY;
    return vs::chance(1, 2) ? -v : v;
}
int64_t pick_instant()
{
    switch (vs::rnd(0, 7))
    {
    case 0: return vs::chance(1, 2) ? LO + vs::rnd(0, 2) : INT64_MAX - vs::rnd(1, 3);
    case 1: return vs::rnd(-3, 3);
    case 2: return vs::rnd64(-106751, 106750) * DAY + vs::rnd(0, 1) - (vs::chance(1, 3) ? 0 : 0);
    case 3: return vs::rnd64(-106750, 106750) * DAY + vs::rnd(-2, 2);
    case 4:
    {
        civil c = pick_day();
        int64_t n = days_of(c.y, c.m, c.d);
        if (n <= -106751 || n >= 106751) return pick_span();
        return n * DAY + (vs::chance(1, 2) ? vs::rnd(-1, 1) : vs::rnd64(0, DAY - 1));
    }
    case 5: return vs::rnd64(-40000, 40000) * 1000000000ll + vs::rnd(-2, 2);
    case 6: return vs::rnd64(-40000, 40000) * 1000000ll + vs::rnd(-2, 2);
    default: return vs::rnd64(LO, INT64_MAX - 1);
    }
}
bool in_clock(i128 v) { return v >= LO && v < INT64_MAX; }
bool in_delta(i128 v) { return v > -(i128)106752 * DAY + DAY / 2 && v < INT64_MAX; }
// a duration as a sum of durations in several units
struct parts { int64_t h = 0, m = 0, s = 0, ms = 0, us = 0, ns = 0; };
parts split(int64_t v)
{
    parts p;
    if (vs::chance(1, 2)) { p.h = v / 3600000000000ll; v %= 3600000000000ll; if (p.h && vs::chance(1, 4)) { p.h += 1; v -= 3600000000000ll; } }
    if (vs::chance(1, 2)) { p.m = v / 60000000000ll; v %= 60000000000ll; }
    if (vs::chance(1, 2)) { p.s = v / 1000000000; v %= 1000000000; }
    if (vs::chance(1, 2)) { p.ms = v / 1000000; v %= 1000000; }
    if (vs::chance(1, 2)) { p.us = v / 1000; v %= 1000; }
    p.ns = v;
    return p;
}
std::string J(const parts& p)
{
    list l;
    l.add(quad((i128)p.h * 3600000000000ll)); l.add(quad((i128)p.m * 60000000000ll)); l.add(quad((i128)p.s * 1000000000ll));
    l.add(quad((i128)p.ms * 1000000)); l.add(quad((i128)p.us * 1000)); l.add(quad(p.ns));
    return l.str();
}
std::string fmt(const char* set, int n)
{
    static const char* P[] = {"%Y", "%m", "%d", "%F", "%H", "%M", "%S", "%T", "%%"};
    static const char* lit[] = {"-", "/", " ", "T", ":", ".", "x"};
    std::string f;
    int k = vs::rnd(1, n);
    for (int i = 0; i < k; ++i)
    {
        int a = set[0] == 'D' ? vs::rnd(0, 3) : set[0] == 'T' ? vs::rnd(4, 7) : vs::rnd(0, 7);
        if (vs::chance(1, 12)) a = 8;
        f += P[a];
        if (vs::chance(2, 3)) f += lit[vs::rnd(0, 6)];
    }
    return f;
}

struct machine
{
    date D[3];
    tod T[3]{tod{ch::nanoseconds(0)}, tod{ch::nanoseconds(0)}, tod{ch::nanoseconds(0)}};
    datetime X[3];
    timedelta L[3]{timedelta{ch::nanoseconds(0)}, timedelta{ch::nanoseconds(0)}, timedelta{ch::nanoseconds(0)}};
    bool tn[3] = {}, xn[3] = {}; // no value
    machine()
    {
        for (int i = 0; i < 3; ++i)
        {
            D[i] = mkdate(1970, 1, 1);
            X[i] = datetime{tc::sdk::sys_time_point{}};
        }
    }
    static timedelta delta(const parts& p)
    {
        int64_t all = ((((p.h * 60 + p.m) * 60 + p.s) * 1000 + p.ms) * 1000 + p.us) * 1000 + p.ns;
        if (p.m == 0 && p.s == 0 && p.ms == 0 && p.us == 0 && p.ns == 0) return timedelta{ch::hours(p.h)};
        if (p.h == 0 && p.m == 0 && p.ns == 0) return timedelta{ch::seconds(p.s), ch::milliseconds(p.ms), ch::microseconds(p.us)};
        if (vs::chance(1, 6)) return timedelta{ch::nanoseconds(all)};
        const ch::hours h(p.h);
        const ch::minutes m(p.m);
        const ch::seconds sec(p.s);
        const ch::milliseconds ms(p.ms);
        const ch::microseconds us(p.us);
        const ch::nanoseconds ns(p.ns);
        if (vs::chance(1, 2)) return timedelta{h, m, sec, ms, us, ns};
        return timedelta{ch::hours(p.h), ch::minutes(p.m), ch::seconds(p.s), ch::milliseconds(p.ms), ch::microseconds(p.us), ch::nanoseconds(p.ns)};
    }
    static tod day_time(const parts& p)
    {
        if (p.m == 0 && p.s == 0 && p.ms == 0 && p.us == 0 && p.ns == 0) return tod{ch::hours(p.h)};
        if (p.h == 0 && p.m == 0 && p.ns == 0) return tod{ch::seconds(p.s), ch::milliseconds(p.ms), ch::microseconds(p.us)};
        const ch::hours h(p.h);
        const ch::minutes m(p.m);
        const ch::seconds sec(p.s);
        const ch::milliseconds ms(p.ms);
        const ch::microseconds us(p.us);
        const ch::nanoseconds ns(p.ns);
        if (vs::chance(1, 2)) return tod{h, m, sec, ms, us, ns};
        return tod{ch::hours(p.h), ch::minutes(p.m), ch::seconds(p.s), ch::milliseconds(p.ms), ch::microseconds(p.us), ch::nanoseconds(p.ns)};
    }
    int r() { return vs::rnd(1, 2); }

    void look_l(int k)
    {
        const timedelta& d = L[k];
        list tot, txt;
        tot.add(quad(ns_of(d.total_days()))); tot.add(quad(ns_of(d.total_hours()))); tot.add(quad(ns_of(d.total_minutes()))); tot.add(quad(ns_of(d.total_seconds())));
        tot.add(quad(ns_of(d.total_milliseconds()))); tot.add(quad(ns_of(d.total_microseconds()))); tot.add(quad(ns_of(d.total_nanoseconds())));
        for (int p = 4; p <= 7; ++p) txt.add(vs::codes(text(d, p)));
        vs::ev("Llook").i("k", k).raw("q", quad(ns_of(d))).i("null", d.is_null())
            .raw("f", vs::arr(std::vector<int64_t>{d.hours().count(), d.minutes().count(), d.seconds().count(), d.milliseconds().count(), d.microseconds().count(), d.nanoseconds().count()}))
            .i("y", d.total_years().count()).i("mo", d.total_months().count()).raw("tot", tot.str()).raw("txt", txt.str()).raw("os", vs::codes(streamed(d))).i("eq", L[1] == L[2]).i("ne", L[1] != L[2]);
    }
    void look_d(int k)
    {
        const date& d = D[k];
        vs::ev e("Dlook");
        e.i("k", k).raw("v", J(d)).i("valid", d.is_valid()).i("eq", D[1] == D[2]).i("ne", D[1] != D[2]).i("lt", D[1] < D[2]).i("gt", D[1] > D[2]);
        if (!okdate(d)) return;
        e.i("days", d.to_timepoint().time_since_epoch().count()).i("wd", d.weekday().c_encoding()).i("iso", d.iso_weekday());
        if ((int)d.year() < 0 || (int)d.year() > 9999) return;
        std::string f = fmt("D", 4);
        e.raw("txt", vs::codes(d.to_string())).raw("os", vs::codes(streamed(d))).raw("fmt", vs::codes(f)).raw("ftxt", vs::codes(d.to_string(f)));
    }
    void look_t(int k)
    {
        const tod& t = T[k];
        vs::ev e("Tlook");
        e.i("k", k).i("valid", t.is_valid());
        if (tn[k]) return;
        e.raw("q", quad(ns_of(t))).raw("f", vs::arr(std::vector<int64_t>{t.hours().count(), t.minutes().count(), t.seconds().count(), t.milliseconds().count()}))
            .i("us", t.microseconds().count()).raw("ns", quad(t.nanoseconds().count()));
        if (!tn[3 - k]) e.i("eq", T[1] == T[2]).i("ne", T[1] != T[2]).i("lt", T[1] < T[2]).i("gt", T[1] > T[2]);
        if (ns_of(t) < 0) return;
        list txt;
        for (int p = 2; p <= 7; ++p) txt.add(vs::codes(text(t, p)));
        int p = vs::rnd(2, 7);
        std::string f = fmt("T", 4);
        e.raw("txt", txt.str()).raw("os", vs::codes(streamed(t))).raw("fmt", vs::codes(f)).i("fp", p).raw("ftxt", vs::codes(text(t, p, f)));
    }
    void look_x(int k)
    {
        const datetime& x = X[k];
        vs::ev e("Xlook");
        e.i("k", k).i("valid", x.is_valid());
        if (xn[k]) return;
        e.raw("q", quad(ns_of(x))).raw("c", J(x.date())).raw("t", quad(ns_of(x.time())));
        if (!xn[3 - k]) e.i("eq", X[1] == X[2]).i("ne", X[1] != X[2]).i("lt", X[1] < X[2]).i("gt", X[1] > X[2]);
        list txt;
        for (int p = 4; p <= 7; ++p) txt.add(vs::codes(text(x, p)));
        int p = vs::rnd(4, 7);
        std::string f = fmt("X", 6);
        e.raw("txt", txt.str()).raw("os", vs::codes(streamed(x))).raw("fmt", vs::codes(f)).i("fp", p).raw("ftxt", vs::codes(text(x, p, f)));
    }

    void op_l()
    {
        int k = r(), i = r(), j = r();
        switch (vs::rnd(0, 10))
        {
        default:
        {
            parts p = split(pick_span());
            L[k] = delta(p);
            vs::ev("L").s("op", "new").i("k", k).raw("parts", J(p));
            break;
        }
        case 3:
            if (!in_delta((i128)ns_of(L[1]) + ns_of(L[2]))) return;
            L[k] = vs::chance(1, 2) ? L[1] + L[2] : L[2] + L[1];
            vs::ev("L").s("op", "add").i("k", k);
            break;
        case 4:
            if (!in_delta((i128)ns_of(L[i]) - ns_of(L[j]))) return;
            L[k] = L[i] - L[j];
            vs::ev("L").s("op", "sub").i("k", k).i("i", i).i("j", j);
            break;
        case 5:
        {
            int64_t m = vs::chance(1, 2) ? vs::rnd(-3, 3) : vs::rnd(-1000, 1000);
            if (!in_delta((i128)ns_of(L[i]) * m)) return;
            L[k] = L[i] * m;
            vs::ev("L").s("op", "mul").i("k", k).i("i", i).i("m", m);
            break;
        }
        case 6:
        {
            int64_t m = vs::chance(1, 2) ? vs::rnd(-3, 3) : vs::rnd(-1000, 1000);
            std::string r = "ok";
            try { L[k] = L[i] / m; }
            catch (const std::domain_error&) { r = "domain"; }
            catch (...) { r = "other"; }
            vs::ev("L").s("op", "div").i("k", k).i("i", i).i("m", m).s("r", r).raw("v", quad(ns_of(L[k])));
            break;
        }
        case 7:
        {
            if (!okdate(D[i]) || !okdate(D[j]) || std::abs(day_no(D[i]) - day_no(D[j])) > 106750) return;
            L[k] = D[i] - D[j];
            vs::ev("L").s("op", "dates").i("k", k).i("i", i).i("j", j);
            break;
        }
        case 8:
            if (xn[i] || xn[j] || !in_delta((i128)ns_of(X[i]) - ns_of(X[j]))) return;
            L[k] = X[i] - X[j];
            vs::ev("L").s("op", "instants").i("k", k).i("i", i).i("j", j);
            break;
        case 9:
        {
            if (tn[i] || tn[j]) return;
            bool plus = vs::chance(1, 2);
            const tod &a = T[i], &b = T[j];
            L[k] = plus ? a + b : a - b;
            vs::ev("L").s("op", plus ? "times+" : "times-").i("k", k).i("i", i).i("j", j);
            break;
        }
        }
        look_l(k);
    }
    void op_d()
    {
        int k = r(), i = r(), j = r();
        switch (vs::rnd(0, 10))
        {
        default:
        {
            civil c = pick_day();
            if (vs::chance(1, 6)) { int w = vs::rnd(0, 3); if (w == 0) c.d = dim(c.y, c.m) + 1; else if (w == 1) c.m = vs::chance(1, 2) ? 0 : 13; else if (w == 2) c.d = vs::chance(1, 2) ? 0 : 32; else { c.m = 2; c.d = 29; } }
            if (vs::chance(1, 6)) { c.y = (int)D[3 - k].year(); if (vs::chance(1, 2)) c.m = (unsigned)D[3 - k].month(); }
            switch (vs::rnd(0, 2))
            {
            case 0: D[k] = mkdate(c.y, c.m, c.d); break;
            case 1: D[k] = date{ch::year_month_day{ch::year{(int)c.y}, ch::month{(unsigned)c.m}, ch::day{(unsigned)c.d}}}; break;
            default:
            {
                const ch::year y{(int)c.y};
                const ch::month m{(unsigned)c.m};
                const ch::day d{(unsigned)c.d};
                D[k] = date{y, m, d};
            }
            }
            vs::ev("D").s("op", "new").i("k", k).raw("v", vs::arr(std::vector<int64_t>{c.y, c.m, c.d}));
            break;
        }
        case 4:
        {
            int64_t v = pick_instant();
            D[k] = vs::chance(1, 2) ? date{tc::sdk::sys_time_point{ch::nanoseconds(v)}} : date{ch::nanoseconds(v)};
            vs::ev("D").s("op", "instant").i("k", k).raw("q", quad(v)).raw("v", J(D[k]));
            break;
        }
        case 5: case 6: case 7:
        {
            if (!okdate(D[i])) return;
            bool plus = vs::chance(1, 2);
            int64_t n = day_no(D[i]), d = ns_of(L[j]) / DAY;
            n += plus ? d : -d;
            if (n < MINDAY || n > MAXDAY) return;
            D[k] = plus ? D[i] + L[j] : D[i] - L[j];
            vs::ev("D").s("op", plus ? "add" : "sub").i("k", k).i("i", i).i("j", j).raw("v", J(D[k]));
            break;
        }
        case 8:
            if (xn[i]) return;
            D[k] = X[i].date();
            vs::ev("D").s("op", "of").i("k", k).i("i", i).raw("v", J(D[k]));
            break;
        case 9:
        {
            if (vs::chance(2, 3)) return;
            auto a = ch::floor<ch::days>(ch::system_clock::now());
            D[k] = date::today();
            auto b = ch::floor<ch::days>(ch::system_clock::now());
            vs::ev("D").s("op", "today").i("k", k).i("lo", a.time_since_epoch().count()).i("hi", b.time_since_epoch().count()).raw("v", J(D[k]));
            break;
        }
        }
        look_d(k);
    }
    void op_t()
    {
        int k = r(), i = r(), j = r();
        switch (vs::rnd(0, 9))
        {
        default:
        {
            parts p = split(vs::chance(1, 3) ? pick_span() : vs::chance(1, 3) ? DAY * vs::rnd(-2, 2) + vs::rnd(-1, 1) : (int64_t)(vs::rnd() % (uint64_t)DAY));
            T[k] = day_time(p);
            tn[k] = false;
            vs::ev("T").s("op", "new").i("k", k).raw("parts", J(p));
            break;
        }
        case 4: case 5:
        {
            bool plus = vs::chance(1, 2);
            if (tn[i] || !in_delta((i128)ns_of(T[i]) + (plus ? (i128)ns_of(L[j]) : -(i128)ns_of(L[j])))) return;
            const tod& t = T[i];
            T[k] = plus ? t + L[j] : t - L[j];
            tn[k] = false;
            vs::ev("T").s("op", plus ? "add" : "sub").i("k", k).i("i", i).i("j", j);
            break;
        }
        case 6:
            if (xn[i]) return;
            T[k] = X[i].time();
            tn[k] = false;
            vs::ev("T").s("op", "of").i("k", k).i("i", i);
            break;
        case 7:
        {
            if (vs::chance(1, 2)) return;
            int p = vs::rnd(2, 7);
            int64_t a = ch::system_clock::now().time_since_epoch().count();
            T[k] = with_precision_t(p, [](auto u) { return tod::utc_now<decltype(u)>(); });
            int64_t b = ch::system_clock::now().time_since_epoch().count();
            tn[k] = false;
            vs::ev("T").s("op", "now").i("k", k).i("p", p).raw("q", quad(ns_of(T[k]))).raw("lo", quad(a)).raw("hi", quad(b));
            break;
        }
        case 8:
            if (vs::chance(3, 4)) return;
            T[k] = tod{};
            tn[k] = true;
            vs::ev("T").s("op", "none").i("k", k);
        }
        look_t(k);
    }
    void op_x()
    {
        int k = r(), i = r(), j = r();
        switch (vs::rnd(0, 13))
        {
        default:
        {
            int64_t v = pick_instant();
            const tc::sdk::sys_time_point tp{ch::nanoseconds(v)};
            X[k] = vs::chance(1, 2) ? datetime{tp} : datetime{tc::sdk::sys_time_point{ch::nanoseconds(v)}};
            vs::ev("X").s("op", "new").i("k", k).raw("q", quad(v));
            break;
        }
        case 4:
            if (!okdate(D[i]) || !in_clock((i128)day_no(D[i]) * DAY)) return;
            X[k] = datetime{D[i]};
            vs::ev("X").s("op", "date").i("k", k).i("i", i);
            break;
        case 5:
        {
            if (tn[i]) return;
            const tod& t = T[i];
            X[k] = datetime{t};
            vs::ev("X").s("op", "time").i("k", k).i("i", i);
            break;
        }
        case 6: case 7:
        {
            if (tn[j] || !okdate(D[i]) || !in_clock((i128)day_no(D[i]) * DAY) || !in_clock((i128)day_no(D[i]) * DAY + ns_of(T[j]))) return;
            const tod& t = T[j];
            X[k] = datetime{D[i], t};
            vs::ev("X").s("op", "both").i("k", k).i("i", i).i("j", j);
            break;
        }
        case 8:
        {
            civil c = pick_day();
            parts p;
            if (vs::chance(2, 3)) p = {vs::rnd(0, 23), vs::rnd(0, 59), vs::rnd(0, 59), vs::rnd(0, 999), vs::rnd(0, 999), vs::rnd(0, 999)};
            else p = split(pick_span() / 2);
            i128 base = (i128)days_of(c.y, c.m, c.d) * DAY, v = base + ((((i128)p.h * 60 + p.m) * 60 + p.s) * 1000 + p.ms) * 1000000 + (i128)p.us * 1000 + p.ns;
            if (!in_clock(base) || !in_clock(v) || !in_clock(v - p.ns)) return;
            X[k] = datetime{ch::year{(int)c.y}, ch::month{(unsigned)c.m}, ch::day{(unsigned)c.d}, ch::hours(p.h), ch::minutes(p.m), ch::seconds(p.s), ch::milliseconds(p.ms), ch::microseconds(p.us), ch::nanoseconds(p.ns)};
            vs::ev("X").s("op", "fields").i("k", k).raw("c", vs::arr(std::vector<int64_t>{c.y, c.m, c.d})).raw("parts", J(p));
            break;
        }
        case 9: case 10: case 11:
        {
            bool plus = vs::chance(1, 2);
            if (xn[i] || !in_clock((i128)ns_of(X[i]) + (plus ? (i128)ns_of(L[j]) : -(i128)ns_of(L[j])))) return;
            X[k] = plus ? X[i] + L[j] : X[i] - L[j];
            vs::ev("X").s("op", plus ? "add" : "sub").i("k", k).i("i", i).i("j", j);
            break;
        }
        case 12:
        {
            if (vs::chance(1, 2)) return;
            int p = vs::rnd(4, 7);
            int64_t a = ch::system_clock::now().time_since_epoch().count();
            X[k] = with_precision(p, [](auto u) { return datetime::utc_now<decltype(u)>(); });
            int64_t b = ch::system_clock::now().time_since_epoch().count();
            vs::ev("X").s("op", "now").i("k", k).i("p", p).raw("q", quad(ns_of(X[k]))).raw("lo", quad(a)).raw("hi", quad(b));
            break;
        }
        case 13:
            if (vs::chance(3, 4)) return;
            X[k] = datetime{};
            xn[k] = true;
            vs::ev("X").s("op", "none").i("k", k);
            look_x(k);
            return;
        }
        xn[k] = false;
        look_x(k);
    }

    // ---- text
    static std::string mutate(std::string s)
    {
        static const char C[] = "0123456789-:T.+ /Zz\tA,eE9901";
        int n = vs::chance(1, 3) ? 2 : 1;
        for (int i = 0; i < n && !s.empty(); ++i)
        {
            size_t at = (size_t)vs::rnd(0, (int)s.size() - 1);
            char c = C[vs::rnd(0, (int)sizeof C - 2)];
            switch (vs::rnd(0, 5))
            {
            case 0: s.erase(at, 1); break;
            case 1: s.insert(at, 1, c); break;
            case 2: s.resize(at); break;
            case 3: s += c; break;
            default: s[at] = c;
            }
        }
        return s;
    }
    static std::string digits(int64_t v, int w)
    {
        std::string s = std::to_string(v);
        while ((int)s.size() < w) s = "0" + s;
        return s;
    }
    static std::string date_text()
    {
        civil c = pick_day();
        if (c.y < 0) c.y = -c.y;
        c.y %= 10000;
        if (c.d > dim(c.y, c.m)) c.d = dim(c.y, c.m);
        if (vs::chance(1, 4)) { static const int ds[] = {0, 29, 30, 31, 32}; c.d = ds[vs::rnd(0, 4)]; }
        if (vs::chance(1, 8)) { static const int ms[] = {0, 13, 2, 99}; c.m = ms[vs::rnd(0, 3)]; }
        bool wide = vs::chance(7, 8);
        return digits(c.y, wide ? 4 : 1) + "-" + digits(c.m, wide ? 2 : 1) + "-" + digits(c.d, wide ? 2 : 1);
    }
    static std::string time_text()
    {
        int h = vs::rnd(0, 23), m = vs::rnd(0, 59), s = vs::rnd(0, 59);
        if (vs::chance(1, 8)) h = vs::rnd(22, 30);
        if (vs::chance(1, 8)) m = vs::rnd(58, 99);
        if (vs::chance(1, 8)) s = vs::rnd(58, 99);
        bool wide = vs::chance(7, 8);
        std::string t = digits(h, wide ? 2 : 1) + ":" + digits(m, wide ? 2 : 1) + ":" + digits(s, wide ? 2 : 1);
        int f = vs::rnd(0, 4), k = f < 3 ? 3 * f : f == 3 ? 9 : vs::rnd(0, 12);
        if (k) t += "." + (vs::chance(1, 3) ? std::string(k, vs::chance(1, 2) ? '9' : '0') : digits(vs::rnd64(0, 1), 1) + digits((int64_t)(vs::rnd() % 1000000000000ull), 12).substr(0, k - 1));
        return t;
    }
    static std::string instant_text()
    {
        static const char* odd[] = {"1677-09-21T00:12:43.145", "1677-09-21T00:12:44.000000000", "1677-09-22T00:00:00.000000000", "2262-04-11T23:47:16.854775807", "2262-04-11T23:47:16.854775808", "2262-04-11T23:47:17",
                                    "2262-04-12T00:00:00", "1500-01-01T00:00:00", "9999-12-31T23:59:59", "0000-01-01T00:00:00", "1970-01-01T00:00:00", "1969-12-31T23:59:59.999999999", "1676-01-01T00:00:00.000", "2024-01-01T24:00:00", "2016-12-31T23:59:60"};
        if (vs::chance(1, 6)) return odd[vs::rnd(0, (int)(sizeof odd / sizeof *odd) - 1)];
        if (vs::chance(1, 3)) { return text(datetime{tc::sdk::sys_time_point{ch::nanoseconds(pick_instant())}}, vs::rnd(4, 7)); }
        return date_text() + (vs::chance(1, 10) ? " " : "T") + time_text();
    }
    static void read_date(const std::string& s)
    {
        std::string r = "ok", v = "[0,0,0]";
        try { v = J(date::from_string(s)); }
        catch (const std::exception&) { r = "throw"; }
        vs::ev("pd").raw("t", vs::codes(s)).s("r", r).raw("v", v);
    }
    static void read_time(const std::string& s, int p)
    {
        std::string r = "ok", v = "[0,0,0,0]";
        try { v = quad(ns_of(read_t(s, p))); }
        catch (const std::exception&) { r = "throw"; }
        vs::ev("pt").raw("t", vs::codes(s)).i("p", p).s("r", r).raw("v", v);
    }
    static void read_instant(const std::string& s, int p)
    {
        std::string r = "ok", v = "[0,0,0,0]";
        try { v = quad(ns_of(read_x(s, p))); }
        catch (const std::exception&) { r = "throw"; }
        vs::ev("px").raw("t", vs::codes(s)).i("p", p).s("r", r).raw("v", v);
    }
    void back()
    {
        static const char* DF[] = {"%F", "%Y-%m-%d", "%d/%m/%Y", "%m.%d.%Y", "%Y%m%d", "x%Fy"};
        static const char* TF[] = {"%T", "%H:%M:%S", "%H.%M.%S", "%S-%M-%H", "at %T", "%H%M%S"};
        static const char* XF[] = {"%FT%T", "%F %T", "%T %F", "%Y/%m/%d %H:%M:%S", "%d.%m.%Y, %T", "%Y-%m-%dT%H:%M:%S", "%FT%TZ"};
        int k = r();
        std::string res = "ok", v = "[0,0,0]";
        bool standard = vs::chance(1, 2);
        switch (vs::rnd(0, 2))
        {
        case 0:
        {
            if (!okdate(D[k]) || (int)D[k].year() < 0 || (int)D[k].year() > 9999) return;
            std::string f = DF[standard ? 0 : vs::rnd(1, 5)];
            try { v = J(standard ? date::from_string(D[k].to_string()) : date::from_string(D[k].to_string(f), f)); }
            catch (...) { res = "throw"; }
            vs::ev("back").s("w", "D").i("k", k).i("p", 1).s("f", f).s("r", res).raw("v", v);
            return;
        }
        case 1:
        {
            if (tn[k] || ns_of(T[k]) < 0) return;
            int p = vs::rnd(2, 7);
            std::string f = TF[standard ? 0 : vs::rnd(1, 5)];
            const tod& t = T[k];
            try { v = quad(ns_of(read_t(text(t, p, f), p, f))); }
            catch (...) { res = "throw"; }
            vs::ev("back").s("w", "T").i("k", k).i("p", p).s("f", f).s("r", res).raw("v", v);
            return;
        }
        default:
        {
            if (xn[k]) return;
            int p = vs::rnd(4, 7);
            std::string f = XF[standard ? 0 : vs::rnd(1, 6)];
            try { v = quad(ns_of(read_x(text(X[k], p, f), p, f))); }
            catch (...) { res = "throw"; }
            vs::ev("back").s("w", "X").i("k", k).i("p", p).s("f", f).s("r", res).raw("v", v);
        }
        }
    }
    void fuzz()
    {
        int m = vs::rnd(0, 2);
        switch (vs::rnd(0, 2))
        {
        case 0:
        {
            std::string s = date_text();
            for (int i = 0; i < m; ++i) s = mutate(s);
            read_date(s);
            return;
        }
        case 1:
        {
            std::string s = time_text();
            for (int i = 0; i < m; ++i) s = mutate(s);
            read_time(s, vs::rnd(2, 7));
            return;
        }
        default:
        {
            std::string s = instant_text();
            for (int i = 0; i < m; ++i) s = mutate(s);
            read_instant(s, vs::rnd(4, 7));
        }
        }
    }
};

void run(int wl, int wd, int wt, int wx, int wb, int wf, int n)
{
    vs::params("{\"kind\":\"history\"}");
    machine m;
    for (int i = 0; i < n; ++i)
    {
        int w = vs::rnd(0, wl + wd + wt + wx + wb + wf - 1);
        if ((w -= wl) < 0) m.op_l();
        else if ((w -= wd) < 0) m.op_d();
        else if ((w -= wt) < 0) m.op_t();
        else if ((w -= wx) < 0) m.op_x();
        else if ((w -= wb) < 0) m.back();
        else m.fuzz();
    }
}
void dates() { run(3, 6, 0, 1, 0, 0, 150); }
void arith() { run(3, 1, 3, 4, 0, 0, 150); }
void texts() { run(1, 2, 2, 3, 6, 10, 200); }

// all days of the part's years: the calendar facts of every day and its successor
void calendar_sweep()
{
    vs::params("{\"kind\":\"calendar\"}");
    const timedelta day{ch::hours(24)};
    for (int y0 = -2000; y0 <= 4000; y0 += 7)
    {
        if ((uint64_t)((y0 + 2000) / 7) % vs::part_of != vs::part_no) continue;
        int y = y0 + vs::rnd(0, 6);
        list rows;
        for (int m = 0; m <= 13; ++m)
            for (int d : {0, 1, 15, 28, 29, 30, 31, 32})
            {
                date a = mkdate(y, m, d);
                std::vector<int64_t> v{y, m, d, a.is_valid()};
                if (okdate(a))
                {
                    date b = a + day, c = a - day;
                    for (int64_t x : {(int64_t)a.to_timepoint().time_since_epoch().count(), (int64_t)a.weekday().c_encoding(), (int64_t)a.iso_weekday(), (int64_t)(int)b.year(), (int64_t)(unsigned)b.month(), (int64_t)(unsigned)b.day(),
                                      (int64_t)(int)c.year(), (int64_t)(unsigned)c.month(), (int64_t)(unsigned)c.day()})
                        v.push_back(x);
                }
                rows.add(vs::arr(v));
            }
        vs::ev("cal").raw("rows", rows.str());
    }
}
// every third second of the day printed and read again, both as a time of day and as a date-time
void clock_sweep()
{
    vs::params("{\"kind\":\"clock\"}");
    list rows;
    int n = 0;
    const int64_t day = vs::rnd64(-106751, 106750);
    for (int s = vs::rnd(0, 2); s < 86400; s += 3)
    {
        if ((uint64_t)(s / 3) % vs::part_of != vs::part_no) continue;
        const tod t{ch::seconds(s)};
        std::string a = text(t, 4);
        datetime x{tc::sdk::sys_time_point{ch::nanoseconds(day * DAY + s * 1000000000ll)}};
        std::string b = text(x, 4).substr(11);
        int64_t u = -1, w = -1;
        try { u = ns_of(read_t(a, 4)) / 1000000000; w = ns_of(read_x(text(x, 4), 4).time()) / 1000000000; }
        catch (...) {}
        list row;
        row.add(std::to_string(s)); row.add(vs::codes(a)); row.add(vs::codes(b)); row.add(std::to_string(u)); row.add(std::to_string(w));
        rows.add(row.str());
        if (++n % 200 == 0) { vs::ev("clock").raw("rows", rows.str()); rows = list{}; }
    }
    vs::ev("clock").raw("rows", rows.str());
}
// every text one edit away from a well-formed one
void edit_sweep()
{
    vs::params("{\"kind\":\"edits\"}");
    static const char C[] = "0123456789-:T. +Z";
    std::vector<std::string> base = {"2024-02-29", "1969-12-31T23:59:59.999", "23:59:59.5", "2262-04-11T23:47:16", "00:00:00", "0999-10-01", "1677-09-22T00:00:00"};
    uint64_t k = 0;
    for (auto& s : base)
    {
        bool d = s.size() == 10 && s[4] == '-', x = s.size() > 12;
        auto go = [&](const std::string& e) {
            if (k++ % vs::part_of != vs::part_no) return;
            if (x) machine::read_instant(e, vs::rnd(4, 7));
            else if (d) machine::read_date(e);
            else machine::read_time(e, vs::rnd(2, 7));
        };
        go(s);
        for (size_t i = 0; i <= s.size(); ++i)
        {
            for (char c : std::string(C))
            {
                go(s.substr(0, i) + c + s.substr(i));
                if (i < s.size()) go(s.substr(0, i) + c + s.substr(i + 1));
            }
            if (i < s.size()) { go(s.substr(0, i) + s.substr(i + 1)); go(s.substr(0, i)); go(s.substr(i)); }
        }
    }
}
const vs::scenario LIST[] = {{"dates", dates}, {"arith", arith}, {"texts", texts}, {"calendar_sweep", calendar_sweep}, {"clock_sweep", clock_sweep}, {"edits_sweep", edit_sweep}};
}
int main(int argc, char** argv) { return vs::driver_main(argc, argv, LIST, sizeof LIST / sizeof *LIST); }
