// range, rectangle, line, point, size, min/max
#include "seq.hpp"
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/math.hpp>

#include <array>
#include <cmath>
#include <sstream>
#include <vector>

namespace
{
using namespace tc::sdk;

// coordinates of type T are logged in units of 1/S
template <class T> struct unit { static constexpr int64_t S = 1; };
template <> struct unit<double> { static constexpr int64_t S = 4; };
template <> struct unit<float> { static constexpr int64_t S = 4; };
template <class T> T mk(int64_t v) { return (T)((double)v / (double)unit<T>::S); }
// a number that stands for one unit (of a scenario with large numbers)
template <class T> int64_t scale = 1;
template <> int mk<int>(int64_t v) { return (int)(v * scale<int>); }
template <> long long mk<long long>(int64_t v) { return v * scale<long long>; }
template <> unsigned mk<unsigned>(int64_t v) { return (unsigned)v; }
template <class T> int64_t lowest(int64_t span) { return std::is_unsigned_v<T> ? 0 : -span; }
// long stands for numbers that need all of the 64 bits
template <> struct unit<long> { static constexpr int64_t S = (int64_t(1) << 32) + 1; };
template <> long mk<long>(int64_t v) { return v * unit<long>::S; }
// any value that is not a whole number of units shows as an impossible one
int64_t whole(double v)
{
    if (!(std::fabs(v) < 2.1e9) || v != std::floor(v)) return 2147483646;
    return (int64_t)v;
}
template <class T> int64_t lg(T v)
{
    if constexpr (std::is_floating_point_v<T>) return whole((double)v * (double)unit<T>::S);
    else if constexpr (unit<T>::S > 1) return v % unit<T>::S ? 2147483646 : v / unit<T>::S;
    else if (scale<T> > 1) return v % scale<T> ? 2147483646 : v / scale<T>;
    else return (int64_t)v > 2147483646 || (int64_t)v < -2147483646 ? 2147483646 : (int64_t)v;
}
// a number of type double in units
template <class T> double units(double v) { return std::is_floating_point_v<T> || unit<T>::S > 1 ? v * (double)unit<T>::S : v / (double)scale<T>; }
std::string J(std::initializer_list<int64_t> v) { return vs::arr(v); }
template <class T> std::string J(const range<T>& r) { return J({lg(r.min()), lg(r.max())}); }
template <class T> std::string J(const point<T>& p) { return J({lg(p.x()), lg(p.y())}); }
template <class T> std::string J(const size<T>& p) { return J({lg(p.width()), lg(p.height())}); }
template <class T> std::string J(const rectangle<T>& r) { return J({lg(r.top_left().x()), lg(r.top_left().y()), lg(r.width()), lg(r.height())}); }
struct list
{
    std::string s = "[";
    void add(const std::string& x) { if (s.size() > 1) s += ','; s += x; }
    std::string str() const { return s + "]"; }
};

// ------------------------------------------------------------------------------------------ ranges
template <class T> void ask(const range<T>& a, const range<T>& b, const std::vector<int64_t>& vals, bool maps)
{
    list vl, ml;
    // the length need not be representable
    const bool nolen = std::is_same_v<T, int> && (lg(a.max()) - lg(a.min())) * scale<T> > 2147483647;
    for (auto v : vals) if (!std::is_unsigned_v<T> || v >= 0) vl.add(J({v, a.contains(mk<T>(v)), lg(a.clamp(mk<T>(v)))}));
    if (maps)
        for (int k = 0; k <= 4; ++k) ml.add(J({k, whole(units<T>(a.map(k / 4.0) * 4))}));
    vs::ev("ask").raw("a", J(a)).raw("b", J(b)).i("na", a.is_null()).i("nolen", nolen).i("len", nolen ? 0 : lg(a.lenght())).i("eq", a == b).i("ne", a != b).i("cab", a.contains(b)).i("cba", b.contains(a))
        .i("iab", a.intersects(b)).i("iba", b.intersects(a)).raw("xab", J(a.get_intersection(b))).raw("xba", J(b.get_intersection(a))).raw("uab", J(a.get_union(b)))
        .raw("uba", J(b.get_union(a))).raw("vals", vl.str()).raw("maps", ml.str());
}
template <class T> void range_history(int64_t span)
{
    auto val = [&](const range<T>& a, const range<T>& b) -> int64_t {
        int64_t near[] = {lg(a.min()), lg(a.max()), lg(b.min()), lg(b.max())};
        if (vs::chance(2, 3)) return std::max<int64_t>(lowest<T>(span), std::min<int64_t>(span, near[vs::rnd(0, 3)] + vs::rnd(-1, 1)));
        return vs::rnd64(lowest<T>(span), span);
    };
    range<T> r[2];
    const bool maps = span <= 1000000 && !std::is_same_v<T, long>;
    auto query = [&] {
        std::vector<int64_t> vals;
        for (auto x : {lg(r[0].min()), lg(r[0].max())}) for (int d = -1; d <= 1; ++d) if (scale<T> == 1 || std::abs(x + d) <= span) vals.push_back(x + d);
        vals.push_back(val(r[0], r[1]));
        ask(r[0], r[1], vals, maps);
    };
    query();
    for (int i = 0; i < 120; ++i)
    {
        int w = vs::rnd(0, 1);
        int64_t v = val(r[0], r[1]);
        switch (vs::rnd(0, 9))
        {
        case 0: case 1:
        {
            int64_t u = val(r[0], r[1]);
            r[w] = range<T>(mk<T>(std::min(u, v)), mk<T>(std::max(u, v)));
            vs::ev("new").i("r", w).raw("v", J({std::min(u, v), std::max(u, v)}));
            break;
        }
        case 2:
            r[w] = r[1 - w];
            vs::ev("assign").i("r", w);
            break;
        case 3: case 4: case 5:
            vs::ev("setmin").i("r", w).i("v", v);
            r[w].set_min(mk<T>(v));
            break;
        default:
            vs::ev("setmax").i("r", w).i("v", v);
            r[w].set_max(mk<T>(v));
        }
        query();
    }
}
void range_scenario()
{
    int t = vs::rnd(0, 7);
    static const int64_t spans[] = {3, 12, 1000, 1000000, 1000000000};
    int64_t span = spans[vs::rnd(0, 4)];
    vs::params("{\"kind\":\"range\",\"t\":" + std::to_string(t) + "}");
    if (t == 0) range_history<int>(span);
    else if (t == 1) range_history<double>(span);
    else if (t == 2) range_history<long long>(span);
    else if (t == 4) range_history<long>(span);
    else if (t == 5) range_history<unsigned>(span);
    else if (t == 6) range_history<short>(std::min<int64_t>(span, 10000));
    else if (t == 7) { span = std::min<int64_t>(span, 1000); scale<int> = 2147483647 / span; range_history<int>(span); } // up to the limits of int
    else range_history<float>(std::min<int64_t>(span, 1000000));
}
// every pair of ranges with bounds in -n..n
template <class T> void range_sweep_t(int n)
{
    range<T> a, b;
    uint64_t k = 0;
    for (int al = -n; al <= n; ++al) for (int ah = al; ah <= n; ++ah) for (int bl = -n; bl <= n; ++bl) for (int bh = bl; bh <= n; ++bh)
    {
        if (k++ % vs::part_of != vs::part_no) continue;
        a = range<T>(mk<T>(al), mk<T>(ah));
        b = range<T>(mk<T>(bl), mk<T>(bh));
        vs::ev("new").i("r", 0).raw("v", J({al, ah}));
        vs::ev("new").i("r", 1).raw("v", J({bl, bh}));
        std::vector<int64_t> vals;
        for (int v = -n - 1; v <= n + 1; ++v) vals.push_back(v);
        ask(a, b, vals, true);
        for (int v = -n; v <= n; ++v)
        {
            if (vs::rnd(0, 3)) continue;
            range<T> c = a;
            vs::ev("new").i("r", 0).raw("v", J({al, ah}));
            if (vs::chance(1, 2)) { c.set_min(mk<T>(v)); vs::ev("setmin").i("r", 0).i("v", v); }
            else { c.set_max(mk<T>(v)); vs::ev("setmax").i("r", 0).i("v", v); }
            ask(c, b, {}, false);
        }
    }
}
void range_sweep()
{
    vs::params("{\"kind\":\"range\",\"t\":9}");
    if (vs::chance(1, 2)) range_sweep_t<int>(3); else range_sweep_t<double>(3);
}

// -------------------------------------------------------------------------------------- rectangles
template <class T> void rask(const rectangle<T>& a, const rectangle<T>& b, const std::vector<std::pair<int64_t, int64_t>>& pts, int64_t dx, int64_t dy)
{
    list pl;
    for (auto [x, y] : pts) pl.add(J({x, y, a.contains(point<T>(mk<T>(x), mk<T>(y)))}));
    const auto c = a.center();
    const double s = (double)unit<T>::S;
    const bool wide = std::is_same_v<T, long> || scale<T> > 1 || (std::is_same_v<T, short> && (lg(a.width()) > 180 || lg(a.height()) > 180)) || lg(a.width()) > 30000 || lg(a.height()) > 30000; // the area or the exact centre need not be representable
    const bool far = std::is_same_v<T, long> || std::max(std::abs(lg(a.top_left().x())), std::abs(lg(a.top_left().y()))) > 500000000;
    vs::ev("rask").raw("a", J(a)).raw("b", J(b)).i("na", a.is_null()).i("nb", b.is_null()).i("eq", a == b).i("ne", a != b).raw("tl", J(a.top_left())).raw("tr", J(a.top_right()))
        .raw("bl", J(a.bottom_left())).raw("br", J(a.bottom_right())).raw("c2", far ? "[]" : J({whole(units<T>(c.x() * 2)), whole(units<T>(c.y() * 2))})).i("area", wide ? -1 : whole((double)a.area() * s * s))
        .raw("d", J({dx, dy})).raw("tr2", J(a.translated(mk<T>(dx), mk<T>(dy)))).i("iab", a.intersects(b)).i("iba", b.intersects(a)).raw("xab", J(a.get_intersection(b)))
        .raw("xba", J(b.get_intersection(a))).raw("uab", J(a.get_union(b))).raw("uba", J(b.get_union(a))).i("cab", a.contains(b)).i("cba", b.contains(a)).raw("pts", pl.str());
}
template <class T> void rect_history(int64_t span)
{
    rectangle<T> r[2];
    auto edge = [&](bool x) -> int64_t { // a coordinate near one of the present edges
        const auto& q = r[vs::rnd(0, 1)];
        int64_t p = x ? lg(q.top_left().x()) : lg(q.top_left().y()), e = x ? lg(q.width()) : lg(q.height());
        int64_t v = p + (vs::chance(1, 2) ? e : 0) + vs::rnd(-1, 1);
        return vs::chance(3, 4) ? std::max(lowest<T>(span), std::min(span, v)) : vs::rnd64(lowest<T>(span), span);
    };
    auto extent = [&]() -> int64_t { return vs::chance(1, 2) ? vs::rnd(1, 3) : vs::rnd64(1, span); };
    auto fresh = [&](int w) {
        int64_t v[4];
        if (vs::chance(1, 12)) // a null rectangle
        {
            v[0] = edge(true); v[1] = edge(false); v[2] = -vs::rnd(0, 2); v[3] = -vs::rnd(0, 2);
            if (std::is_unsigned_v<T>) v[2] = v[3] = 0;
        }
        else
        {
            v[0] = edge(true); v[1] = edge(false);
            v[2] = extent(); v[3] = extent();
            // often ends at an edge of the other one
            if (vs::chance(1, 2)) { int64_t e = edge(true); if (e > v[0]) v[2] = e - v[0]; }
            if (vs::chance(1, 2)) { int64_t e = edge(false); if (e > v[1]) v[3] = e - v[1]; }
        }
        if (vs::chance(1, 2)) r[w] = rectangle<T>(mk<T>(v[0]), mk<T>(v[1]), mk<T>(v[2]), mk<T>(v[3]));
        else r[w] = rectangle<T>(point<T>(mk<T>(v[0]), mk<T>(v[1])), mk<T>(v[2]), mk<T>(v[3]));
        vs::ev("rnew").i("r", w).raw("v", J({v[0], v[1], v[2], v[3]}));
    };
    auto query = [&] {
        std::vector<std::pair<int64_t, int64_t>> pts;
        const auto& q = r[0];
        int64_t x0 = lg(q.top_left().x()), y0 = lg(q.top_left().y()), w = lg(q.width()), h = lg(q.height());
        for (int64_t x : {x0, x0 + 1, x0 + w - 1, x0 + w}) for (int64_t y : {y0, y0 + 1, y0 + h - 1, y0 + h}) if (!std::is_unsigned_v<T> || (x >= 0 && y >= 0)) pts.push_back({x, y});
        pts.push_back({edge(true), edge(false)});
        int64_t dx = vs::rnd(-3, 3), dy = vs::rnd(-3, 3);
        if (std::is_unsigned_v<T>) { dx = std::max(dx, -x0); dy = std::max(dy, -y0); }
        rask(r[0], r[1], pts, dx, dy);
    };
    for (int i = 0; i < 2; ++i) fresh(i);
    for (int i = 0; i < 80; ++i)
    {
        int w = vs::rnd(0, 1);
        auto& q = r[w];
        const bool null = lg(q.width()) <= 0;
        int op = vs::rnd(0, 8);
        if (op < 4 || (null && (op == 4 || op == 5))) fresh(w);
        else if (op == 4) { int64_t e = edge(true) - lg(q.top_left().x()); if (e <= 0) e = extent(); q.set_width(mk<T>(e)); vs::ev("rset").i("r", w).s("op", "width").raw("v", J({e})); }
        else if (op == 5) { int64_t e = edge(false) - lg(q.top_left().y()); if (e <= 0) e = extent(); q.set_height(mk<T>(e)); vs::ev("rset").i("r", w).s("op", "height").raw("v", J({e})); }
        else if (op == 6) { int64_t e = extent(), f = extent(); q.set_size(mk<T>(e), mk<T>(f)); vs::ev("rset").i("r", w).s("op", "size").raw("v", J({e, f})); }
        else if (op == 7) { int64_t e = edge(true), f = edge(false); q.set_position(point<T>(mk<T>(e), mk<T>(f))); vs::ev("rset").i("r", w).s("op", "position").raw("v", J({e, f})); }
        else
        {
            int64_t e = vs::rnd(-2, 2), f = vs::rnd(-2, 2);
            int64_t x = lg(q.top_left().x()) + e, y = lg(q.top_left().y()) + f;
            if (x < lowest<T>(span) || x > span || y < lowest<T>(span) || y > span) { e = 0; f = 0; }
            q.translate(mk<T>(e), mk<T>(f)); vs::ev("rset").i("r", w).s("op", "translate").raw("v", J({e, f}));
        }
        query();
    }
}
void rect_scenario()
{
    int t = vs::rnd(0, 7);
    static const int64_t spans[] = {4, 12, 1000, 20000, 500000000};
    int64_t span = spans[vs::rnd(0, 4)];
    if (t == 3) span = std::min<int64_t>(span, 1000);
    vs::params("{\"kind\":\"rect\",\"t\":" + std::to_string(t) + "}");
    if (t == 0) rect_history<int>(span);
    else if (t == 1) rect_history<double>(span);
    else if (t == 3) rect_history<float>(span);
    else if (t == 4) rect_history<long>(span);
    else if (t == 5) rect_history<unsigned>(span);
    else if (t == 6) rect_history<short>(std::min<int64_t>(span, 5000));
    else if (t == 7) { span = std::min<int64_t>(span, 1000); scale<int> = 2147483647 / (4 * span + 8); rect_history<int>(span); }
    else rect_history<long long>(span);
}
// every pair of rectangles with position in 0..n and extent in 1..n (the first at any position relative to the second)
void rect_sweep()
{
    vs::params("{\"kind\":\"rect\",\"t\":9}");
    const int n = 3;
    uint64_t k = 0;
    for (int x = -n - 1; x <= n + 1; ++x) for (int y = -n - 1; y <= n + 1; ++y) for (int w = 1; w <= n; ++w) for (int h = 1; h <= n; ++h)
        for (int w2 = 1; w2 <= n; ++w2) for (int h2 = 1; h2 <= n; ++h2)
        {
            if (k++ % vs::part_of != vs::part_no) continue;
            rectangle<int> a(x, y, w, h), b(0, 0, w2, h2);
            vs::ev("rnew").i("r", 0).raw("v", J({x, y, w, h}));
            vs::ev("rnew").i("r", 1).raw("v", J({0, 0, w2, h2}));
            rask(a, b, {}, x, -y);
        }
}

// ---------------------------------------------------------------------------------------- segments
template <class T> line<T> seg(const int64_t* p) { return line<T>(point<T>(mk<T>(p[0]), mk<T>(p[1])), point<T>(mk<T>(p[2]), mk<T>(p[3]))); }
template <class T> std::string at(const std::optional<point<double>>& r, bool big)
{
    if (!r) return "[]";
    auto z = [&](double v) -> std::string {
        v = units<T>(v);
        if (!(std::fabs(v) < (big ? 1e8 : 2e6))) return big ? "[200000000,0]" : "2000000000";
        if (!big) return std::to_string((int64_t)std::llround(v * 1000));
        double f = std::floor(v);
        return J({(int64_t)f, (int64_t)std::llround((v - f) * 1000)});
    };
    return "[" + z(r->x()) + "," + z(r->y()) + "]";
}
template <class T> void ask_seg(const int64_t* pv, const int64_t* qv, bool big, bool points)
{
    int64_t pf[4] = {pv[2], pv[3], pv[0], pv[1]}, qf[4] = {qv[2], qv[3], qv[0], qv[1]};
    line<T> P[2] = {seg<T>(pv), seg<T>(pf)}, Q[2] = {seg<T>(qv), seg<T>(qf)};
    list hits, pts;
    for (auto& p : P) for (auto& q : Q)
    {
        hits.add(std::to_string(p.intersects(q)));
        hits.add(std::to_string(q.intersects(p)));
        auto r = p.get_intersection(q), s = q.get_intersection(p);
        hits.add(std::to_string(r.has_value()));
        hits.add(std::to_string(s.has_value()));
        if (points) { pts.add(at<T>(r, big)); pts.add(at<T>(s, big)); }
    }
    vs::ev("seg").raw("p", J({pv[0], pv[1], pv[2], pv[3]})).raw("q", J({qv[0], qv[1], qv[2], qv[3]})).i("big", big).raw("hits", hits.str()).raw("at", pts.str())
        .i("eq", P[0] == Q[0]).i("ne", P[0] != Q[0]).i("null", P[0].is_null()).i("vert", P[0].is_vertical()).i("hor", P[0].is_horizontal());
}
void pick_seg(int64_t span, int64_t* p, const int64_t* o)
{
    for (int i = 0; i < 4; ++i)
    {
        p[i] = vs::rnd64(-span, span);
        if (o && vs::chance(1, 4)) p[i] = o[(i & 1) + 2 * vs::rnd(0, 1)] + (vs::chance(1, 3) ? vs::rnd(-1, 1) : 0);
    }
    if (o && vs::chance(1, 6)) { int e = 2 * vs::rnd(0, 1); p[0] = o[e]; p[1] = o[e + 1]; }                              // shares an end point
    if (o && vs::chance(1, 6)) { int64_t k = vs::rnd(-2, 2); p[2] = p[0] + k * (o[2] - o[0]); p[3] = p[1] + k * (o[3] - o[1]); } // parallel
    if (o && vs::chance(1, 6)) { p[0] = (o[0] + o[2]) / 2; p[1] = (o[1] + o[3]) / 2; }                                     // begins on it (nearly)
    if (vs::chance(1, 10)) p[2] = p[0];
    if (vs::chance(1, 10)) p[3] = p[1];
    for (int i = 0; i < 4; ++i) p[i] = std::max(-span, std::min(span, p[i]));
}
template <class T> void seg_history(int64_t span)
{
    const bool big = span > 50;
    for (int i = 0; i < 60; ++i)
    {
        int64_t p[4], q[4];
        pick_seg(span, p, nullptr);
        if (std::is_unsigned_v<T>) for (auto& x : p) x = std::abs(x);
        pick_seg(span, q, p);
        if (std::is_unsigned_v<T>) for (auto& x : q) x = std::abs(x);
        ask_seg<T>(p, q, big, true);
    }
}
template <class T> void segrect_history(int64_t span)
{
    for (int i = 0; i < 60; ++i)
    {
        int64_t r[4] = {vs::rnd64(-span, span), vs::rnd64(-span, span), vs::rnd64(1, span), vs::rnd64(1, span)};
        int64_t d[4] = {r[0], r[1], r[0] + r[2], r[1] + r[3]}, s[4];
        if (vs::chance(1, 2)) std::swap(d[1], d[3]);
        pick_seg(2 * span, s, d);
        rectangle<T> rc(mk<T>(r[0]), mk<T>(r[1]), mk<T>(r[2]), mk<T>(r[3]));
        int64_t f[4] = {s[2], s[3], s[0], s[1]};
        list hits;
        hits.add(std::to_string(rc.intersects(seg<T>(s))));
        hits.add(std::to_string(rc.intersects(seg<T>(f))));
        vs::ev("segrect").i("big", span > 50).raw("r", J({r[0], r[1], r[2], r[3]})).raw("s", J({s[0], s[1], s[2], s[3]})).raw("hits", hits.str());
    }
}
void seg_scenario()
{
    int t = vs::rnd(0, 4);
    static const int64_t spans[] = {3, 6, 20, 50, 1000, 100000, 1000000, 23000000};
    int64_t span = spans[vs::rnd(0, 7)];
    vs::params("{\"kind\":\"seg\",\"t\":" + std::to_string(t) + "}");
    if (t == 0) seg_history<int>(span);
    else if (t == 1) seg_history<double>(span);
    else if (t == 3) seg_history<unsigned>(span);
    else if (t == 4) seg_history<short>(std::min<int64_t>(span, 20000));
    else seg_history<long long>(span);
}
void segrect_scenario()
{
    int t = vs::rnd(0, 1);
    static const int64_t spans[] = {3, 6, 20, 200, 11000000};
    int64_t span = spans[vs::rnd(0, 4)];
    vs::params("{\"kind\":\"segrect\",\"t\":" + std::to_string(t) + "}");
    if (t == 0) segrect_history<int>(span); else segrect_history<double>(span);
}
// every pair of segments on a small grid (the first one begins at the origin)
void seg_sweep()
{
    vs::params("{\"kind\":\"seg\",\"t\":9}");
    const int n = 2;
    uint64_t k = 0;
    for (int x = -n; x <= n; ++x) for (int y = -n; y <= n; ++y)
        for (int a = -n; a <= n; ++a) for (int b = -n; b <= n; ++b) for (int c = -n; c <= n; ++c) for (int d = -n; d <= n; ++d)
        {
            if (k++ % vs::part_of != vs::part_no) continue;
            if (vs::rnd() % 3) continue;
            int64_t p[4] = {0, 0, x, y}, q[4] = {a, b, c, d};
            ask_seg<int>(p, q, false, true);
        }
}
void segrect_sweep()
{
    vs::params("{\"kind\":\"segrect\",\"t\":9}");
    uint64_t k = 0;
    for (int a = -1; a <= 4; ++a) for (int b = -1; b <= 3; ++b) for (int c = -1; c <= 4; ++c) for (int d = -1; d <= 3; ++d)
    {
        if (k++ % vs::part_of != vs::part_no) continue;
        rectangle<int> rc(0, 0, 3, 2);
        int64_t s[4] = {a, b, c, d};
        vs::ev("segrect").i("big", 0).raw("r", J({0, 0, 3, 2})).raw("s", J({a, b, c, d})).raw("hits", J({rc.intersects(seg<int>(s))}));
    }
}

// ------------------------------------------------------------------------------------------ points
template <class T> void pt_history(int64_t span)
{
    for (int i = 0; i < 60; ++i)
    {
        auto v = [&] { return vs::chance(1, 5) ? 0 : vs::rnd64(lowest<T>(span), span); };
        int64_t a[2] = {v(), v()}, b[2] = {v(), v()};
        if (vs::chance(1, 6)) { b[0] = a[0]; b[1] = a[1]; }
        if (vs::chance(1, 6)) b[vs::rnd(0, 1)] = a[0];
        const point<T> p(mk<T>(a[0]), mk<T>(a[1])), q(mk<T>(b[0]), mk<T>(b[1]));
        const T dx = q.x(), dy = q.y();
        list plus, minus, times, div;
        { plus.add(J(p + q)); point<T> x = p; x += q; plus.add(J(x)); point<T> y = p; y.add_delta(dx, dy); plus.add(J(y)); }
        if (!std::is_unsigned_v<T> || (a[0] >= b[0] && a[1] >= b[1])) { minus.add(J(p - q)); point<T> x = p; x -= q; minus.add(J(x)); point<T> y = p; y.sub_delta(dx, dy); minus.add(J(y)); }
        // multiplication and division by the scalar k/kd; exact in the units for floating point types
        int k, kd;
        if (std::is_floating_point_v<T>) { k = 4 * (vs::chance(1, 2) ? 1 : -1); kd = vs::chance(1, 2) ? 1 : 4; if (vs::chance(1, 2)) kd = 2; }
        else { k = vs::rnd(1, 9) * (vs::chance(1, 2) ? 1 : -1); kd = vs::chance(1, 2) ? 1 : vs::chance(1, 2) ? 2 : 4; }
        if (std::is_unsigned_v<T>) k = std::abs(k);
        const bool large = std::is_same_v<T, long> || scale<T> > 1;
        int64_t e[2] = {a[0], a[1]};
        if (large) kd = 1;
        else if (!std::is_floating_point_v<T> && vs::chance(1, 2)) { k = vs::rnd(1, 1000) * (vs::chance(1, 2) || std::is_unsigned_v<T> ? 1 : -1); kd = 1; }
        // products of whole numbers, next to which the quotient jumps
        if (large || (!std::is_floating_point_v<T> && vs::chance(1, 2)))
            for (auto& x : e) { x = vs::rnd64(-span / std::abs(k), span / std::abs(k)); if (x == 0) x = vs::rnd(-1, 1); x *= k; if (!large && vs::chance(1, 4)) x += vs::rnd(-1, 1); }
        if (std::is_unsigned_v<T>) for (auto& x : e) x = std::abs(x);
        if (std::is_floating_point_v<T>) { e[0] = a[0] - a[0] % 4; e[1] = a[1] - a[1] % 4; }
        const point<T> r(mk<T>(e[0]), mk<T>(e[1]));
        auto scal = [&](auto s) {
            { times.add(J(r * s)); point<T> x = r; x *= s; times.add(J(x)); }
            { div.add(J(r / s)); point<T> x = r; x /= s; div.add(J(x)); }
        };
        if (!large) scal((double)k / kd);
        if (kd == 1 && !std::is_floating_point_v<T>) scal(k);
        auto dst = [&](T d) -> int64_t {
            if constexpr (std::is_floating_point_v<T>) return std::llround((double)d * unit<T>::S * 1000);
            else if (scale<T> > 1) return d < 0 ? -1 : (d + 1) / scale<T>; // (at most one below a whole number of units if that is the distance)
            else return (int64_t)d > 2147483646 || (int64_t)d < 0 ? -1 : (int64_t)d;
        };
        // the squares of the largest numbers are not representable
        auto distance = [&](const point<T>& x, const point<T>& y) -> int64_t { return std::is_same_v<T, long> ? -1 : dst(x.distance(y)); };
        auto origin = [&](const point<T>& x) -> int64_t { return std::is_same_v<T, long> ? -1 : dst(x.distance_from_origin()); };
        point<T> st;
        st.set_x(q.x());
        st.set_y(q.y());
        const size<T> s1(p.x(), p.y()), s2(q.x(), q.y());
        size<T> s3;
        s3.set_width(q.x());
        s3.set_height(q.y());
        // products and quotients are of r
        vs::ev("pt").raw("p", J(p)).raw("q", J(q)).i("eq", p == q).i("ne", p != q).i("org", p.is_origin()).raw("plus", plus.str()).raw("minus", minus.str())
            .raw("times", "[]").raw("div", "[]").i("k", k).i("kd", kd).i("dist", distance(p, q)).i("dist2", distance(q, p)).i("dorg", origin(p))
            .raw("sets", J(st)).i("snull", s1.is_null()).i("seq", s1 == s2).i("sne", s1 != s2).raw("ssets", J(s3));
        vs::ev("pt").raw("p", J(r)).raw("q", J(r)).i("eq", r == r).i("ne", r != r).i("org", r.is_origin()).raw("plus", "[]").raw("minus", "[]")
            .raw("times", times.str()).raw("div", div.str()).i("k", k).i("kd", kd).i("dist", distance(r, r)).i("dist2", distance(r, r)).i("dorg", origin(r))
            .raw("sets", J(r)).i("snull", r.is_origin()).i("seq", 1).i("sne", 0).raw("ssets", J(r));
        int64_t m[4] = {v(), v(), v(), v()};
        if (vs::chance(1, 3)) m[vs::rnd(0, 3)] = m[vs::rnd(0, 3)];
        auto M = [&](int j) { return mk<T>(m[j]); };
        vs::ev("minmax").raw("v", J({m[0], m[1]})).i("mn", lg(tc::sdk::min(M(0), M(1)))).i("mx", lg(tc::sdk::max(M(0), M(1))));
        vs::ev("minmax").raw("v", J({m[0], m[1], m[2]})).i("mn", lg(tc::sdk::min(M(0), M(1), M(2)))).i("mx", lg(tc::sdk::max(M(0), M(1), M(2))));
        vs::ev("minmax").raw("v", J({m[0], m[1], m[2], m[3]})).i("mn", lg(tc::sdk::min(M(0), M(1), M(2), M(3)))).i("mx", lg(tc::sdk::max(M(0), M(1), M(2), M(3))));
    }
}
void pt_scenario()
{
    int t = vs::rnd(0, 6);
    static const int64_t spans[] = {3, 20, 200};
    int64_t span = spans[vs::rnd(0, 2)];
    vs::params("{\"kind\":\"pt\",\"exact\":" + std::to_string(t != 1) + ",\"nodist\":" + std::to_string(t == 3) + "}");
    if (t == 0) pt_history<int>(vs::chance(1, 3) ? 10000 : span);
    else if (t == 1) pt_history<double>(span);
    else if (t == 2) pt_history<long long>(span);
    else if (t == 4) pt_history<unsigned>(vs::chance(1, 3) ? 20000 : span);
    else if (t == 5) { scale<int> = vs::chance(1, 2) ? 1000003 : 5003; pt_history<int>(span); }
    else if (t == 6) { scale<long long> = vs::chance(1, 2) ? 10000019 : 10000000019; pt_history<long long>(span); }
    else pt_history<long>(vs::chance(1, 3) ? span : 200000000);
}
const vs::scenario list_[] = {{"range", range_scenario}, {"range_sweep", range_sweep}, {"rect", rect_scenario}, {"rect_sweep", rect_sweep}, {"seg", seg_scenario},
                              {"segrect", segrect_scenario}, {"seg_sweep", seg_sweep}, {"segrect_sweep", segrect_sweep}, {"pt", pt_scenario}};
}
int main(int argc, char** argv) { return vs::driver_main(argc, argv, list_, sizeof list_ / sizeof *list_); }
