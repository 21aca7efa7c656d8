// service_locator driver
#include "vsched.hpp"
#include <teiacare/sdk/service_locator.hpp>

#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace
{
int made = 0;
std::set<int> live;
// every service object carries a number and checks itself
struct body
{
    int num;
    std::string text;
    body() : num(++made), text("the-state-of-service-number-" + std::to_string(num)) { live.insert(num); }
    body(const body&) = delete;
    ~body() { live.erase(num); num = -5; }
    bool ok() const { return num > 0 && text == "the-state-of-service-number-" + std::to_string(num); }
};
struct ia { virtual ~ia() = default; virtual int value() const = 0; virtual int number() const = 0; };
struct ib { int pad_b = 11; virtual ~ib() = default; virtual int value() const = 0; virtual int number() const = 0; };
struct ic { virtual ~ic() = default; virtual int value() const = 0; virtual int number() const = 0; };
struct id_ { virtual ~id_() = default; virtual int value() const = 0; virtual int number() const = 0; };
struct other_base { int x[5] = {1, 2, 3, 4, 5}; virtual ~other_base() = default; virtual int foo() const { return 3; } };
struct plain_data { double d[3] = {1, 2, 3}; };

#define VALUE(k) \
    int a; std::string s; body b; \
    int value() const override { return b.ok() && s == "argument-text-of-the-service-" + std::to_string(a) ? (k) * 100 + a : -9; } \
    int number() const override { return b.num; }

struct single_a : ia { explicit single_a(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(1) };
struct second_a : other_base, ia { second_a(int a_, const std::string& s_) : a(a_), s(s_) {} VALUE(2) };
struct single_b : ib { single_b(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(3) };
struct both_ab : ia, ib { both_ab(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(4) };
struct virt_c : other_base, virtual ic { virt_c(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(5) };
struct data_c : plain_data, ic { data_c(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(6) };
struct mid_d : other_base, id_ {};
struct deep_d : plain_data, mid_d { deep_d(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(7) };
struct plain_d : id_ { plain_d(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(8) };
// concrete types that are registered as themselves
struct widget : ia { widget(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(9) };
struct gadget : other_base, ib { gadget(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(10) };

// many service types, which differ in nothing but a number
template <int N> struct iface { virtual ~iface() = default; virtual int value() const = 0; virtual int number() const = 0; };
template <int N> struct impl_of : iface<N> { impl_of(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(20 + N) };
template <int N> struct impl2_of : other_base, iface<N> { impl2_of(int a_, std::string s_) : a(a_), s(std::move(s_)) {} VALUE(200 + N) };
// services whose construction fails
struct failing_a : ia { body early; failing_a(int, std::string) { throw 7; } int value() const override { return 0; } int number() const override { return early.num; } };
struct failing_c : other_base, ic { failing_c(int, std::string) { throw 7; } int value() const override { return 0; } int number() const override { return 0; } };

auto& loc() { return tc::sdk::service_locator::instance(); }
std::string text(int a) { return "argument-text-of-the-service-" + std::to_string(a); }
std::string lives()
{
    std::string r = "[";
    for (int x : live) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "]";
}

// types: 0 ia, 1 ib, 2 ic, 3 id_, 4 widget, 5 gadget
struct ref
{
    std::shared_ptr<ia> a; std::shared_ptr<ib> b; std::shared_ptr<ic> c; std::shared_ptr<id_> d;
    std::shared_ptr<widget> w; std::shared_ptr<gadget> g;
    int value() const { return a ? a->value() : b ? b->value() : c ? c->value() : d ? d->value() : w ? w->value() : g ? g->value() : 0; }
    int number() const { return a ? a->number() : b ? b->number() : c ? c->number() : d ? d->number() : w ? w->number() : g ? g->number() : 0; }
};
std::map<int, ref> refs;
int next_h = 0;

int impl_for(int ty, int pick)
{
    switch (ty)
    {
    case 0: { static const int v[] = {1, 2, 4, 9}; return v[pick % 4]; }
    case 1: { static const int v[] = {3, 4, 10}; return v[pick % 3]; }
    case 2: { static const int v[] = {5, 6}; return v[pick % 2]; }
    case 3: { static const int v[] = {7, 8}; return v[pick % 2]; }
    default: return ty == 4 ? 9 : 10;
    }
}
bool reg_service(int ty, int impl, int a)
{
    std::string s = text(a);
    switch (ty * 100 + impl)
    {
    case 1: return loc().register_service<ia, single_a>(a, s);
    case 2: return loc().register_service<ia, second_a>(a, s);
    case 4: return loc().register_service<ia, both_ab>(a, s);
    case 9: return loc().register_service<ia, widget>(a, s);
    case 103: return loc().register_service<ib, single_b>(a, s);
    case 104: return loc().register_service<ib, both_ab>(a, s);
    case 110: return loc().register_service<ib, gadget>(a, s);
    case 205: return loc().register_service<ic, virt_c>(a, s);
    case 206: return loc().register_service<ic, data_c>(a, s);
    case 307: return loc().register_service<id_, deep_d>(a, s);
    default: return loc().register_service<id_, plain_d>(a, s);
    }
}
ref make(int ty, int impl, int a)
{
    ref r;
    std::string s = text(a);
    switch (ty * 100 + impl)
    {
    case 1: r.a = std::make_shared<single_a>(a, s); break;
    case 2: r.a = std::make_shared<second_a>(a, s); break;
    case 4: { auto p = std::make_shared<both_ab>(a, s); r.a = p; r.b = p; break; }
    case 9: r.a = std::make_shared<widget>(a, s); break;
    case 103: r.b = std::make_shared<single_b>(a, s); break;
    case 104: { auto p = std::make_shared<both_ab>(a, s); r.a = p; r.b = p; break; }
    case 110: r.b = std::make_shared<gadget>(a, s); break;
    case 205: r.c = std::make_shared<virt_c>(a, s); break;
    case 206: r.c = std::make_shared<data_c>(a, s); break;
    case 307: r.d = std::make_shared<deep_d>(a, s); break;
    case 308: r.d = std::make_shared<plain_d>(a, s); break;
    case 409: r.w = std::make_shared<widget>(a, s); break;
    default: r.g = std::make_shared<gadget>(a, s); break;
    }
    return r;
}
bool reg_instance(int ty, const ref& r)
{
    switch (ty)
    {
    case 0: return loc().register_instance<ia>(r.a);
    case 1: return loc().register_instance<ib>(r.b);
    case 2: return loc().register_instance<ic>(r.c);
    case 3: return loc().register_instance<id_>(r.d);
    case 4: return loc().register_instance<widget>(r.w);
    default: return loc().register_instance<gadget>(r.g);
    }
}
bool unregister(int ty)
{
    switch (ty)
    {
    case 0: return loc().unregister<ia>();
    case 1: return loc().unregister<ib>();
    case 2: return loc().unregister<ic>();
    case 3: return loc().unregister<id_>();
    case 4: return loc().unregister<widget>();
    default: return loc().unregister<gadget>();
    }
}
bool is_registered(int ty)
{
    switch (ty)
    {
    case 0: return loc().is_registered<ia>();
    case 1: return loc().is_registered<ib>();
    case 2: return loc().is_registered<ic>();
    case 3: return loc().is_registered<id_>();
    case 4: return loc().is_registered<widget>();
    default: return loc().is_registered<gadget>();
    }
}
ref lookup(int ty)
{
    ref r;
    switch (ty)
    {
    case 0: r.a = loc().get<ia>(); break;
    case 1: r.b = loc().get<ib>(); break;
    case 2: r.c = loc().get<ic>(); break;
    case 3: r.d = loc().get<id_>(); break;
    case 4: r.w = loc().get<widget>(); break;
    default: r.g = loc().get<gadget>(); break;
    }
    return r;
}

void step(int r, int ty, int pick, int a, int which)
{
    auto held = [&]() -> int {
        if (refs.empty()) return 0;
        auto it = refs.begin();
        std::advance(it, which % (int)refs.size());
        return it->first;
    };
    if (r == 0 && ty < 4)
    {
        int impl = impl_for(ty, pick), o = made + 1;
        bool ok = reg_service(ty, impl, a);
        vs::ev("op").s("op", "regs").i("ty", ty).i("v", impl * 100 + a).i("r", ok).i("o", o).i("m", made).raw("live", lives());
    }
    else if (r == 0 || r == 1)
    {
        // create an object and register it as an instance
        int impl = impl_for(ty, pick), h = ++next_h, o = made + 1;
        refs[h] = make(ty, impl, a);
        vs::ev("op").s("op", "create").i("h", h).i("v", impl * 100 + a).i("o", o).raw("live", lives());
        bool ok = reg_instance(ty, refs[h]);
        vs::ev("op").s("op", "regi").i("ty", ty).i("h", h).i("r", ok).raw("live", lives());
    }
    else if (r == 2)
    {
        bool ok = unregister(ty);
        vs::ev("op").s("op", "unreg").i("ty", ty).i("r", ok).raw("live", lives());
    }
    else if (r == 3)
    {
        bool ok = is_registered(ty);
        vs::ev("op").s("op", "isreg").i("ty", ty).i("r", ok).raw("live", lives());
    }
    else if (r == 4)
    {
        int h = which % 3 ? 0 : ++next_h;
        ref x = lookup(ty);
        int n = x.number(), v = x.value();
        if (h && n) refs[h] = x;
        x = {};
        vs::ev("op").s("op", "get").i("ty", ty).i("h", h).i("o", n).i("v", v).raw("live", lives());
    }
    else if (r == 7)
    {
        // register an object that is in use, under any of its types
        int h = held();
        if (!h) return;
        const ref& x = refs[h];
        int own[6], n = 0;
        if (x.a) own[n++] = 0;
        if (x.b) own[n++] = 1;
        if (x.c) own[n++] = 2;
        if (x.d) own[n++] = 3;
        if (x.w) own[n++] = 4;
        if (x.g) own[n++] = 5;
        if (!n) return;
        ty = own[pick % n];
        bool ok = reg_instance(ty, x);
        vs::ev("op").s("op", "regi").i("ty", ty).i("h", h).i("r", ok).raw("live", lives());
    }
    else if (r == 8)
    {
        // a service that cannot be constructed: an exception (or a refusal) and nothing registered
        bool c = pick % 2, threw = false, ok = false;
        try { ok = c ? loc().register_service<ic, failing_c>(a, text(a)) : loc().register_service<ia, failing_a>(a, text(a)); }
        catch (int x) { threw = x == 7; }
        vs::ev("op").s("op", "regf").i("ty", c ? 2 : 0).i("threw", threw).i("r", ok).i("m", made).raw("live", lives());
    }
    else if (r == 5)
    {
        int h = held();
        if (!h) return;
        refs.erase(h);
        vs::ev("op").s("op", "rel").i("h", h).raw("live", lives());
    }
    else
    {
        int h = held();
        if (!h) return;
        vs::ev("op").s("op", "use").i("h", h).i("v", refs[h].value()).raw("live", lives());
    }
}
void program(int tys, int n)
{
    vs::params("{}");
    static const int ops[] = {0, 0, 0, 1, 2, 2, 3, 4, 4, 4, 5, 5, 6, 7, 7, 8};
    for (int i = 0; i < n; ++i)
        step(ops[vs::rnd(0, 15)], vs::rnd(0, tys), vs::rnd(0, 11), vs::rnd(0, 99), vs::rnd(0, 50));
    for (int t = 0; t < 6; ++t) { step(3, t, 0, 0, 0); step(4, t, 0, 0, 0); step(2, t, 0, 0, 0); step(3, t, 0, 0, 0); }
}

// a service of each of the many types
struct entry
{
    bool (*reg)(int, int);
    bool (*inst)(int);
    bool (*unreg)();
    bool (*isreg)();
    std::pair<int, int> (*get)();
};
template <int N> entry make_entry()
{
    return {
        [](int k, int a) { return k ? loc().register_service<iface<N>, impl2_of<N>>(a, text(a)) : loc().register_service<iface<N>, impl_of<N>>(a, text(a)); },
        [](int a) { return loc().register_instance<iface<N>>(std::make_shared<impl2_of<N>>(a, text(a))); },
        [] { return loc().unregister<iface<N>>(); },
        [] { return loc().is_registered<iface<N>>(); },
        [] { auto p = loc().get<iface<N>>(); return p ? std::pair{p->number(), p->value()} : std::pair{0, 0}; }};
}
template <int... N> std::vector<entry> make_entries(std::integer_sequence<int, N...>) { return {make_entry<N>()...}; }
void many_types()
{
    static const auto types = make_entries(std::make_integer_sequence<int, 60>());
    vs::params("{}");
    int tys = vs::rnd(20, 60), n = vs::rnd(50, 400), phase = 0;
    for (int i = 0; i < n; ++i)
    {
        if (i % 40 == 0) phase = vs::rnd(0, 2); // filling, mixed, emptying
        int t = vs::rnd(0, tys - 1), a = vs::rnd(0, 99), op = vs::rnd(0, 9);
        const entry& x = types[(size_t)t];
        if (op < (phase == 0 ? 6 : phase == 1 ? 4 : 1))
        {
            int k = vs::rnd(0, 1), o = made + 1;
            // (an instance whose only reference is handed over is as good as a service made in place)
            bool ok = vs::chance(1, 3) ? (k = 1, x.inst(a)) : x.reg(k, a);
            vs::ev("op").s("op", "regs").i("ty", 6 + t).i("v", ((k ? 200 : 20) + t) * 100 + a).i("r", ok).i("o", o).i("m", made).raw("live", lives());
        }
        else if (op < (phase == 0 ? 7 : phase == 1 ? 6 : 7))
        {
            bool ok = x.unreg();
            vs::ev("op").s("op", "unreg").i("ty", 6 + t).i("r", ok).raw("live", lives());
        }
        else if (op == 8)
        {
            bool ok = x.isreg();
            vs::ev("op").s("op", "isreg").i("ty", 6 + t).i("r", ok).raw("live", lives());
        }
        else
        {
            auto [o, v] = x.get();
            vs::ev("op").s("op", "get").i("ty", 6 + t).i("h", 0).i("o", o).i("v", v).raw("live", lives());
        }
    }
    for (int t = 0; t < tys; ++t)
    {
        auto [o, v] = types[(size_t)t].get();
        vs::ev("op").s("op", "get").i("ty", 6 + t).i("h", 0).i("o", o).i("v", v).raw("live", lives());
    }
}
void random_ops() { program(5, vs::rnd(10, 60)); }
void few_types() { program(vs::rnd(0, 2), vs::rnd(5, 40)); }
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"random", random_ops}, {"few", few_types}, {"many", many_types}};
    return vs::driver_main(argc, argv, list, 3);
}
