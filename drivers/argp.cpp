// argument_parser driver
#include "seq.hpp"
#include <teiacare/sdk/argparse/argument_parser.hpp>

#include <cmath>
#include <deque>
#include <filesystem>
#include <iostream>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace
{
using tc::sdk::argument_parser;
using tc::sdk::optional_argument;
using tc::sdk::parse_result;

int64_t scaled(double v)
{
    if (std::isnan(v)) return 2000000003;
    if (std::isinf(v)) return v > 0 ? 2000000001 : 2000000002;
    double s = v * 10000;
    if (std::fabs(s) >= 1e9 - 0.5) return s > 0 ? 2000000009 : 2000000008;
    // the units the specification counts in (truncation towards zero, as far as the value is exact)
    return (int64_t)(s >= 0 ? std::floor(s + 1e-3) : std::ceil(s - 1e-3));
}
std::string num(int64_t v) { return std::to_string(v); }
std::string show(int v) { return num(v); }
std::string show(float v)
{
    if (std::isnan(v) || std::isinf(v)) return num(scaled(v));
    return num(std::fabs((double)v * 10000) >= 1e9 - 0.5 ? (v > 0 ? 2000000009 : 2000000008) : (int64_t)std::llround((double)v * 10000));
}
std::string show(double v) { return num(scaled(v)); }
std::string show(const std::string& v) { return vs::codes(v); }
std::string show(const std::filesystem::path& v) { return vs::codes(v.string()); }
std::string show(const char* v) { return vs::codes(v ? std::string(v) : std::string()); }
std::string show(long long v) { return vs::codes(std::to_string(v)); }
std::string show(unsigned v) { return vs::codes(std::to_string(v)); }
std::string show(short v) { return vs::codes(std::to_string(v)); }
std::string show(bool v) { return num(v); }
std::string show(char v) { return num((unsigned char)v); }
template <typename T> std::string show(const std::vector<T>& v)
{
    std::string r = "[";
    for (const auto& x : v) r += (r.size() > 1 ? "," : "") + show(x);
    return r + "]";
}

struct slot // one bound variable
{
    int i{}; float f{}; double d{}; std::string s; std::filesystem::path p; const char* c{}; long long ll{}; bool b{}; char ch{};
    std::vector<int> vi; std::vector<std::string> vs_; std::vector<double> vd;
    unsigned u{}; short h{}; std::vector<unsigned> vu;
};
const char* const type_names[] = {"int", "string", "double", "float", "vint", "vstring", "ll", "bool", "path", "vdouble", "char", "cstr", "u32", "i16", "vu32"};
constexpr int n_types = 15;
template <typename F> auto with(int t, slot& s, F&& f)
{
    switch (t)
    {
    case 0: return f(s.i);
    case 1: return f(s.s);
    case 2: return f(s.d);
    case 3: return f(s.f);
    case 4: return f(s.vi);
    case 5: return f(s.vs_);
    case 6: return f(s.ll);
    case 7: return f(s.b);
    case 8: return f(s.p);
    case 9: return f(s.vd);
    case 10: return f(s.ch);
    case 12: return f(s.u);
    case 13: return f(s.h);
    case 14: return f(s.vu);
    default: return f(s.c);
    }
}
std::string value_of(int t, slot& s) { return with(t, s, [](auto& v) { return show(v); }); }

struct pos_decl { std::string n; int t; std::string about = "description"; };
struct opt_decl { std::string n; char s; int t; slot def; bool req; int env; std::string val; std::string about = "description"; };
struct flag_decl { std::string n; char s; int env; bool def; std::string about = "description"; };
const char* const env_names[] = {"", "VERIF_ARGP_A", "VERIF_ARGP_B", "VERIF_ARGP_C", "VERIF_ARGP_D"};
struct decl
{
    std::string prog = "prog", ver = "v1.2.3", about = "a program";
    bool output = false; // what is printed is recorded
    std::vector<pos_decl> pos; std::vector<opt_decl> opt; std::vector<flag_decl> flag;
    std::string json()
    {
        std::string r = "{\"pos\":[";
        for (auto& p : pos)
        {
            slot z;
            if (r.back() != '[') r += ',';
            r += "{\"n\":" + vs::codes(p.n) + ",\"t\":\"" + type_names[p.t] + "\",\"d\":" + value_of(p.t, z) + about_of(p.about) + "}";
        }
        r += "],\"opt\":[";
        for (auto& o : opt)
        {
            if (r.back() != '[') r += ',';
            r += "{\"n\":" + vs::codes(o.n) + ",\"s\":" + (o.s ? vs::codes(std::string(1, o.s)) : "[]") + ",\"t\":\"" + type_names[o.t] + "\",\"d\":" + value_of(o.t, o.def) +
                 ",\"req\":" + num(o.req) + ",\"env\":" + num(o.env) + ",\"val\":\"" + o.val + "\"" + about_of(o.about) + "}";
        }
        r += "],\"flag\":[";
        for (auto& f : flag)
        {
            if (r.back() != '[') r += ',';
            r += "{\"n\":" + vs::codes(f.n) + ",\"s\":" + (f.s ? vs::codes(std::string(1, f.s)) : "[]") + ",\"env\":" + num(f.env) + ",\"d\":" + num(f.def) + about_of(f.about) + "}";
        }
        r += "]";
        if (output)
        {
            r += ",\"prog\":" + vs::codes(prog) + ",\"ver\":" + vs::codes(ver) + about_of(about) + ",\"envs\":[";
            for (int i = 1; i <= 4; ++i) r += (i > 1 ? "," : "") + vs::codes(env_names[i]);
            r += "]";
        }
        return r + "}";
    }
    std::string about_of(const std::string& t) const { return output ? ",\"about\":" + vs::codes(t) : std::string(); }
};
using envs = std::vector<std::pair<bool, std::string>>; // 4 variables

template <typename T> bool check_value(const std::string& val, const T& v)
{
    if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>)
    {
        if (val == "positive") return v > 0;
        if (val == "throws") { if (!(v > 0)) throw std::invalid_argument("not positive"); return true; }
        if (val == "throws_int") { if (!(v > 0)) throw 42; return true; }
    }
    if constexpr (std::is_same_v<T, std::string>)
    {
        if (val == "nonempty") return !v.empty();
        if (val == "short") return v.size() <= 2;
    }
    if constexpr (tc::sdk::is_vector<T>::value)
    {
        if (val == "nonempty") return !v.empty();
        if (val == "short") return v.size() <= 2;
    }
    return true;
}

// what is written to the standard streams, whatever way
struct capture
{
    bool on;
    int save[3]{}, file[3]{};
    std::string out, err;
    explicit capture(bool on_) : on(on_)
    {
        if (!on) return;
        flush();
        for (int fd = 1; fd <= 2; ++fd)
        {
            save[fd] = dup(fd);
            file[fd] = memfd_create("cap", 0);
            if (save[fd] < 0 || file[fd] < 0 || dup2(file[fd], fd) < 0) abort();
        }
    }
    static void flush() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr); }
    void end()
    {
        if (!on) return;
        flush();
        for (int fd = 1; fd <= 2; ++fd)
        {
            std::string& s = fd == 1 ? out : err;
            char b[4096];
            lseek(file[fd], 0, SEEK_SET);
            for (ssize_t k; (k = read(file[fd], b, sizeof b)) > 0;) s.append(b, (size_t)k);
            dup2(save[fd], fd);
            close(save[fd]);
            close(file[fd]);
        }
        on = false;
    }
};

void run(decl& d, const envs& env, const std::vector<std::string>& toks)
{
    for (int i = 0; i < 4; ++i)
        if (env[i].first) setenv(env_names[i + 1], env[i].second.c_str(), 1);
        else unsetenv(env_names[i + 1]);
    std::string printed, r = "error", pv = "[", ov = "[", fv = "[";
    {
        std::deque<slot> ps(d.pos.size()), os(d.opt.size());
        std::deque<bool> fs;
        for (auto& f : d.flag) fs.push_back(f.def);
        argument_parser parser(d.prog, d.ver, d.about);
        for (size_t i = 0; i < d.pos.size(); ++i)
            with(d.pos[i].t, ps[i], [&](auto& v) { parser.add_positional(d.pos[i].n, v, d.pos[i].about); return 0; });
        for (size_t i = 0; i < d.opt.size(); ++i)
        {
            auto& o = d.opt[i];
            std::string en = env_names[o.env];
            with(o.t, os[i], [&](auto& v) {
                using T = std::remove_reference_t<decltype(v)>;
                T def{};
                with(o.t, o.def, [&](auto& x) { if constexpr (std::is_same_v<T, std::remove_reference_t<decltype(x)>>) def = x; return 0; });
                if (o.val != "none")
                {
                    auto p = o.s ? std::make_unique<optional_argument<T>>(o.n, o.s, v, def, o.about, o.req, en) : std::make_unique<optional_argument<T>>(o.n, v, def, o.about, o.req, en);
                    p->set_validator([val = o.val](const T& x) { return check_value<T>(val, x); });
                    parser.add_option(std::move(p));
                }
                else if (o.s) parser.add_option(o.n, o.s, v, def, o.about, o.req, en);
                else parser.add_option(o.n, v, def, o.about, o.req, en);
                return 0;
            });
        }
        for (size_t i = 0; i < d.flag.size(); ++i)
        {
            auto& f = d.flag[i];
            if (f.s) parser.add_flag(f.n, f.s, fs[i], f.about, env_names[f.env]);
            else parser.add_flag(f.n, fs[i], f.about, env_names[f.env]);
        }
        {
            std::vector<std::vector<char>> store;
            store.emplace_back(std::vector<char>{'p', 0});
            for (auto& t : toks) { store.emplace_back(t.begin(), t.end()); store.back().push_back(0); }
            std::vector<char*> argv;
            for (auto& s : store) argv.push_back(s.data());
            argv.push_back(nullptr);
            capture cap(d.output);
            try
            {
                auto res = parser.parse((int)store.size(), argv.data());
                r = res == parse_result::success ? "success" : res == parse_result::quit ? "quit" : res == parse_result::error ? "error" : "other";
            }
            catch (...) { r = "threw"; }
            cap.end();
            if (d.output) printed = ",\"out\":" + vs::codes(cap.out) + ",\"err\":" + vs::codes(cap.err);
        }
        for (size_t i = 0; i < d.pos.size(); ++i) pv += (i ? "," : "") + value_of(d.pos[i].t, ps[i]);
        for (size_t i = 0; i < d.opt.size(); ++i) ov += (i ? "," : "") + value_of(d.opt[i].t, os[i]);
        for (size_t i = 0; i < d.flag.size(); ++i) fv += (i ? "," : "") + num(fs[i]);
    }
    std::string ej = "[", tj = "[";
    for (auto& e : env) ej += std::string(ej.size() > 1 ? "," : "") + (e.first ? "[" + vs::codes(e.second) + "]" : "[]");
    for (auto& t : toks) tj += (tj.size() > 1 ? "," : "") + vs::codes(t);
    vs::ev("parse").raw("env", ej + "]").raw("toks", tj + "]").s("r", r).raw("pos", pv + "]").raw("opt", ov + "]").raw("flag", fv + "]" + printed);
}

std::string pick(const std::vector<std::string>& v) { return v[(size_t)vs::rnd(0, (int)v.size() - 1)]; }
const std::vector<std::string> ints = {"0", "1", "7", "-3", "42", "+5", "007", " 9", "2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999999999999", "12abc", "abc", "", "-", "+", "--5", "3.7", "1e3", "0x1f", "\t-8", " ", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "5 ", "4294967295", "4294967296", "32767", "32768", "-32768", "-32769", "65535", "-1", "-4294967295"};
const std::vector<std::string> reals = {"0", "1.5", "-2.25", ".5", "3.", "+0.125", "1e2", "2.5e1", "25e-2", "-1E1", "1e999", "-1e999", "1e-999", "1.5x", "x", "", ".", "-.", "e5", "1e", "1e+", "inf", "-inf", "NaN", "nano", "  4.75", "12,5", "1e60", "00.5", "1.5 "};
const std::vector<std::string> words = {"a", "b", "", "hello world", "x=y", "=", "a,b", ",", "true", "1", "0", "/tmp/x", "\xc3\xa9", "h", "help", "1,2", "long-ish text that exceeds the small string buffer of a std::string", "..", "%s%n"};
const std::vector<std::string> lists = {"1,2,3", "1", "", ",", "1,,2", "1,2,", ",1", "1,a", "a,b,c", "1.5,2", " 1, 2", "-1,-2", "1,2147483648", "10,20,30,40,50,60,70", "1,4294967295", "1,4294967296", "3,-1", ",,", "a,,b", "x,"};
std::string text_for(int t)
{
    if (vs::chance(1, 8)) return pick(words);
    switch (t)
    {
    case 0: return pick(ints);
    case 6: case 7: case 12: case 13: return pick(ints);
    case 2: case 3: return pick(reals);
    case 4: case 5: case 14: return pick(lists);
    case 9: return vs::chance(1, 2) ? pick(lists) : pick(reals) + "," + pick(reals);
    default: return pick(words);
    }
}
slot some_default(int t)
{
    slot s;
    (void)t;
    s.i = vs::rnd(-5, 5); s.f = (float)vs::rnd(-8, 8) / 4; s.d = vs::rnd(-8, 8) / 4.0; s.s = pick(words); s.p = pick(words); s.ll = vs::rnd(-5, 5); s.b = vs::chance(1, 2);
    s.ch = (char)vs::rnd(97, 110); s.c = vs::chance(1, 2) ? "default text" : "";
    for (int i = vs::rnd(0, 3); i > 0; --i) { s.vi.push_back(vs::rnd(-5, 5)); s.vs_.push_back(pick(words)); s.vd.push_back(vs::rnd(-8, 8) / 4.0); s.vu.push_back((unsigned)vs::rnd(0, 9)); }
    s.u = (unsigned)vs::rnd(0, 9); s.h = (short)vs::rnd(-5, 5);
    return s;
}
const std::vector<std::string> longs = {"alpha", "beta", "alphabet", "b", "a", "with-dash", "x", "gamma", "helpme", "vers", "no=eq", "5", "delta", "al", "verbose", "hh"};
decl make_decl(bool full)
{
    decl d;
    int np = vs::rnd(0, 3), no = vs::rnd(0, 4), nf = vs::rnd(0, 3);
    for (int i = 0; i < np; ++i) d.pos.push_back({pick(longs), vs::rnd(0, n_types - 1)});
    for (int i = 0; i < no; ++i)
    {
        int t = vs::rnd(0, n_types - 1);
        std::string val = "none";
        if (full && vs::chance(1, 2))
        {
            if (t == 0 || t == 2 || t == 3) val = pick({"positive", "throws", "throws_int"});
            else if (t == 1 || t == 4 || t == 5 || t == 9 || t == 14) val = pick({"nonempty", "short"});
        }
        d.opt.push_back({pick(longs), vs::chance(2, 3) ? "abchvxg5"[vs::rnd(0, 7)] : (char)0, t, some_default(t), vs::chance(1, 3), full ? vs::rnd(0, 4) : 0, val});
    }
    for (int i = 0; i < nf; ++i)
        d.flag.push_back({pick(longs), vs::chance(2, 3) ? "defabhvy"[vs::rnd(0, 7)] : (char)0, full ? vs::rnd(0, 4) : 0, vs::chance(1, 6)});
    return d;
}
std::string dashes(const std::string& n)
{
    int r = vs::rnd(0, 19);
    return (r < 11 ? "--" : r < 17 ? "-" : r < 18 ? "---" : "") + n;
}
std::vector<std::string> line(decl& d)
{
    std::vector<std::string> toks;
    // mostly well-formed: every positional and required option, then some more, then perhaps a mutation
    std::vector<std::vector<std::string>> parts;
    bool tidy = vs::chance(2, 3);
    for (auto& o : d.opt)
        for (int k = (o.req && tidy) ? vs::rnd(1, 2) : vs::rnd(0, 2); k > 0; --k)
        {
            std::string name = o.s && vs::chance(1, 2) ? std::string(1, o.s) : o.n, v = text_for(o.t);
            if (tidy && o.t != 1 && vs::chance(3, 4)) v = o.t == 2 || o.t == 3 || o.t == 9 ? "2.5" : o.t == 10 ? "z" : o.t == 7 ? "1" : std::to_string(vs::rnd(1, 9));
            if (vs::chance(1, 2)) parts.push_back({dashes(name) + "=" + v});
            else if (vs::chance(1, 5)) parts.push_back({dashes(name) + "=", v});
            else parts.push_back({dashes(name), v});
        }
    for (auto& f : d.flag)
        if (vs::chance(1, 2)) parts.push_back({dashes(f.s && vs::chance(1, 2) ? std::string(1, f.s) : f.n) + (vs::chance(1, 5) ? "=" + pick(words) : "")});
    for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[(size_t)vs::rnd(0, (int)i - 1)]);
    size_t at = 0;
    for (auto& p : d.pos)
    {
        std::string v = tidy && vs::chance(3, 4) ? (p.t == 10 ? "q" : p.t == 7 ? "1" : std::to_string(vs::rnd(1, 9))) : text_for(p.t);
        at = (size_t)vs::rnd((int)at, (int)parts.size());
        parts.insert(parts.begin() + (long)at, {v});
        ++at;
    }
    for (auto& p : parts) for (auto& t : p) toks.push_back(t);
    if (vs::chance(1, 4) && !toks.empty()) // mutate
    {
        int r = vs::rnd(0, 3);
        size_t i = (size_t)vs::rnd(0, (int)toks.size() - 1);
        if (r == 0) toks.erase(toks.begin() + (long)i);
        else if (r == 1) toks.insert(toks.begin() + (long)i, toks[(size_t)vs::rnd(0, (int)toks.size() - 1)]);
        else if (r == 2) std::swap(toks[i], toks[(size_t)vs::rnd(0, (int)toks.size() - 1)]);
        else if (!toks[i].empty()) toks[i].erase((size_t)vs::rnd(0, (int)toks[i].size() - 1), 1);
    }
    if (vs::chance(1, 5))
    {
        static const std::vector<std::string> odd = {"-", "--", "---", "", "-=", "--=", "--=5", "-=5", "---x", "--help", "-h", "--version", "-v", "--help=1", "-hv", "--unknown", "-z", "=", "-help", "--h", "----", "-a=", "- a", "-5", "-0.5", "--he", "-- ", "-\x01"};
        toks.insert(toks.begin() + vs::rnd(0, (int)toks.size()), pick(odd));
    }
    return toks;
}
void random_lines(bool full, int n)
{
    decl d = make_decl(full);
    vs::params(d.json());
    for (int i = 0; i < n; ++i)
    {
        envs e(4);
        if (full)
            for (auto& x : e)
            {
                x.first = vs::chance(2, 5);
                int t = d.opt.empty() ? 0 : d.opt[(size_t)vs::rnd(0, (int)d.opt.size() - 1)].t;
                if (x.first) x.second = vs::chance(1, 2) ? std::to_string(vs::rnd(-2, 9)) : text_for(t);
            }
        run(d, e, line(d));
    }
}
void lines() { random_lines(false, 60); }
void full() { random_lines(true, 60); }

// what is printed
void output()
{
    decl d = make_decl(true);
    d.output = true;
    auto text = [] {
        static const std::vector<std::string> ws = {"a", "path", "to", "the", "(optional)", "file.", "x,y", "<value>", "--not-an-option", "[env:NO]", "\xc3\xa9t\xc3\xa9", "100%", "it's", "Usage:", "%s", "\\n"};
        std::string s;
        for (int k = vs::chance(1, 6) ? vs::rnd(8, 30) : vs::rnd(0, 6); k > 0; --k) s += (s.empty() ? "" : " ") + pick(ws);
        return s;
    };
    d.prog = pick({"prog", "p", "my program", "a-rather-long-program-name-of-forty-chars", ""});
    d.ver = pick({"v1.2.3", "1", "", "v10.20.30-rc.1+build 5"});
    d.about = text();
    static const std::vector<std::string> more = {"a-name-of-twenty-nine-letters", "a-name-of-twenty-four-le", "a-name-of-exactly-thirty-chars", "an-option-with-a-name-of-far-more-than-thirty-characters", "output-directory"};
    for (auto& p : d.pos) { p.about = text(); if (vs::chance(1, 3)) p.n = pick(more); }
    for (auto& o : d.opt) { o.about = text(); if (vs::chance(1, 3)) o.n = pick(more); }
    for (auto& f : d.flag) { f.about = text(); if (vs::chance(1, 3)) f.n = pick(more); }
    vs::params(d.json());
    for (int i = 0; i < 12; ++i)
    {
        envs e(4);
        for (auto& x : e)
        {
            x.first = vs::chance(1, 4);
            if (x.first) x.second = vs::chance(1, 2) ? std::to_string(vs::rnd(-2, 9)) : pick(words);
        }
        auto t = line(d);
        if (vs::chance(1, 3)) t.insert(t.begin() + vs::rnd(0, (int)t.size()), pick({"--help", "-h", "--version", "-v", "-version", "--h=1"}));
        run(d, e, t);
    }
}

// every command line of up to k tokens over a small alphabet, for a few declarations
void sweep(int k)
{
    decl d;
    slot z;
    int which = (int)(vs::rng % 6);
    std::vector<std::string> al;
    if (which == 0)
    {
        z.i = 5;
        d.opt.push_back({"num", 'n', 0, z, false, 0, "none"});
        d.flag.push_back({"flag", 'f', 0, false});
        d.pos.push_back({"p", 1});
        al = {"--num", "-n", "--num=3", "-n=x", "--num=", "4", "-f", "--flag=1", "w", "--", "-", "", "--nu", "-h"};
    }
    else if (which == 1)
    {
        d.opt.push_back({"long", 0, 1, z, true, 0, "none"});
        d.opt.push_back({"other", 'o', 0, z, false, 0, "none"});
        d.flag.push_back({"quiet", 0, 0, false});
        al = {"--long", "--long=v", "-long=w", "--other", "-o=2", "7", "--quiet", "-", "--", "---x", "--=5", "-=5", "", "-v"};
    }
    else if (which == 2)
    {
        d.pos.push_back({"a", 0}); d.pos.push_back({"b", 1});
        z.vi = {1, 2};
        d.opt.push_back({"list", 'l', 4, z, false, 0, "none"});
        al = {"1", "2", "x", "", "--list", "-l=", "-l=3,4", "--list=5,", "-3", "=", "6,7", "--version"};
    }
    else if (which == 3)
    {
        d.flag.push_back({"a", 'b', 0, false}); d.flag.push_back({"b", 'a', 0, false}); d.flag.push_back({"c", 'c', 0, true});
        d.opt.push_back({"d", 'c', 0, z, false, 0, "none"});
        al = {"-a", "--a", "-b", "--b", "-c", "--c=1", "-d", "--d=2", "3", "-ab", "--help", "-d="};
    }
    else if (which == 4)
    {
        z.d = 0.5; z.s = "dflt";
        d.opt.push_back({"ratio", 'r', 2, z, true, 0, "positive"});
        d.opt.push_back({"name", 'n', 1, z, false, 0, "nonempty"});
        al = {"-r", "-r=1.5", "-r=-1", "--ratio=abc", "2.25", "--name", "-n=", "-n=bob", "", "0", "--ratio", "-n=="};
    }
    else
    {
        z.i = 9;
        d.opt.push_back({"e", 'x', 0, z, true, 1, "positive"});
        d.opt.push_back({"w", 'y', 1, z, false, 2, "none"});
        d.flag.push_back({"f", 'z', 3, false});
        al = {"-x", "-x=1", "-x=0", "--e=q", "3", "-y", "--w=t", "-z", "", "-x="};
    }
    vs::params(d.json());
    std::vector<envs> es;
    if (which == 5)
    {
        const std::vector<std::pair<bool, std::string>> a = {{false, ""}, {true, "4"}, {true, "-4"}, {true, "no"}, {true, ""}}, b = {{false, ""}, {true, "env"}}, c = {{false, ""}, {true, "0"}};
        for (auto& x : a) for (auto& y : b) for (auto& w : c) es.push_back({x, y, w, {false, ""}});
        k -= 1;
    }
    else es.push_back(envs(4));
    uint64_t no = 0;
    for (auto& e : es)
        for (int len = 0; len <= k; ++len)
        {
            std::vector<size_t> ix((size_t)len, 0);
            for (;;)
            {
                if (no++ % vs::part_of == vs::part_no)
                {
                    std::vector<std::string> toks;
                    for (auto i : ix) toks.push_back(al[i]);
                    run(d, e, toks);
                }
                int j = len - 1;
                while (j >= 0 && ++ix[(size_t)j] == al.size()) ix[(size_t)j--] = 0;
                if (j < 0) break;
            }
        }
}
void sweep3() { sweep(3); }
void sweep4() { sweep(4); }
// every text of the pools, converted to every type
void convert()
{
    int t = (int)(vs::rng % n_types);
    decl d;
    slot z;
    z.c = "";
    d.opt.push_back({"opt", 'o', t, z, false, 1, "none"});
    d.pos.push_back({"pos", t});
    vs::params(d.json());
    std::vector<std::string> all;
    for (auto* p : {&ints, &reals, &words, &lists}) for (auto& s : *p) all.push_back(s);
    for (auto& s : all)
    {
        run(d, envs(4), {"--opt=" + s, "1"});
        run(d, envs(4), {"-o", s, "1"});
        run(d, envs(4), {s});
        run(d, {{true, s}, {false, ""}, {false, ""}, {false, ""}}, {"1"});
    }
    for (int i = 0; i < 300; ++i)
    {
        // texts made of fragments
        static const std::vector<std::string> frag = {"1", "2", "0", "9", "-", "+", ".", "e", "5", ",", " ", "x", "7"};
        std::string s;
        for (int k = vs::rnd(1, 6); k > 0; --k) s += pick(frag);
        // nothing is said about minus zero as a number without sign
        if ((t == 12 || t == 14) && s.find("-0") != std::string::npos) continue;
        if (t == 2 || t == 3 || t == 9)
        {
            // keep the value within the units of the specification
            size_t dots = 0, digits = 0;
            for (char c : s) { dots += c == '.'; digits += c >= '0' && c <= '9'; }
            if (s.find('e') != std::string::npos || digits > 4) continue;
        }
        run(d, envs(4), {"--opt=" + s, "1"});
    }
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"lines", lines}, {"full", full}, {"sweep3", sweep3}, {"sweep4", sweep4}, {"convert", convert}, {"output", output}};
    return vs::driver_main(argc, argv, list, 6);
}
