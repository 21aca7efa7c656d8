// uuid texts
#include "seq.hpp"
#include <teiacare/sdk/uuid_generator.hpp>

#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace
{
using tc::sdk::uuid;
uuid held[2];

// parse from a buffer of exactly the right size, so that reading outside is noticed
void parse(int k, const std::string& s)
{
    auto& g = tc::sdk::uuid_generator::instance();
    std::unique_ptr<char[]> buf(new char[s.size()]);
    memcpy(buf.get(), s.data(), s.size());
    std::string_view v(buf.get(), s.size());
    bool valid = g.is_valid(v);
    std::string r;
    try { held[k] = g.from_string(v); r = "ok"; }
    catch (const std::exception&) { r = "throw"; }
    vs::ev("parse").raw("s", vs::codes(s)).i("valid", valid).i("k", k + 1).s("r", r);
}
void show(int k)
{
    std::ostringstream os;
    os << held[k];
    std::string t = held[k].to_string();
    auto& g = tc::sdk::uuid_generator::instance();
    vs::ev("show").i("k", k + 1).raw("t", vs::codes(t)).raw("os", vs::codes(os.str())).i("again", g.is_valid(t) && g.from_string(t) == held[k]);
}
void cmp()
{
    const uuid &a = held[0], &b = held[1];
    vs::ev("cmp").i("lt", a < b).i("gt", a > b).i("le", a <= b).i("ge", a >= b).i("eq", a == b).i("ne", a != b);
}
char hex_digit()
{
    return "0123456789abcdefABCDEF"[vs::rnd(0, 21)];
}
std::string digits(int n)
{
    std::string s;
    for (int i = 0; i < n; ++i) s += hex_digit();
    return s;
}
std::string canonical()
{
    std::string s = digits(32);
    for (int p : {20, 16, 12, 8}) s.insert(p, "-");
    return s;
}
std::string valid_text()
{
    std::string s = vs::chance(1, 2) ? canonical() : digits(32);
    for (int n = vs::chance(1, 2) ? 0 : vs::rnd(0, 4); n > 0; --n) s.insert(vs::rnd(0, (int)s.size()), "-");
    if (vs::chance(1, 2)) s = "{" + s + "}";
    return s;
}
char any_char()
{
    static const char near[] = "/:@G`g{}- \t\n\0xX().+\x7f\x80\xff\xe9_";
    return vs::chance(2, 3) ? near[vs::rnd(0, (int)sizeof near - 2)] : (char)vs::rnd(0, 255);
}
std::string broken_text()
{
    std::string s = valid_text();
    for (int n = vs::chance(3, 4) ? 1 : vs::rnd(2, 4); n > 0; --n)
    {
        int p = vs::rnd(0, std::max(0, (int)s.size() - 1));
        switch (vs::rnd(0, 6))
        {
        case 0: if (!s.empty()) s.erase(p, 1); break;
        case 1: s.insert(p, 1, any_char()); break;
        case 2: if (!s.empty()) s[p] = any_char(); break;
        case 3: s.insert(p, 1, hex_digit()); break;
        case 4: s = "{" + s; break;
        case 5: s += "}"; break;
        default: s = s.substr(0, p);
        }
    }
    return s;
}
void history()
{
    vs::params("{}");
    for (int i = 0; i < 60; ++i)
    {
        switch (vs::rnd(0, 9))
        {
        case 0: case 1: case 2: parse(vs::rnd(0, 1), valid_text()); break;
        case 3: case 4: case 5: parse(vs::rnd(0, 1), broken_text()); break;
        case 6: // uuids that agree up to some byte
        {
            int k = vs::rnd(0, 1);
            std::string t = held[1 - k].to_string();
            for (int n = vs::rnd(0, 2); n > 0; --n) { int p = vs::rnd(0, 35); if (t[p] != '-') t[p] = hex_digit(); }
            parse(k, t);
            break;
        }
        case 7: if (vs::chance(1, 3)) { int k = vs::rnd(0, 1); held[k] = held[1 - k]; vs::ev("copy").i("k", k + 1); } break;
        default: break;
        }
        show(vs::rnd(0, 1));
        cmp();
    }
}
// every single-character change of a few valid texts
void edits()
{
    vs::params("{}");
    std::vector<std::string> base = {canonical(), "{" + canonical() + "}", digits(32), "{" + digits(32) + "}"};
    uint64_t k = 0;
    for (auto& b : base)
        for (size_t p = 0; p <= b.size(); ++p)
        {
            if (k++ % vs::part_of != vs::part_no) continue;
            for (char c : std::string("{}-0afAFgG/:@`\x00 ", 16))
            {
                std::string s = b;
                s.insert(p, 1, c);
                parse(0, s);
                if (p < b.size()) { s = b; s[p] = c; parse(0, s); }
            }
            if (p < b.size()) { std::string s = b; s.erase(p, 1); parse(0, s); parse(0, b.substr(0, p)); parse(0, b.substr(p)); show(0); }
        }
    // every byte value at one position
    for (int c = 0; c < 256; ++c)
    {
        if (k++ % vs::part_of != vs::part_no) continue;
        std::string s = base[c & 3];
        s[3] = (char)c;
        parse(0, s);
        show(0);
    }
}
// every short text over a small alphabet
void shorts()
{
    vs::params("{}");
    const std::string al = "{}-0aG";
    uint64_t k = 0;
    std::vector<std::string> all = {""};
    for (size_t i = 0; i < all.size() && all[i].size() < 4; ++i)
        for (char c : al) all.push_back(all[i] + c);
    for (auto& s : all)
        if (k++ % vs::part_of == vs::part_no) parse(0, s);
    for (int n = 28; n <= 36; ++n)
        for (int v = 0; v < 8; ++v)
        {
            if (k++ % vs::part_of != vs::part_no) continue;
            std::string s = digits(n);
            if (v & 4) s += "-";
            if (v & 1) s = "{" + s;
            if (v & 2) s += "}";
            parse(0, s);
        }
    show(0);
}
const vs::scenario list_[] = {{"history", history}, {"edits_sweep", edits}, {"shorts_sweep", shorts}};
}
int main(int argc, char** argv) { return vs::driver_main(argc, argv, list_, sizeof list_ / sizeof *list_); }
