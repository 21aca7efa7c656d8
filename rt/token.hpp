// Tracks the existence of what a driver hands to the library: one id per callable or item, any number of copies.
#pragma once
#include "vsched.hpp"
#include <map>
#include <string>
#include <utility>

namespace vs
{
inline constexpr int max_tokens = 2048;
inline int token_count[max_tokens]; // accessed by uninstrumented code only: one thread at a time, no scheduling points

__attribute__((no_sanitize("thread"), noinline)) inline void token_add(int k, int n) { if (k > 0 && k < max_tokens) token_count[k] += n; }
__attribute__((no_sanitize("thread"), noinline)) inline int token_next(int k) { while (++k < max_tokens && token_count[k] == 0) {} return k; }
__attribute__((no_sanitize("thread"), noinline)) inline int token_get(int k) { return token_count[k]; }

class token
{
public:
    token() = default;
    explicit token(int k) : _k(k) { add(1); }
    token(const token& o) : _k(o.ok() ? o._k : -1) { add(1); }
    token(token&& o) noexcept : _k(o._k) { o._k = 0; }
    token& operator=(token o) noexcept { std::swap(_k, o._k); return *this; }
    ~token() { add(-1); _alive = 0xdead; }
    bool ok() const { return _alive == 0x600d && _k >= 0; } // false: used after its destruction, or a copy of such
    bool ok(int k) const { return ok() && _k == k; }

private:
    volatile int _alive = 0x600d;
    int _k = 0;
    void add(int n) { token_add(_k, n); }
};

// logs which ids exist, which of them the driver still holds futures of, and whether the object under test has been destroyed
template <typename Map> void live_event(const Map& held, bool gone)
{
    unrecorded u;
    std::string ids, hs;
    for (int k = token_next(0); k < max_tokens; k = token_next(k)) ids += (ids.empty() ? "" : ",") + std::to_string(token_get(k) > 0 ? k : -k);
    for (auto& [k, f] : held) hs += (hs.empty() ? "" : ",") + std::to_string(k);
    ev("live").raw("ids", "[" + ids + "]").raw("held", "[" + hs + "]").b("gone", gone);
}
inline void live_event(bool gone) { live_event(std::map<int, int>{}, gone); }
}
