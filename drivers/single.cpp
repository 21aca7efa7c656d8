// process-wide instances driver
#include "vsched.hpp"
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <atomic>
#include <map>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>

namespace
{
std::atomic<int> ctors[3];
int slow[3];

template <int N>
class type_t : public tc::sdk::singleton<type_t<N>>
{
    friend class tc::sdk::singleton<type_t<N>>;
    std::string text;
    volatile int magic = 0;
    type_t()
    {
        ++ctors[N];
        vs::ev("ctor").i("ty", N);
        vs::yield_point();
        text = "the-contents-of-the-singleton-object";
        if (slow[N]) vs::sleep_us(slow[N]);
        vs::yield_point();
        magic = 0x600d;
        vs::ev("ctord").i("ty", N);
    }

public:
    bool ok() const { return magic == 0x600d && text == "the-contents-of-the-singleton-object"; }
};
std::mutex om;
std::map<const void*, int> objs;
int number(const void* p)
{
    vs::unrecorded u_; std::scoped_lock l(om);
    return objs.emplace(p, (int)objs.size() + 1).first->second;
}
void ret(int ty, const void* p, bool ok, bool user)
{
    vs::ev("ret").i("ty", ty).i("o", number(p)).i("ok", ok).i("user", user);
}
struct sub_a : tc::sdk::singleton<sub_a> { int x = 7; };
void get(int ty)
{
    vs::ev("req").i("ty", ty);
    switch (ty)
    {
    case 0: { auto& o = type_t<0>::instance(); ret(0, &o, o.ok(), true); break; }
    case 1: { auto& o = type_t<1>::instance(); ret(1, &o, o.ok(), true); break; }
    case 2: { auto& o = tc::sdk::singleton<type_t<2>>::instance(); ret(2, &o, o.ok(), true); break; }
    case 3: ret(3, &tc::sdk::service_locator::instance(), true, false); break;
    case 4: ret(4, &tc::sdk::uuid_generator::instance(), true, false); break;
    default: { auto& o = sub_a::instance(); ret(5, &o, o.x == 7, false); break; }
    }
}
void requests()
{
    std::string pre;
    for (int i = 0; i < 3; ++i)
    {
        if (ctors[i] > 0) pre += (pre.empty() ? "" : ",") + std::to_string(i);
        slow[i] = vs::chance(1, 4) ? vs::rnd(1, 100) : 0;
    }
    vs::params("{\"pre\":[" + pre + "]}");
    std::vector<std::thread> th;
    int n = vs::rnd(1, 4), one = vs::chance(1, 2) ? vs::rnd(0, 5) : -1;
    for (int i = 0; i < n; ++i)
        th.emplace_back([one] {
            for (int k = vs::rnd(1, 4); k > 0; --k) get(one >= 0 ? one : vs::rnd(0, 5));
        });
    if (vs::chance(1, 2)) get(vs::rnd(0, 5));
    vs::quiesce();
    for (auto& t : th) t.join();
    for (int i = 0; i < 6; ++i) get(i);
}

bool shared_only = false; // all threads use the instance of the generator
void uuids()
{
    vs::params("{}");
    std::vector<std::thread> th;
    int n = vs::rnd(2, 4), k = vs::rnd(2, 10);
    tc::sdk::uuid_generator copied = tc::sdk::uuid_generator::instance();
    auto gen = [k, &copied] {
        int mode = shared_only ? 0 : vs::rnd(0, 2);
        std::optional<tc::sdk::uuid_generator> mine; // (a copy of a generator)
        if (!shared_only) mine.emplace(tc::sdk::uuid_generator::instance());
        auto& copy = mode == 1 || !mine ? copied : *mine;
        for (int i = 0; i < k; ++i)
        {
            vs::ev("call");
            auto u = mode == 0 ? tc::sdk::uuid_generator::instance().create() : copy.create();
            std::string s = u.to_string(), b = "[";
            for (size_t j = 0; j < s.size();)
            {
                if (s[j] == '-') { ++j; continue; }
                b += (b.size() > 1 ? "," : "") + std::to_string(std::stoi(s.substr(j, 2), nullptr, 16));
                j += 2;
            }
            vs::ev("ret").raw("b", b + "]");
        }
    };
    if (vs::chance(1, 2)) (void)tc::sdk::uuid_generator::instance();
    for (int i = 0; i < n; ++i) th.emplace_back(gen);
    for (auto& t : th) t.join();
    gen();
}
void uuids_shared()
{
    shared_only = true;
    uuids();
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"requests", requests}, {"uuids", uuids}, {"uuids_shared", uuids_shared}};
    return vs::driver_main(argc, argv, list, 3);
}
