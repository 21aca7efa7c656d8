// many uuids, generated by one or by several threads (running freely), through the instance and through copies of it
#include "seq.hpp"
#include <teiacare/sdk/uuid_generator.hpp>

#include <optional>
#include <thread>
#include <vector>

namespace
{
std::string bytes(const tc::sdk::uuid& u)
{
    std::string s = u.to_string(), b = "[";
    for (size_t j = 0; j + 1 < s.size();)
    {
        if (s[j] == '-') { ++j; continue; }
        b += (b.size() > 1 ? "," : "") + std::to_string(std::stoi(s.substr(j, 2), nullptr, 16));
        j += 2;
    }
    return b + "]";
}
void generate(int rounds, int threads, int per)
{
    for (int r = 0; r < rounds; ++r)
    {
        std::vector<std::vector<tc::sdk::uuid>> got((size_t)threads);
        auto shared = tc::sdk::uuid_generator::instance();
        auto work = [&](size_t i, int mode) {
            std::optional<tc::sdk::uuid_generator> mine;
            if (mode == 2) mine.emplace(tc::sdk::uuid_generator::instance());
            for (int k = 0; k < per; ++k)
                got[i].push_back(mode == 0 ? tc::sdk::uuid_generator::instance().create() : mode == 1 ? shared.create() : mine->create());
        };
        std::vector<std::thread> th;
        for (size_t i = 0; i < (size_t)threads; ++i)
        {
            int mode = vs::chance(2, 3) ? 0 : vs::rnd(1, 2);
            if (threads == 1) work(i, mode);
            else th.emplace_back(work, i, mode);
        }
        for (auto& t : th) t.join();
        std::string all = "[";
        for (auto& g : got)
            for (auto& u : g) all += (all.size() > 1 ? "," : "") + bytes(u);
        vs::ev("bulk").i("n", threads * per).raw("bs", all + "]");
    }
}
void alone() { generate(vs::rnd(1, 3), 1, 3000); }
void together() { generate(vs::rnd(1, 3), vs::rnd(2, 8), 500); }
void many() { generate(1, 1, 40000); }
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"alone", alone}, {"together", together}, {"many", many}};
    return vs::driver_main(argc, argv, list, 3);
}
