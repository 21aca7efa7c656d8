// rate_limiter driver
#include "vsched.hpp"
#include <teiacare/sdk/rate_limiter.hpp>

#include <memory>
#include <thread>
#include <vector>

namespace
{
void loop(int id, int64_t r, int frames, int style)
{
    std::unique_ptr<tc::sdk::rate_limiter> l;
    {
        vs::no_time_jumps(true);
        vs::ev("new").i("id", id).i("r", r);
        l = std::make_unique<tc::sdk::rate_limiter>((size_t)r);
        vs::no_time_jumps(false);
    }
    int64_t frame = 1000000 / r + 1;
    for (int i = 0; i < frames; ++i)
    {
        switch (style)
        {
        case 0: break;
        case 1: vs::sleep_us(frame / 2); break;
        case 2: vs::sleep_us(vs::rnd(0, (int)frame)); break;
        case 3: if (vs::chance(1, 5)) vs::sleep_us(frame * vs::rnd(1, 5) + vs::rnd(0, (int)frame)); break;
        case 4: vs::sleep_us(vs::chance(1, 2) ? frame - 1 : frame * 2); break;
        default: if (i == frames / 3) vs::sleep_us(frame * (frames / 3)); break;
        }
        vs::ev("call").i("id", id);
        l->sync();
        vs::ev("ret").i("id", id);
    }
}
void rates()
{
    vs::log_ticks();
    vs::params(vs::lazy() ? "{\"lazy\":1}" : "{\"lazy\":0}");
    static const int64_t rs[] = {1, 2, 3, 7, 10, 24, 30, 60, 100, 144, 240, 999, 1000, 3333, 10000, 100000, 1000000};
    int n = vs::rnd(1, 2);
    std::vector<std::thread> th;
    if (vs::chance(1, 3)) vs::sleep_us(vs::rnd(1, 5000));
    for (int i = 0; i < n; ++i)
    {
        int64_t r = rs[vs::rnd(0, 16)];
        int frames = vs::rnd(1, n == 1 ? 60 : 30), style = vs::rnd(0, 5);
        th.emplace_back([=] { loop(i + 1, r, frames, style); });
    }
    for (auto& t : th) t.join();
}
// many frames: no drift
void longrun()
{
    vs::params(vs::lazy() ? "{\"lazy\":1}" : "{\"lazy\":0}");
    static const int64_t rs[] = {3, 7, 30, 60, 90, 144, 999, 1000, 3333, 48000};
    int64_t r = rs[vs::rnd(0, 9)];
    vs::sleep_us(vs::rnd(0, 1000));
    vs::ev("at");
    vs::ev("new").i("id", 1).i("r", r);
    tc::sdk::rate_limiter l((size_t)r);
    for (int i = r < 30 ? 2 : 12; i > 0; --i)
    {
        int n = vs::rnd(1, 3000);
        for (int k = 0; k < n; ++k) l.sync();
        vs::ev("at");
        vs::ev("burst").i("id", 1).i("n", n);
    }
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"rates", rates}, {"longrun", longrun}};
    return vs::driver_main(argc, argv, list, 2);
}
