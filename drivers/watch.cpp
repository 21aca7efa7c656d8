// stopwatches under a clock of the driver's own
#include "seq.hpp"
#include <teiacare/sdk/stopwatch.hpp>

#include <chrono>
#include <ctime>
#include <memory>
#include <sys/time.h>
#include <vector>

namespace
{
int64_t steady_s, steady_ns, wall_s, wall_ns;
int read_clock(clockid_t c, timespec* t)
{
    // what runs at the pace of the steady clock has its reading; every other clock is the wall clock, which is set at will
    bool steady = c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME;
    t->tv_sec = steady ? steady_s : wall_s;
    t->tv_nsec = steady ? steady_ns : wall_ns;
    return 0;
}
}
// the program's definition takes the place of that of the C library
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept { return read_clock(c, t); }
extern "C" int gettimeofday(timeval* t, void*) noexcept { t->tv_sec = wall_s; t->tv_usec = wall_ns / 1000; return 0; }
extern "C" time_t time(time_t* t) noexcept { if (t) *t = wall_s; return wall_s; }

namespace
{
constexpr int64_t G = 1000000000;
std::string T(int64_t s, int64_t ns) { return vs::arr(std::initializer_list<int64_t>{s, ns}); }
// a count of units, per of which make a second
std::string U(int64_t v, int64_t per) { return T(v / per, v % per); }
template <class D> int64_t in(const tc::sdk::stopwatch& w) { return w.elapsed<D>().count(); }
template <intmax_t N, intmax_t D = 1> using unit = std::chrono::duration<tc::sdk::clock::rep, std::ratio<N, D>>;

void history()
{
    steady_s = vs::chance(1, 2) ? vs::rnd(0, 100) : vs::rnd(0, 500000000);
    steady_ns = vs::rnd64(0, G - 1);
    wall_s = 1700000000;
    vs::params("{\"t0\":" + T(steady_s, steady_ns) + "}");
    std::vector<std::unique_ptr<tc::sdk::stopwatch>> w;
    for (int k = 0; k < 100; ++k)
    {
        int op = w.empty() ? 0 : vs::rnd(0, 9);
        size_t i = w.empty() ? 0 : (size_t)vs::rnd(0, (int)w.size() - 1);
        if (op == 0)
        {
            if (w.size() >= 5) continue;
            w.push_back(std::make_unique<tc::sdk::stopwatch>());
            vs::ev("new");
        }
        else if (op == 1)
        {
            w[i]->reset();
            vs::ev("reset").i("i", (int)i + 1);
        }
        else if (op <= 4)
        {
            int64_t s = 0, ns = 0;
            switch (vs::rnd(0, 5))
            {
            case 0: ns = vs::rnd(0, 3); break;
            case 1: ns = vs::rnd(0, 5) * 1000 + vs::rnd(-1, 1); if (ns < 0) ns = 0; break;
            case 2: ns = vs::rnd(1, 999) * 1000000 + vs::rnd(-1, 1); break;
            case 3: s = vs::rnd(0, 130); ns = vs::chance(1, 2) ? G - 1 : vs::rnd64(0, G - 1); break;
            case 4: s = vs::rnd(0, 3) * 3600 - vs::rnd(0, 1); if (s < 0) s = 0; ns = vs::rnd64(0, G - 1); break;
            default: s = vs::rnd64(0, 12000000); ns = vs::rnd64(0, G - 1);
            }
            steady_s += s;
            steady_ns += ns;
            if (steady_ns >= G) { ++steady_s; steady_ns -= G; }
            vs::ev("pass").raw("d", T(s, ns));
        }
        else if (op == 5)
        {
            wall_s += vs::rnd64(-100000, 100000);
            wall_ns = vs::rnd64(0, G - 1);
            vs::ev("wall");
        }
        else if (op == 6)
        {
            auto t = w[i]->start_time().time_since_epoch();
            vs::ev("start").i("i", (int)i + 1).raw("at", U(std::chrono::duration_cast<std::chrono::nanoseconds>(t).count(), G));
        }
        else
        {
            const auto& x = *w[i];
            using namespace std::chrono;
            vs::ev("elapsed").i("i", (int)i + 1).raw("ns", U(duration_cast<nanoseconds>(x.elapsed()).count(), G)).raw("ns2", U(in<unit<1, 1000000000>>(x), G)).raw("us", U(in<unit<1, 1000000>>(x), 1000000))
                .raw("ms", U(in<unit<1, 1000>>(x), 1000)).raw("cs", U(in<unit<1, 50>>(x), 50)).i("s", in<unit<1>>(x)).i("m", in<unit<60>>(x)).i("h", in<unit<3600>>(x))
                .i("w", in<unit<604800>>(x)).i("odd", in<unit<7>>(x));
        }
    }
}
const vs::scenario list_[] = {{"watch", history}};
}
int main(int argc, char** argv) { return vs::driver_main(argc, argv, list_, sizeof list_ / sizeof *list_); }
