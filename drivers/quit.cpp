// install_signal_handlers / quit / wait_for_quit driver
#include "vsched.hpp"
#include <teiacare/sdk/signal_handler.hpp>

#include <csignal>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace
{
struct alive_t
{
    volatile int magic = 0x600d;
    alive_t() = default;
    alive_t(const alive_t& o) : magic(o.magic) {}
    ~alive_t() { magic = 0xdead; }
};
int n_cb = 0;
void install(bool empty)
{
    int k = empty ? 0 : ++n_cb;
    int slp = vs::chance(1, 4) ? vs::rnd(1, 300) : 0;
    if (empty && vs::chance(1, 2)) tc::sdk::install_signal_handlers();
    else if (empty) tc::sdk::install_signal_handlers(std::function<void(const char*, int)>{});
    else
        tc::sdk::install_signal_handlers([k, slp, a = alive_t()](const char* m, int s) {
            vs::ev("begin").i("k", a.magic == 0x600d ? k : -77).s("msg", m ? m : "(null)").i("sig", s);
            if (slp) vs::sleep_us(slp);
            vs::ev("end");
        });
    vs::ev("install").i("k", k);
}
const int sigs[] = {SIGINT, SIGTERM, SIGABRT};
void wait()
{
    vs::ev("wait");
    tc::sdk::wait_for_quit();
    vs::ev("waited");
}
void request(int kind)
{
    if (kind == 0)
    {
        int s = vs::rnd(0, 2) * 7;
        bool dflt = vs::chance(1, 3);
        std::string m = "quit-message-" + std::to_string(vs::rnd(1, 9));
        vs::ev("quit").s("msg", m).i("sig", dflt ? 0 : s);
        if (dflt) tc::sdk::quit(m.c_str());
        else tc::sdk::quit(m.c_str(), s);
        vs::ev("done");
        return;
    }
    int s = sigs[kind - 1];
    vs::ev("raise").i("sig", s);
    raise(s);
    vs::ev("done");
}
void quiet() { vs::quiesce(); vs::ev("quiet"); }

void quits()
{
    bool inst = vs::chance(7, 8);
    if (inst) install(vs::chance(1, 5));
    auto kind = [&] { return inst ? vs::rnd(0, 3) : 0; };
    int rounds = vs::rnd(1, 3);
    for (int r = 0; r < rounds; ++r)
    {
        if (r && vs::chance(1, 2)) { install(vs::chance(1, 4)); inst = true; }
        // never more releases than waits in total, so that every wait of the round ends
        int pre = vs::rnd(0, 1), nq = vs::rnd(pre ? 0 : 1, 2), nw = pre + nq;
        for (int i = 0; i < pre; ++i) request(kind());
        if (vs::chance(1, 2)) quiet();
        std::vector<std::thread> th;
        bool seq = vs::chance(1, 2); // one waiter at a time, or all at once
        if (seq) th.emplace_back([nw] { for (int i = 0; i < nw; ++i) wait(); });
        else
            for (int i = 0; i < nw; ++i) th.emplace_back([] { wait(); });
        if (vs::chance(1, 2)) { quiet(); }
        for (int i = 0; i < nq; ++i)
        {
            int k = kind(), pause = vs::chance(1, 2) ? vs::rnd(1, 500) : 0;
            if (vs::chance(1, 2)) th.emplace_back([k, pause] { if (pause) vs::sleep_us(pause); request(k); });
            else { if (pause) vs::sleep_us(pause); request(k); quiet(); }
        }
        vs::sleep_us(5000);
        quiet();
        for (auto& t : th) t.join();
    }
}
}

int main(int argc, char** argv)
{
    static const vs::scenario list[] = {{"quits", quits}};
    return vs::driver_main(argc, argv, list, 1);
}
