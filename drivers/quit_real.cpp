// signal handling with real signals sent from another process (no controlled scheduling)
#include <teiacare/sdk/signal_handler.hpp>

#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

struct shm_t
{
    std::atomic<int> n{0}, cur{100}, go{0};
    std::atomic<int> ready[256];
    char line[256][96];
};
static shm_t* sh;
// async-signal-safe enough: snprintf on a private line of the shared page
static void log(const char* fmt, int a = 0, const char* s = "", int b = 0, int c = 0)
{
    int i = sh->n.fetch_add(1);
    if (i >= 256) return;
    snprintf(sh->line[i], sizeof sh->line[i], fmt, a, s, b, c);
    sh->ready[i] = 1;
}
static void nap(int ms) { timespec t{ms / 1000, (ms % 1000) * 1000000L}; nanosleep(&t, nullptr); }
static int count(const char* what)
{
    int k = 0, n = sh->n;
    std::string w = std::string("{\"e\":\"") + what + "\"";
    for (int i = 0; i < n && i < 256; ++i) k += sh->ready[i] && strncmp(sh->line[i], w.c_str(), w.size()) == 0;
    return k;
}
static const int LIMIT = 20000; // ms; reached only if something is broken
static bool await(const char* what, int k, pid_t child)
{
    for (int i = 0; i < LIMIT * 2; ++i)
    {
        if (count(what) >= k) return true;
        int st;
        if (waitpid(child, &st, WNOHANG | WNOWAIT) == child) return count(what) >= k;
        if (i < 200) usleep(100); else usleep(500);
    }
    log("{\"e\":\"timeout\",\"t\":%d}");
    return false;
}
static void install(int k)
{
    if (k == 0) tc::sdk::install_signal_handlers();
    else tc::sdk::install_signal_handlers([k](const char* m, int s) {
        log("{\"e\":\"begin\",\"t\":%d,\"msg\":\"%s\",\"sig\":%d,\"k\":%d}", sh->cur, m, s, k);
        log("{\"e\":\"end\",\"t\":%d}", sh->cur);
    });
    log("{\"e\":\"install\",\"t\":0,\"k\":%d}", k);
}
int main(int argc, char** argv)
{
    std::string out = "/dev/stdout";
    unsigned seed = 1;
    int n = 20;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        if (!strcmp(argv[i], "--out")) out = argv[i + 1];
        if (!strcmp(argv[i], "--seed")) seed = (unsigned)atoi(argv[i + 1]);
        if (!strcmp(argv[i], "--count")) n = atoi(argv[i + 1]);
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    static const int sigs[] = {SIGINT, SIGTERM, SIGABRT};
    int broken = 0;
    for (int it = 0; it < n && broken < 2; ++it)
    {
        srand(seed * 1000 + (unsigned)it);
        sh = (shm_t*)mmap(nullptr, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (&sh->n) std::atomic<int>(0);
        sh->cur = 100;
        int before = rand() % 2, during = rand() % 2 + (before ? 0 : 1);
        bool with_cb = rand() % 4 != 0, threads = rand() % 2;
        int plan_sig[8];
        for (int i = 0; i < 8; ++i) plan_sig[i] = sigs[rand() % 3];
        fflush(f);
        pid_t pid = fork();
        if (pid == 0)
        {
            alarm(60);
            std::thread helper;
            if (threads) helper = std::thread([] { while (sh->go < 99) nap(2); });
            install(with_cb ? 1 : 0);
            while (sh->go == 0) nap(1);
            for (int i = 0; i < before + during; ++i)
            {
                log("{\"e\":\"wait\",\"t\":0}");
                tc::sdk::wait_for_quit();
                log("{\"e\":\"waited\",\"t\":0}");
            }
            sh->go = 99;
            if (helper.joinable()) helper.join();
            _exit(0);
        }
        bool ok = await("install", 1, pid);
        int nr = 0;
        auto send = [&](int s) {
            ++sh->cur;
            ++nr;
            log("{\"e\":\"raise\",\"t\":%d,\"msg\":\"%s\",\"sig\":%d}", sh->cur, "", s);
            kill(pid, s);
            if (with_cb) return await("end", nr, pid);
            nap(20);
            return true;
        };
        for (int i = 0; ok && i < before; ++i) ok = send(plan_sig[i]);
        sh->go = 1;
        if (before) ok = ok && await("waited", before, pid);
        for (int i = 0; ok && i < during; ++i)
        {
            ok = await("wait", before + i + 1, pid);
            nap(rand() % 3 * 10);
            ok = ok && send(plan_sig[4 + i]) && await("waited", before + i + 1, pid);
        }
        if (!ok) { ++broken; kill(pid, SIGKILL); }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) log("{\"e\":\"crash\",\"t\":0,\"sig\":%d}", WTERMSIG(st));
        for (int i = 1; i <= nr; ++i) log("{\"e\":\"done\",\"t\":%d}", 100 + i);
        log("{\"e\":\"quiet\",\"t\":%d}", 0);
        fprintf(f, "{\"strat\":\"real\",\"p\":{},\"ev\":[");
        int m = sh->n;
        for (int i = 0; i < m && i < 256; ++i) fprintf(f, "%s%s", i ? "," : "", sh->line[i]);
        fprintf(f, "]}\n");
        munmap(sh, sizeof(shm_t));
    }
    fclose(f);
    fprintf(stderr, "{\"execs\":%d}\n", n);
    return 0;
}
