// P39: the timer adds up the time between its starts and stops, and prints it in hours, minutes and seconds.
// The clock is the harness's own while a case runs.
#include "alta_gen.h"
#include <core/common.h>
#include <ctime>
#include <sys/time.h>
#include <dlfcn.h>
static bool g_fake = false; static long g_now = 0; static long g_ns = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) throw() {
    typedef int (*F)(clockid_t, struct timespec*); static F real = (F)dlsym(RTLD_NEXT, "clock_gettime");
    if (!g_fake) return real(id, t);
    t->tv_sec = g_now; t->tv_nsec = g_ns; return 0;
}
extern "C" int gettimeofday(struct timeval* __restrict t, void* __restrict z) throw() {
    typedef int (*F)(struct timeval*, void*); static F real = (F)dlsym(RTLD_NEXT, "gettimeofday");
    if (!g_fake) return real(t, z);
    t->tv_sec = g_now; t->tv_usec = g_ns / 1000; return 0;
}
extern "C" time_t time(time_t* t) throw() {
    typedef time_t (*F)(time_t*); static F real = (F)dlsym(RTLD_NEXT, "time");
    if (!g_fake) return real(t);
    if (t) *t = g_now;
    return g_now;
}
using namespace ag;
PROPERTY(histories) {
    struct Off { ~Off() { g_fake = false; } } off; g_now = g.pick(std::vector<long>{0, 1, 1000, 86400 * 30L, 2147483000L}); g_ns = g.below(1000000000); g_fake = true;
    const long base = g_now; int n = g.range(1, 2); std::vector<timer> ts(n); std::vector<long> total(n, 0), since(n, 0); std::vector<char> on(n, 0); std::string ops;
    auto judge = [&](int i, const timer& t) {
        CHECK(t.elapsed() == total[i], "elapsed " << t.elapsed() << " s instead of " << total[i] << " after " << ops); std::ostringstream a, b, w; a << t; t.print(b);
        w << total[i] / 3600 << "h " << total[i] / 60 % 60 << "m " << total[i] % 60 << "s"; CHECK(a.str() == w.str() && b.str() == w.str(), total[i] << " s printed as '" << a.str() << "' and '" << b.str() << "' instead of '" << w.str() << "'"); };
    int m = g.range(1, 14);
    for (int k = 0; k < m; ++k) {
        long dt = g.below(5) == 0 ? 0 : g.chance(1, 2) ? g.range(1, 100) : g.chance(1, 2) ? g.range(1, 8000) : g.range(1, 200000); if (g_now + dt - base > 100000000) dt = 1; g_now += dt; g_ns = g.below(1000000000); ops += " +" + std::to_string(dt);
        int i = g.below(n);
        if (g.chance(1, 8)) { ts[i].reset(); total[i] = 0; on[i] = 0; ops += " reset" + std::to_string(i); g.label("reset"); }
        else if (on[i]) { ts[i].stop(); total[i] += g_now - since[i]; on[i] = 0; ops += " stop" + std::to_string(i); if (total[i] >= 3600) g.label("hours"); if (total[i] >= 60) g.nontrivial(); }
        else { ts[i].start(); since[i] = g_now; on[i] = 1; ops += " start" + std::to_string(i); }
        for (int j = 0; j < n; ++j) if (!on[j]) judge(j, ts[j]);
        if (!on[i] && g.chance(1, 6)) { timer c = ts[i]; judge(i, c); g.label("copy"); }
    }
    g.note("history", ops);
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
