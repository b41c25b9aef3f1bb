// Choice-tape property-based testing engine.
// A generator draws from a tape of 64-bit choices.  Random tapes come from (seed, test, case index); a failing tape is
// shrunk (chunk deletion, value minimisation) with every attempt in a forked child, then saved as the replay file.
// Cases run in a forked worker so aborts, sanitizer reports, signals and CPU-time hangs are failures of the case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <limits>
#include <iomanip>
#include <memory>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

inline std::string fmt(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string fmt(float d) { return fmt((double)d); }
template<class T> inline std::string fmt(const T& t) { std::ostringstream o; o << t; return o.str(); }
inline std::string fmt(const std::string& s) { return s; }
template<class V> inline std::string fmtv(const V& v, int n) {
    std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += fmt((double)v[i]); } return s + "]"; }
inline std::string fmtv(const std::vector<double>& v) { return fmtv(v, (int)v.size()); }

static const size_t TAPE_CAP = 1u << 17;
static const int MAXLAB = 96, NSAMP = 6, SAMPSZ = 2400;

struct Shared {
    volatile uint64_t cases, nontrivial, discarded, cur_case;
    volatile size_t tape_len;
    volatile int status;            // 0 running, 1 done, 2 failed, 3 discarded (single-run mode), 4 passed (single-run mode)
    volatile int nlab;
    struct { char name[72]; volatile uint64_t n; } lab[MAXLAB];
    volatile int nsamp;
    char samp[NSAMP][SAMPSZ];
    char msg[8192];
    char desc[16384];
    volatile uint64_t tape[TAPE_CAP];
};

class G {
public:
    std::vector<double> mem;   // what a generator wants to remember within a case
    Shared* sh; bool replaying; std::vector<uint64_t> in; size_t pos; uint64_t s;
    std::string desc; bool nontriv; std::vector<std::string> labs; uint64_t hash;
    G(Shared* sh_) : sh(sh_), replaying(false), pos(0), s(0), nontriv(false), hash(1469598103934665603ull) {}
    static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    void record(uint64_t v) { if (pos < TAPE_CAP) { sh->tape[pos] = v; } pos++; sh->tape_len = std::min(pos, TAPE_CAP);
        hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29; }
    uint64_t next_raw() {
        if (replaying) return pos < in.size() ? in[pos] : 0;
        s += 0x9e3779b97f4a7c15ull; return mix(s);
    }
    uint64_t below(uint64_t n) { if (n <= 1) { return 0; } uint64_t v = next_raw(); v = replaying ? (v < n ? v : v % n) : v % n; record(v); return v; }
    uint64_t bits() { uint64_t v = next_raw(); record(v); return v; }
    long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo) + 1); }
    bool chance(int num, int den) { return (int)below(den) >= den - num; }
    void again(double* x, int n) { if ((int)mem.size() == n && flip()) for (int k = 0; k < n; ++k) if (flip()) x[k] = mem[k]; mem.assign(x, x + n); }   // some coordinates of the position before
    bool flip() { return below(2) == 1; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // uniform [0,1) on a 2^-40 lattice with occasional coarse values
    double unit() { return (double)(below(1ull << 40)) / (double)(1ull << 40); }
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // value in [lo,hi] with endpoints, zero, and coarse values favoured
    double real(double lo, double hi) {
        switch (below(10)) {
        case 9: return lo; case 8: return hi;
        case 7: { double m = 0.0; return (m >= lo && m <= hi) ? m : 0.5 * (lo + hi); }
        case 6: return lo + (hi - lo) * (double)range(0, 8) / 8.0;
        default: return uniform(lo, hi); }
    }
    // finite double of any magnitude
    double wild() {
        switch (below(8)) {
        case 0: return (double)range(-8, 8);
        case 1: return uniform(-1, 1);
        case 2: return uniform(0, 10);
        case 3: return (flip() ? -1 : 1) * std::pow(10.0, uniform(-30, 30));
        case 4: return (flip() ? -1 : 1) * std::pow(10.0, uniform(-300, 300));
        case 5: return pick(std::vector<double>{0.0, 1.0, -1.0, 0.1, 1e-300, 5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 1e15, 123456789.123456789, 2.2250738585072014e-308, 1.0/3.0});
        case 6: return uniform(-1e6, 1e6);
        default: return uniform(0, 1); }
    }
    void label(const std::string& l) { labs.push_back(l); }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    template<class T> void note(const std::string& k, const T& v) { if (desc.size() < 14000) desc += k + "=" + fmt(v) + "; ";
        strncpy(sh->desc, desc.c_str(), sizeof(sh->desc) - 1); }
    void notev(const std::string& k, const std::vector<double>& v) { note(k, fmtv(v)); }
};

inline void fail(const std::string& m) { throw Failure{m}; }
inline void discard() { throw Discard{}; }
#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(c, m) do { if (!(c)) { std::ostringstream o_; o_ << "[" #c "] " << m; pbt::fail(o_.str()); } } while (0)

inline bool close(double a, double b, double rel, double abs_) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

typedef std::function<void(G&)> Prop;
struct Test { std::string name; Prop f; int cpu_s; };
inline std::vector<Test>& registry() { static std::vector<Test> r; return r; }
struct Reg { Reg(const char* n, Prop f, int cpu_s) { registry().push_back(Test{n, f, cpu_s}); } };
#define PROPERTY(name) static void prop_##name(pbt::G& g); static pbt::Reg reg_##name(#name, prop_##name, 20); static void prop_##name(pbt::G& g)
#define PROPERTY_CPU(name, cpu) static void prop_##name(pbt::G& g); static pbt::Reg reg_##name(#name, prop_##name, cpu); static void prop_##name(pbt::G& g)

// scratch directory of the current run (created by the runner, removed by it)
inline std::string scratch() { const char* s = getenv("PBT_SCRATCH"); std::string d = s ? s : "/tmp"; return d; }
inline std::string tmpfile(const std::string& name) { return scratch() + "/" + std::to_string((long)getpid()) + "_" + name; }
inline std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void spew(const std::string& f, const std::string& c) { std::ofstream o(f.c_str(), std::ios::binary); o << c; }

inline void arm_cpu(int s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, 0); }

inline void run_case(G& g, const Test& t) {   // sets sh->status for the case: returns normally if passed/discarded
    try { t.f(g); }
    catch (Failure& f) { strncpy(g.sh->msg, f.msg.c_str(), sizeof(g.sh->msg) - 1); throw; }
    catch (Discard&) { throw; }
    catch (std::exception& e) { Failure f{std::string("unexpected exception: ") + e.what()}; strncpy(g.sh->msg, f.msg.c_str(), sizeof(g.sh->msg) - 1); throw f; }
    catch (...) { Failure f{"unexpected exception of unknown type"}; strncpy(g.sh->msg, f.msg.c_str(), sizeof(g.sh->msg) - 1); throw f; }
}

inline uint64_t strhash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }

struct Outcome { int kind; std::string msg; }; // 0 pass, 1 fail, 2 discard

inline std::string tail_of(const std::string& f, size_t n = 1500) { std::string s = slurp(f); 
    size_t p = s.find("runtime error"); if (p == std::string::npos) p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("Assertion");
    if (p != std::string::npos) return s.substr(p > 100 ? p - 100 : 0, n);
    return s.size() > n ? s.substr(s.size() - n) : s; }

inline void child_setup(const std::string& errfile, bool keep) {
    int fd = open("/dev/null", O_RDWR); if (!keep) dup2(fd, 1); dup2(fd, 0);
    int e = open(errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); if (e >= 0 && !keep) dup2(e, 2);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 512u << 20; setrlimit(RLIMIT_FSIZE, &rl);
#ifndef __SANITIZE_ADDRESS__
    rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
#endif
}

inline int wait_child(pid_t p, int wall_s, bool& timeout) {
    timeout = false; int st = 0; time_t t0 = time(0);
    long us = 200;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) return st;
        if (time(0) - t0 > wall_s) { kill(p, SIGKILL); waitpid(p, &st, 0); timeout = true; return st; }
        usleep(us); if (us < 5000) us += us / 2;
    }
}

inline std::string status_text(int st, bool timeout, const std::string& errfile) {
    std::string s;
    if (timeout) s = "no progress (wall-clock limit)";
    else if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); s = sg == SIGPROF ? "hang: CPU-time limit of one case exceeded" : std::string("killed by signal ") + strsignal(sg); }
    else s = "process exited with status " + std::to_string(WEXITSTATUS(st));
    return s + " | stderr: " + tail_of(errfile);
}

typedef std::vector<uint64_t> Tape;
struct History { std::vector<uint64_t> cases; uint64_t seed; std::vector<Tape> tapes; }; // what the process did before: generated cases by number, or their tapes

// run one explicit tape in a forked child, after its history
inline Outcome run_tape(Shared* sh, const Test& t, const Tape& tape, const std::string& errfile, Tape* used, bool keep = false, const History* h = 0, int limit_s = 0) {
    sh->tape_len = 0; sh->status = 0; sh->msg[0] = 0; sh->desc[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        child_setup(errfile, keep);
        if (h) {
            sh->status = 9; time_t t0 = time(0);
            for (size_t k = 0; k < h->cases.size() + h->tapes.size(); ++k) {
                arm_cpu(t.cpu_s); G g(sh);
                if (k < h->cases.size()) g.s = G::mix(h->seed ^ (h->cases[k] * 0x9e3779b97f4a7c15ull)); else { g.replaying = true; g.in = h->tapes[k - h->cases.size()]; }
                try { run_case(g, t); } catch (Failure&) {} catch (Discard&) {}
                if (limit_s && time(0) - t0 > limit_s) _exit(0);
            }
            sh->tape_len = 0; sh->status = 0; sh->msg[0] = 0; sh->desc[0] = 0;
            if (!keep && ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
        }
        arm_cpu(t.cpu_s);
        G g(sh); g.replaying = true; g.in = tape;
        try { run_case(g, t); sh->status = 4; } catch (Failure&) { sh->status = 2; } catch (Discard&) { sh->status = 3; }
        _exit(0);
    }
    bool to; int st = wait_child(p, t.cpu_s * 6 + 30 + (h ? 120 : 0), to);
    if (sh->status == 9) return Outcome{2, ""};   // the history itself does not run
    if (used) { used->assign(sh->tape, sh->tape + sh->tape_len); }
    if (sh->status == 4) return Outcome{0, ""};
    if (sh->status == 3) return Outcome{2, ""};
    if (sh->status == 2) return Outcome{1, sh->msg};
    return Outcome{1, "crash: " + status_text(st, to, errfile)};
}

// a replay file holds the tapes of the cases before, each ended by -1, then that of the failing case
inline void write_tape(const std::string& f, const Tape& t, const std::vector<Tape>& before) { std::ofstream o(f.c_str()); for (auto& b : before) { for (uint64_t v : b) o << v << "\n"; o << "-1\n"; } for (uint64_t v : t) o << v << "\n"; }
inline Tape read_tape(const std::string& f, std::vector<Tape>& before) { std::ifstream i(f.c_str()); Tape t; std::string v; while (i >> v) if (v == "-1") { before.push_back(t); t.clear(); } else t.push_back(strtoull(v.c_str(), 0, 10)); return t; }

// a case that only fails in a process that ran others before: find few of them which are enough
inline bool find_history(Shared* sh, const Test& t, uint64_t tseed, uint64_t c, const Tape& tape, const std::string& errfile, double budget_s, std::vector<Tape>& out) {
    time_t t0 = time(0); History h; h.seed = tseed; bool found = false;
    auto fails = [&](const std::vector<uint64_t>& k) { h.cases = k; return run_tape(sh, t, tape, errfile, 0, false, &h, (int)budget_s).kind == 1; };
    std::vector<uint64_t> k;
    for (uint64_t n = 1; n <= 4096 && !found && time(0) - t0 <= budget_s; n *= 4) {
        k.clear(); for (uint64_t i = c > n ? c - n : 0; i < c; ++i) k.push_back(i);
        found = fails(k); if (n >= c) break;
    }
    if (!found) return false;
    for (size_t chunk = std::max<size_t>(1, k.size() / 2); ; chunk /= 2) {
        for (size_t i = 0; i < k.size() && time(0) - t0 <= budget_s;) {
            std::vector<uint64_t> l(k); l.erase(l.begin() + i, l.begin() + std::min(i + chunk, l.size()));
            if (fails(l)) k = l; else i += chunk;
        }
        if (chunk <= 1) break;
    }
    for (uint64_t i : k) {   // the tapes of these cases
        sh->tape_len = 0; fflush(stdout); pid_t p = fork();
        if (p == 0) { child_setup(errfile, false); arm_cpu(t.cpu_s); G g(sh); g.s = G::mix(tseed ^ (i * 0x9e3779b97f4a7c15ull)); try { run_case(g, t); } catch (Failure&) {} catch (Discard&) {} _exit(0); }
        bool to; wait_child(p, t.cpu_s * 6 + 30, to); out.push_back(Tape(sh->tape, sh->tape + sh->tape_len));
    }
    h.cases.clear(); h.tapes = out;
    return run_tape(sh, t, tape, errfile, 0, false, &h).kind == 1;
}

inline std::vector<uint64_t> shrink(Shared* sh, const Test& t, std::vector<uint64_t> best, const std::string& errfile, double budget_s, std::string& msg, const History* h = 0) {
    time_t t0 = time(0); int tries = 0;
    auto ok = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>& used) {
        if (time(0) - t0 > budget_s || tries > 3000) return false; tries++;
        Outcome o = run_tape(sh, t, c, errfile, &used, false, h); if (o.kind == 1) { msg = o.msg; return true; } return false; };
    bool progress = true;
    while (progress && time(0) - t0 <= budget_s && tries <= 3000) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size();) {
                std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + chunk);
                std::vector<uint64_t> used;
                if (ok(c, used)) { if (used.size() < best.size()) best = used; else best = c; progress = true; } else i += chunk;
                if (time(0) - t0 > budget_s || tries > 3000) break;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size(); ++i) {
            if (best[i] == 0) continue;
            std::vector<uint64_t> c(best), used; c[i] = 0;
            if (ok(c, used)) { best = c; progress = true; continue; }
            uint64_t lo = 0, hi = best[i]; int it = 0;
            while (hi - lo > 1 && it++ < 20) { uint64_t mid = lo + (hi - lo) / 2; c[i] = mid; if (ok(c, used)) { hi = mid; best = c; progress = true; } else lo = mid; }
            if (time(0) - t0 > budget_s || tries > 3000) break;
        }
    }
    return best;
}

inline std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\n': o += "\\n"; break;
    default: if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } } return o; }

inline int pbt_main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i) { std::string k = argv[i]; if (k.substr(0, 2) == "--") { if (i + 1 < argc && std::string(argv[i + 1]).substr(0, 2) != "--") a[k.substr(2)] = argv[++i]; else a[k.substr(2)] = "1"; } }
    if (a.count("list")) { for (auto& t : registry()) std::cout << t.name << "\n"; return 0; }
    const Test* t = 0; for (auto& x : registry()) if (x.name == a["test"]) t = &x;
    if (!t) { std::cerr << "no such test " << a["test"] << "\n"; return 3; }
    Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string base = a.count("out") ? a["out"] : tmpfile("out");
    std::string errfile = base + ".err";
    if (a.count("replay")) {
        History h; h.seed = 0; Tape tape = read_tape(a["replay"], h.tapes);
        Outcome o = run_tape(sh, *t, tape, errfile, 0, a.count("verbose"), h.tapes.empty() ? 0 : &h);
        std::ofstream js((base + ".json").c_str());
        js << "{\"kind\":" << o.kind << ",\"msg\":\"" << jesc(o.msg) << "\",\"desc\":\"" << jesc(sh->desc) << "\"}";
        js.close(); unlink(errfile.c_str());
        std::cout << (o.kind == 1 ? "FAIL " : o.kind == 0 ? "PASS " : "DISCARD ") << o.msg << "\n" << sh->desc << std::endl;
        return o.kind == 1 ? 1 : 0;
    }
    uint64_t seed = strtoull(a["seed"].c_str(), 0, 10); uint64_t ncase = strtoull(a["cases"].c_str(), 0, 10);
    double maxt = a.count("maxtime") ? atof(a["maxtime"].c_str()) : 60;
    double shrink_t = a.count("shrinktime") ? atof(a["shrinktime"].c_str()) : 25;
    uint64_t tseed = G::mix(seed * 1000003ull + strhash(t->name));
    struct timeval tv; gettimeofday(&tv, 0); double T0 = tv.tv_sec + tv.tv_usec * 1e-6;
    pid_t p = fork();
    if (p == 0) {
        child_setup(errfile, false);
        std::unordered_set<uint64_t> seen;
        for (uint64_t c = 0; c < ncase; ++c) {
            if ((c & 15) == 0) { gettimeofday(&tv, 0); if (tv.tv_sec + tv.tv_usec * 1e-6 - T0 > maxt) break; }
            sh->cur_case = c; arm_cpu(t->cpu_s);
            G g(sh); g.s = G::mix(tseed ^ (c * 0x9e3779b97f4a7c15ull)); sh->tape_len = 0; sh->desc[0] = 0;
            if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
            try { run_case(g, *t); } catch (Failure&) { sh->status = 2; _exit(0); } catch (Discard&) { sh->discarded = sh->discarded + 1; continue; }
            sh->cases = sh->cases + 1;
            if (g.nontriv && seen.size() < 4000000 && seen.insert(g.hash).second) {
                sh->nontrivial = sh->nontrivial + 1;
                if (sh->nsamp < NSAMP && (sh->nontrivial % 7) == 1) { strncpy(sh->samp[sh->nsamp], g.desc.c_str(), SAMPSZ - 1); sh->nsamp = sh->nsamp + 1; }
            }
            for (auto& l : g.labs) { int k = 0; for (; k < sh->nlab; ++k) if (l == sh->lab[k].name) break;
                if (k == sh->nlab) { if (k >= MAXLAB) continue; strncpy(sh->lab[k].name, l.c_str(), 71); sh->nlab = k + 1; } sh->lab[k].n = sh->lab[k].n + 1; }
        }
        sh->status = 1; _exit(0);
    }
    // watch: progress must happen within wall limit
    int st = 0; bool to = false; uint64_t last = ~0ull; time_t lastt = time(0); long us = 200;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break;
        if (sh->cur_case != last) { last = sh->cur_case; lastt = time(0); }
        if (time(0) - lastt > t->cpu_s * 6 + 30) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; }
        usleep(us); if (us < 5000) us += us / 2;
    }
    bool failed = sh->status != 1; std::string msg, desc, tapefile; size_t l0 = 0, l1 = 0;
    if (failed) {
        msg = sh->status == 2 ? std::string(sh->msg) : "crash: " + status_text(st, to, errfile);
        desc = sh->desc;
        std::vector<uint64_t> tape(sh->tape, sh->tape + sh->tape_len); l0 = tape.size();
        uint64_t cc = sh->cur_case; History h; h.seed = 0;
        Outcome o = run_tape(sh, *t, tape, errfile, 0);
        if (o.kind != 1 && cc > 0) {   // does it depend on the cases before?
            std::vector<Tape> before;
            if (find_history(sh, *t, tseed, cc, tape, errfile, 3 * shrink_t, before)) {
                h.tapes = before; std::string m2 = msg; Tape sm = shrink(sh, *t, tape, errfile, shrink_t, m2, &h); Outcome r = run_tape(sh, *t, sm, errfile, 0, false, &h);
                if (r.kind == 1) { tape = sm; msg = "after " + std::to_string(before.size()) + " other cases in the same process: " + r.msg; desc = sh->desc; } else h.tapes.clear();
            }
        }
        if (o.kind == 1) { std::string m2 = o.msg; tape = shrink(sh, *t, tape, errfile, shrink_t, m2);
            o = run_tape(sh, *t, tape, errfile, 0); if (o.kind == 1) { msg = o.msg; desc = sh->desc; } }
        l1 = tape.size(); tapefile = base + ".tape"; write_tape(tapefile, tape, h.tapes);
    }
    gettimeofday(&tv, 0);
    std::ofstream js((base + ".json").c_str());
    js << "{\"test\":\"" << t->name << "\",\"seed\":" << seed << ",\"cases\":" << sh->cases << ",\"nontrivial\":" << sh->nontrivial << ",\"discarded\":" << sh->discarded
       << ",\"wall\":" << (tv.tv_sec + tv.tv_usec * 1e-6 - T0) << ",\"failed\":" << (failed ? "true" : "false") << ",\"msg\":\"" << jesc(msg) << "\",\"desc\":\"" << jesc(desc)
       << "\",\"tape\":\"" << jesc(tapefile) << "\",\"tape_len\":[" << l0 << "," << l1 << "],\"labels\":{";
    for (int k = 0; k < sh->nlab; ++k) js << (k ? "," : "") << "\"" << jesc(sh->lab[k].name) << "\":" << sh->lab[k].n;
    js << "},\"samples\":[";
    for (int k = 0; k < sh->nsamp; ++k) js << (k ? "," : "") << "\"" << jesc(sh->samp[k]) << "\"";
    js << "]}"; js.close(); unlink(errfile.c_str());
    if (failed) std::cout << "FAIL " << t->name << ": " << msg << "\n" << desc << "\n";
    return failed ? 1 : 0;
}
} // namespace pbt
