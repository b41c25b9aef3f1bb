// P38 a save that returns has written everything: writes fail after any number of bytes
#include "func_tree.h"
#include "exr_gen.h"
#include <core/rational_function.h>
#include <sys/resource.h>
#include <signal.h>
#include <sys/stat.h>
typedef std::function<void(const std::string&)> Saver;
struct Saved { bool ok; std::string why; };
// run the save while files cannot grow beyond n bytes; n < 0: no limit
static Saved limited(const Saver& s, const std::string& f, long n) {
    struct rlimit old, cur; getrlimit(RLIMIT_FSIZE, &old); cur = old; signal(SIGXFSZ, SIG_IGN); if (n >= 0) { cur.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &cur); }
    Saved r; r.ok = true; try { s(f); } catch (std::ios_base::failure& e) { r.ok = false; r.why = e.what(); } catch (...) { setrlimit(RLIMIT_FSIZE, &old); std::cout.clear(); std::cerr.clear(); throw; }
    setrlimit(RLIMIT_FSIZE, &old); std::cout.clear(); std::cerr.clear(); clearerr(stdout); clearerr(stderr); return r;
}
static void judge_saves(G& g, const Saver& save, const char* ext, int tries, bool whole_only = false) {
    std::string A = pbt::tmpfile(std::string("a") + ext), B = pbt::tmpfile(std::string("b") + ext); unlink(A.c_str());
    Saved r = limited(save, A, -1); CHECK(r.ok, "the save fails: " << r.why); std::string full = pbt::slurp(A); unlink(A.c_str()); long N = full.size(); CHECK(N > 0, "nothing saved");
    for (int i = 0; i < tries; ++i) {
        // what is at the destination before
        int was = g.below(4); unlink(B.c_str()); if (was == 1) pbt::spew(B, std::string(N + g.range(1, 5000), '#')); else if (was == 2) pbt::spew(B, full.substr(0, g.below(N))); else if (was == 3) pbt::spew(B, "");
        int kind = g.below(8); long lim = kind == 0 ? 0 : kind == 1 ? N - 1 : kind == 2 ? N : kind == 3 ? N + g.range(1, 10000) : kind == 4 ? std::max(0L, N - g.range(1, 4096)) : (long)g.below(N);
        r = limited(save, B, lim); std::string got = pbt::slurp(B); g.note("size", N); g.note("limit", lim);
        if (r.ok) CHECK(got == full, "the save of " << N << " bytes returns normally, but the file has " << got.size() << " bytes " << (got == full.substr(0, got.size()) ? "(a prefix)" : "(other content)") << " when writes fail after " << lim << " bytes");
        else CHECK(lim < N, "the save fails (" << r.why << ") although there is room for " << lim << " bytes out of " << N);
        g.label(r.ok ? "complete" : "reported"); }
    unlink(B.c_str());
    if (g.chance(1, 4) && std::string(ext).empty()) { r = limited(save, "/dev/full", -1); CHECK(!r.ok, "saving to a full device returns normally"); g.label("full device"); }
    if (g.chance(1, 8)) { r = limited(save, pbt::tmpfile("missing") + "/x" + ext, -1); CHECK(!r.ok, "saving into a missing directory returns normally"); }
    r = limited(save, A, -1); CHECK(r.ok && pbt::slurp(A) == full, "saving again gives another file"); unlink(A.c_str()); g.nontrivial();
}
PROPERTY(save_dataset) {
    Model m; gen_params(g, m); m.kind = g.below(3); int n = g.chance(1, 12) ? 0 : g.chance(1, 6) ? g.range(50, 400) : g.range(1, 20); for (int i = 0; i < n; ++i) { V r; for (int k = 0; k < m.cols(); ++k) r.push_back(g.real(-10, 10)); m.rows.push_back(r); }
    ptr<vertical_segment> d = build(m); g.note("rows", n); judge_saves(g, [&](const std::string& f) { d->save(f); }, "", 6);
}
PROPERTY(save_function) {
    Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); Fun F = make(g, t, true); label_tree(g, t); int e = g.below(6); static const char* ex[] = {"", "", "", "alta", "C++", "matlab"};
    if (e == 5 && t.dp == params::CARTESIAN) e = 0; arguments a = arguments::create_arguments(F.cmd + (*ex[e] ? std::string(" --export ") + ex[e] : "")); g.label(*ex[e] ? ex[e] : "default");
    judge_saves(g, [&](const std::string& f) { F.f->save(f, a); }, "", 6);
}
PROPERTY(save_rational) {
    static const char* plug[] = {"", "--func rational_function_legendre", "--func rational_function_chebychev", "--func rational_function_cosine"}; int b = g.below(4), nX = g.range(1, 4), nY = g.range(1, 3), np = g.range(1, 12), nq = g.range(1, 12);
    arguments a = arguments::create_arguments(plug[b]); ptr<function> f(plugins_manager::get_function(a, parameters(nX, nY, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT))); CHECK(f, "no function"); rational_function* r = dynamic_cast<rational_function*>(f.get());
    f->setMin(tovec(V(nX, -1.0))); f->setMax(tovec(V(nX, 1.0))); r->setSize(np, nq); for (int y = 0; y < nY; ++y) { V p, q; for (int i = 0; i < np; ++i) p.push_back(g.uniform(-2, 2)); for (int i = 0; i < nq; ++i) q.push_back(g.uniform(0.5, 2)); r->get(y)->resize(np, nq); r->get(y)->update(tovec(p), tovec(q)); }
    if (b == 0 && g.chance(1, 3)) a = arguments::create_arguments("--export C++"); g.note("func", std::string(plug[b])); judge_saves(g, [&](const std::string& o) { f->save(o, a); }, "", 6);
}
PROPERTY(save_table) {
    int k = g.below(4); ptr<data> d; const char* ext = ""; g.note("kind", k); g.label("kind " + std::to_string(k)); std::string f = pbt::tmpfile(k == 0 ? "s.exr" : "t.dat");
    if (k == 0) { int W = g.range(1, 40), H = g.range(1, 40); std::vector<std::vector<float>> ch(3, std::vector<float>(W * H)); for (auto& c : ch) for (float& v : c) v = g.uniform(0, 3); pbt::spew(f, exr_bytes(W, H, ch, {"B", "G", "R"})); d = plugins_manager::load_data(f, "data_brdf_slice", arguments()); ext = ".exr"; }
    else if (k == 1) { d = plugins_manager::get_data("data_grid", 1, parameters(2, 1, params::RUSIN_TH_TD, params::INV_STERADIAN), arguments::create_arguments("--param RUSIN_TH_TD --grid-size [" + std::to_string(g.range(1, 14)) + "," + std::to_string(g.range(1, 14)) + "]")); CHECK(d, "no grid"); for (int i = 0; i < d->size(); ++i) { vec r = d->get(i); r[r.size() - 1] = g.uniform(0, 2); d->set(i, r); } }
    else { Model m; m.nx = g.range(1, 4); m.ny = g.range(1, 3); m.kind = 0; m.in = params::UNKNOWN_INPUT; m.out = params::UNKNOWN_OUTPUT; int n = g.range(1, 60); for (int i = 0; i < n; ++i) { V r; for (int c = 0; c < m.cols(); ++c) r.push_back(g.uniform(-3, 3)); m.rows.push_back(r); }
        ptr<vertical_segment> s = build(m); s->save(f); d = plugins_manager::load_data(f, k == 2 ? "data_rbf" : "", arguments()); }
    unlink(f.c_str()); CHECK(d, "no data"); judge_saves(g, [&](const std::string& o) { d->save(o); }, ext, 5);
}
PROPERTY(save_large) {
    bool merl = g.chance(1, 4), exr = g.flip(); ptr<data> d = merl ? plugins_manager::get_data("data_merl", 1, parameters(3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR), arguments()) : plugins_manager::get_data("data_utia", 1, parameters(4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR), arguments()); CHECK(d, "no data");
    g.label(merl ? "merl" : exr ? "utia exr" : "utia binary"); vec r(merl ? 6 : 7); uint64_t s = g.bits(); for (int i = 0; i < d->size(); ++i) { r.setZero(); for (int c = 0; c < 3; ++c) { s = G::mix(s + i); r[r.size() - 3 + c] = double(s >> 11) / 9007199254740992.0; } d->set(i, r); }
    judge_saves(g, [&](const std::string& o) { d->save(o); }, merl || !exr ? ".bin" : ".exr", 2);
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
