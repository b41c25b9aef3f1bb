// P18 bounded rational fits, P20 least-squares rational fits, P35 parallel fits
#include "alta_gen.h"
#include <core/rational_function.h>
#include <core/fitter.h>
#include <Eigen/Dense>
using namespace ag;
typedef std::vector<double> V;
static vec tovec(const V& v) { vec r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
static const char* plug[] = {"", "rational_function_legendre", "rational_function_chebychev"};

struct Case { int nx, ny, np, nq, basis; bool exact; std::vector<V> x, y, lo, hi; std::vector<V> A, B; std::string func; double scale; params::input in; };
static rational_function* make_fun(const Case& c) { function* f = plugins_manager::get_function(arguments::create_arguments(c.func), parameters(c.nx, c.ny, c.in, params::UNKNOWN_OUTPUT)); rational_function* r = dynamic_cast<rational_function*>(f); CHECK(r, "no rational function"); return r; }
static void bounds_of(const Case& c, vec& lo, vec& hi) { lo = hi = tovec(c.x[0]); for (const V& p : c.x) for (int k = 0; k < c.nx; ++k) { lo[k] = std::min(lo[k], p[k]); hi[k] = std::max(hi[k], p[k]); } }
static void gen_points(G& g, Case& c, int n) {
    V a(c.nx), w(c.nx); for (int k = 0; k < c.nx; ++k) { a[k] = g.pick(V{0.0, -1.0, 2.5}); w[k] = g.pick(V{1.0, 0.5, 2.0, 10.0}); }
    bool grid = c.nx == 1 && g.flip(); c.x.clear();
    for (int i = 0; i < n; ++i) { V p(c.nx); for (int k = 0; k < c.nx; ++k) p[k] = a[k] + w[k] * (grid ? i / double(n - 1) : g.unit()); c.x.push_back(p); }
}
// samples of a rational function with a denominator in [0.3, 1.7] on the domain of the samples
static void gen_exact(G& g, Case& c) {
    ptr<rational_function> t(make_fun(c)); vec lo, hi; bounds_of(c, lo, hi); for (int k = 0; k < c.nx; ++k) if (!(hi[k] > lo[k] + 1e-3)) discard();
    t->setMin(lo); t->setMax(hi); t->setSize(c.np, c.nq); c.scale = g.pick(V{1.0, 0.05, 20.0}); c.A.clear(); c.B.clear();
    for (int k = 0; k < c.ny; ++k) {
        V a(c.np), b(c.nq); for (double& v : a) v = c.scale * g.uniform(-1, 1); if (fabs(a[0]) < 0.2 * c.scale) a[0] = 0.2 * c.scale;
        b[0] = 1; double s = 0; for (int i = 1; i < c.nq; ++i) { b[i] = g.uniform(-1, 1); s += fabs(b[i]); } if (s > 0) for (int i = 1; i < c.nq; ++i) b[i] *= g.uniform(0.1, 0.7) / s;
        c.A.push_back(a); c.B.push_back(b); t->get(k)->update(tovec(a), tovec(b));
    }
    c.y.clear(); for (const V& p : c.x) { vec v = t->value(tovec(p)); c.y.push_back(V(v.data(), v.data() + c.ny)); }
}
static Case gen(G& g, int maxc, int maxn, bool exact, int many = 0) {   // one case in twelve has up to `many` samples
    Case c; c.nx = g.chance(1, 2) ? 1 : (int)g.range(1, 3); c.ny = g.chance(1, 2) ? 1 : (int)g.range(1, 3); c.np = g.range(1, maxc); c.nq = g.range(1, maxc); c.basis = g.below(3); c.exact = exact; c.in = params::UNKNOWN_INPUT;
    c.func = plug[c.basis][0] ? std::string("--func ") + plug[c.basis] : ""; 
    int n = c.np + c.nq + 2 + g.below(maxn); if (many && g.chance(1, 12)) { n += g.below(many); g.label("many samples"); } gen_points(g, c, n); c.scale = g.pick(V{1.0, 0.05, 20.0});
    if (exact) gen_exact(g, c); else for (int i = 0; i < n; ++i) { V y(c.ny); for (double& v : y) v = c.scale * g.uniform(-1, 2); c.y.push_back(y); }
    return c;
}
static void gen_bounds(G& g, Case& c, bool generous) {
    c.lo = c.hi = c.y; bool rel = g.flip();
    for (size_t i = 0; i < c.y.size(); ++i) for (int k = 0; k < c.ny; ++k) { double w = generous ? g.uniform(0.1, 0.4) : g.pick(V{0.02, 0.2, 1.0, 3.0}); double mg = rel && generous ? 0.2 * c.scale + fabs(c.y[i][k]) : c.scale; c.lo[i][k] -= w * mg; c.hi[i][k] += w * mg * (g.flip() ? 1.0 : 1.3); }
}
static ptr<vertical_segment> make_data(const Case& c, bool vs = true) {
    int cols = c.nx + (vs ? 3 : 1) * c.ny; double* d = new double[c.x.size() * cols]; double* r = d;
    for (size_t i = 0; i < c.x.size(); ++i, r += cols) { for (int k = 0; k < c.nx; ++k) r[k] = c.x[i][k]; for (int k = 0; k < c.ny; ++k) { r[c.nx + k] = c.y[i][k]; if (vs) { r[c.nx + c.ny + k] = c.lo[i][k]; r[c.nx + 2 * c.ny + k] = c.hi[i][k]; } } }
    return ptr<vertical_segment>(new vertical_segment(parameters(c.nx, c.ny, c.in, params::UNKNOWN_OUTPUT), c.x.size(), std::shared_ptr<double>(d, noop_delete), vs ? vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL : vertical_segment::NO_CONFIDENCE_INTERVAL));
}
static void note(G& g, const Case& c) {
    g.note("nx", c.nx); g.note("ny", c.ny); g.note("np", c.np); g.note("nq", c.nq); g.note("func", c.func); g.note("n", c.x.size()); g.label(c.exact ? "representable" : "arbitrary"); std::string s; for (size_t i = 0; i < c.x.size() && i < 12; ++i) { V r = c.x[i]; r.insert(r.end(), c.y[i].begin(), c.y[i].end()); if (c.lo.size()) { r.insert(r.end(), c.lo[i].begin(), c.lo[i].end()); r.insert(r.end(), c.hi[i].begin(), c.hi[i].end()); } s += fmtv(r); } g.note("rows", s);
}
struct Fit { bool ok; ptr<rational_function> r; };
static Fit fit(const Case& c, const std::string& plugin, const std::string& opts, bool vs = true) {
    std::streambuf* o = std::cout.rdbuf(nullptr); std::streambuf* e = std::cerr.rdbuf(nullptr);
    Fit r; arguments a = arguments::create_arguments(opts + " " + c.func); ptr<fitter> f = plugins_manager::get_fitter(plugin); 
    if (f) { f->set_parameters(a); r.r.reset(make_fun(c)); ptr<function> fn = r.r; ptr<data> d = make_data(c, vs); try { r.ok = f->fit_data(d, fn, a); } catch (...) { std::cout.rdbuf(o); std::cerr.rdbuf(e); throw; } }
    std::cout.rdbuf(o); std::cerr.rdbuf(e); CHECK(f, "no fitter " << plugin);
    if (r.ok) for (int k = 0; k < c.nx; ++k) {    // the fit is defined over the domain of its data (its file records it, and some bases are scaled to it)
        double lo = c.x[0][k], hi = lo; for (auto& x : c.x) { lo = std::min(lo, x[k]); hi = std::max(hi, x[k]); } vec m = r.r->min(), M = r.r->max(); CHECK(m.size() == c.nx && M.size() == c.nx && m[k] == lo && M[k] == hi, "domain of coordinate " << k << " of the fit: [" << (m.size() > k ? fmt(m[k]) : "none") << "," << (M.size() > k ? fmt(M[k]) : "none") << "] for data in [" << fmt(lo) << "," << fmt(hi) << "]"); }
    return r;
}
static void sizes(const Fit& f, int& np, int& nq) { np = f.r->get(0)->getP().size(); nq = f.r->get(0)->getQ().size(); }
// every sample of every channel inside its bounds, denominator of one sign (the parallel fitter constrains the sign only at the samples it starts from)
static void check_bounds(const Case& c, const Fit& f, bool one_sign = true) {
    for (int k = 0; k < c.ny; ++k) { int sign = 0;
        for (size_t i = 0; i < c.x.size(); ++i) {
            vec v = f.r->value(tovec(c.x[i])); double q = f.r->get(k)->q(tovec(c.x[i]))[0], tol = 1e-6 * (c.hi[i][k] - c.lo[i][k]);
            CHECK(v[k] >= c.lo[i][k] - tol && v[k] <= c.hi[i][k] + tol, "success reported but sample " << i << " channel " << k << " is " << fmt(v[k]) << " outside [" << fmt(c.lo[i][k]) << ", " << fmt(c.hi[i][k]) << "]");
            int s = q > 0 ? 1 : q < 0 ? -1 : 0; CHECK(s && (!sign || s == sign || !one_sign), "denominator changes sign or vanishes at sample " << i << ": " << fmt(q)); sign = s;
        } }
}
static std::string S(const char* k, double v) { return std::string(" --") + k + " " + fmt(v); }
static std::string schedule(G& g) { std::string s; int k = g.below(4); if (k == 1) s = " --scheduling-mode SlidingWindows --scheduling-grow-factor 2"; if (k == 2) s = " --scheduling-mode WorstSetFirst"; if (k == 3) s = " --scheduling-mode WorstFirst"; if (k < 2 && g.flip()) s += S("scheduling-chunk-size", g.range(1, 90)); return s; }

PROPERTY(quadprog_bounds) {
    Case c = gen(g, 6, 60, g.flip(), 500); bool generous = c.exact; gen_bounds(g, c, generous); note(g, c);
    std::string o = S("np", c.np) + S("nq", c.nq); bool ls = g.chance(1, 4); if (ls) o += " --add-ls-energy"; if (g.chance(1, 4)) o += S("delta", g.pick(V{0.5, 2.0, 10.0})); std::string sch = schedule(g); g.note("opts", o + sch); g.nontrivial(c.np + c.nq > 2);
    Fit f = fit(c, "rational_fitter_quadprog", o + sch); g.label(f.ok ? "success" : "failure");
    if (c.exact && !ls) CHECK(f.ok, "a representable data set with wide bounds is not fitted");
    if (f.ok) { int np, nq; sizes(f, np, nq); CHECK(np == c.np && nq == c.nq, "size " << np << "," << nq); check_bounds(c, f); }
}
PROPERTY(quadprog_schedules_agree) {
    Case c = gen(g, 5, 40, true, 300); gen_bounds(g, c, true); note(g, c); std::string o = S("np", c.np) + S("nq", c.nq), sch = schedule(g), sch2 = schedule(g); if (g.chance(1, 4)) sch2 += S("boundary-constraint", 0.5); g.note("a", sch); g.note("b", sch2); g.nontrivial(sch != sch2);
    Fit a = fit(c, "rational_fitter_quadprog", o + sch), b = fit(c, "rational_fitter_quadprog", sch2 + o); CHECK(a.ok && b.ok, "a representable data set with wide bounds is not fitted"); check_bounds(c, a); check_bounds(c, b);
    for (size_t i = 0; i < c.x.size(); ++i) { vec u = a.r->value(tovec(c.x[i])), v = b.r->value(tovec(c.x[i])); for (int k = 0; k < c.ny; ++k) CHECK(fabs(u[k] - v[k]) <= 1e-5 * (c.hi[i][k] - c.lo[i][k]), "the fit depends on the schedule: " << fmt(u[k]) << " and " << fmt(v[k])); }
}
// the sizes are tried in order and the first that fits is returned
PROPERTY(quadprog_smallest) {
    Case c = gen(g, 5, 30, true); gen_bounds(g, c, true); note(g, c); int np0 = g.range(1, c.np), nq0 = g.range(1, c.nq); std::string o = S("np", c.np) + S("nq", c.nq) + S("min-np", np0) + S("min-nq", nq0); g.note("opts", o); g.nontrivial(np0 < c.np || nq0 < c.nq);
    Fit f = fit(c, "rational_fitter_quadprog", o); CHECK(f.ok, "a representable data set with wide bounds is not fitted"); check_bounds(c, f); int np, nq; sizes(f, np, nq);
    int a = np0, b = nq0; while (a != np || b != nq) {
        CHECK(a < c.np || b < c.nq, "size " << np << "," << nq << " is not one of those asked for");
        Case d = c; d.np = a; d.nq = b; Fit h = fit(d, "rational_fitter_quadprog", S("np", a) + S("nq", b)); CHECK(!h.ok, "size " << a << "," << b << " fits but " << np << "," << nq << " was returned"); if (a < c.np) ++a; if (b < c.nq) ++b; }
}
PROPERTY(parallel_bounds) {
    int m = g.chance(1, 12) ? 160 : 40; if (g.chance(1, 40)) m = 600; Case c = gen(g, 4, m, g.chance(3, 4)); bool vs = g.chance(3, 4); 
    if (vs) gen_bounds(g, c, c.exact); else { for (auto& y : c.y) for (double& v : y) if (fabs(v) < 0.05 * c.scale) { if (c.exact) discard(); v = 0.05 * c.scale; } c.lo = c.hi = c.y; }
    double dt = g.pick(V{0.1, 0.3}); if (!vs) for (size_t i = 0; i < c.y.size(); ++i) for (int k = 0; k < c.ny; ++k) { c.lo[i][k] -= dt * fabs(c.y[i][k]); c.hi[i][k] += dt * fabs(c.y[i][k]); }
    note(g, c); int N = c.np + c.nq, N0 = g.chance(1, 2) ? N : (int)g.range(2, N); std::string o = S("np", N) + S("min-np", N0) + S("nb-cores", g.range(1, 4)); if (!vs) o += S("dt", dt); if (g.chance(1, 4)) o += S("nb-starting-points", g.range(2, 30)); g.nontrivial(N > 2);
    int step = 1; if (g.chance(1, 4)) { step = g.range(2, 3); if (c.exact) while ((N - N0) % step) ++N0; o = S("np", N) + S("min-np", N0) + S("np-step", step) + o.substr(S("np", N).size() + o.substr(S("np", N).size()).find(" --nb-cores")); g.label("stepping"); } g.note("opts", o);
    Fit f = fit(c, "rational_fitter_parallel", o, vs); g.label(f.ok ? "success" : "failure"); g.label(vs ? "bounded" : "plain");
    if (c.exact) CHECK(f.ok, "a representable data set with wide bounds is not fitted");
    if (f.ok) { int np, nq; sizes(f, np, nq); CHECK(np + nq >= N0 && np + nq <= N, "size " << np << "," << nq << " outside the range asked for"); CHECK((np + nq - N0) % step == 0, "size " << np << "," << nq << " is not one of the sizes asked for"); check_bounds(c, f, false); }
}
// P35: any number of threads gives the outcome of one thread
PROPERTY(parallel_threads) {
    bool many = g.chance(1, 12); Case c = gen(g, 4, many ? 300 : 30, g.chance(3, 4)); gen_bounds(g, c, c.exact); note(g, c); int N = c.np + c.nq + (int)g.range(0, many ? 6 : 4), N0 = g.flip() ? N : (int)g.range(2, N); std::string o = S("np", N) + S("min-np", N0); if (g.chance(1, 4)) o += " --use_delta"; if (g.chance(1, 5)) o += S("np-step", g.range(2, 3)); if (many) { o += S("nb-starting-points", g.range(50, 300)); g.label("many samples"); } g.note("opts", o); g.nontrivial(N > 3);
    Fit a = fit(c, "rational_fitter_parallel", o + S("nb-cores", 1)); int np, nq; if (a.ok) { sizes(a, np, nq); check_bounds(c, a, false); } g.label(a.ok ? "success" : "failure");
    time_t t0 = time(0);   // a replayed case meets other schedules: repeat it
    for (int rep = 0; rep < (g.replaying ? 200 : 3) && time(0) - t0 < 3; ++rep) { int th = rep < 3 ? g.range(2, 8) : 2 + rep % 7; Fit b = fit(c, "rational_fitter_parallel", o + S("nb-cores", th));
        CHECK(a.ok == b.ok, "one thread " << (a.ok ? "fits" : "fails") << ", " << th << " threads " << (b.ok ? "fit" : "fail")); if (!b.ok) continue;
        int np2, nq2; sizes(b, np2, nq2); check_bounds(c, b, false);
        CHECK(np + nq == np2 + nq2, "size " << np2 + nq2 << " with " << th << " threads, " << np + nq << " with one");
        double ea = 0, eb = 0; for (size_t i = 0; i < c.x.size(); ++i) { vec u = a.r->value(tovec(c.x[i])), v = b.r->value(tovec(c.x[i])); for (int k = 0; k < c.ny; ++k) { ea += pow(u[k] - c.y[i][k], 2); eb += pow(v[k] - c.y[i][k], 2); } }
        ea = sqrt(ea / c.x.size()); eb = sqrt(eb / c.x.size()); CHECK(fabs(ea - eb) <= 1e-7 * (c.scale + ea), "error " << fmt(eb) << " with " << th << " threads, " << fmt(ea) << " with one"); }
}
// P20
static double residual(const Case& c, const Fit& f, int k, V& s) {   // ||p(x_i) - y_i q(x_i)|| / ||(p,q)||
    Eigen::VectorXd co(c.np + c.nq); co << f.r->get(k)->getP(), f.r->get(k)->getQ(); double r = 0; for (size_t i = 0; i < c.x.size(); ++i) { double p = f.r->get(k)->p(tovec(c.x[i]))[0], q = f.r->get(k)->q(tovec(c.x[i]))[0]; r += pow(p - c.y[i][k] * q, 2); s.push_back(q); } return sqrt(r) / co.norm();
}
PROPERTY(eigen_fit) {
    Case c = gen(g, 5, 40, g.chance(2, 3), 3000); gen_bounds(g, c, true); note(g, c); g.nontrivial(c.np + c.nq > 2); Fit f = fit(c, "rational_fitter_eigen", S("np", c.np) + S("nq", c.nq));
    CHECK(f.ok, "the fit failed"); int np, nq; sizes(f, np, nq); CHECK(np == c.np && nq == c.nq, "size " << np << "," << nq);
    for (int k = 0; k < c.ny; ++k) {
        Eigen::MatrixXd C(c.x.size(), np + nq); for (size_t i = 0; i < c.x.size(); ++i) for (int j = 0; j < np + nq; ++j) C(i, j) = j < np ? f.r->get(k)->p(tovec(c.x[i]), j) : -c.y[i][k] * f.r->get(k)->q(tovec(c.x[i]), j - np);
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(C); const auto& sv = svd.singularValues(); int n = np + nq; double smin = sv(n - 1), smax = sv(0);
        if (n > 1 && sv(n - 2) < 1e-3 * smax) discard();   // not determined to working accuracy: the fitter solves the squared system
        V qs; double r = residual(c, f, k, qs); double b0 = f.r->get(k)->getQ()[0]; if (!std::isfinite(b0) || !std::isfinite(r)) { if (c.exact) CHECK(false, "coefficients are not finite"); discard(); }
        CHECK(r * r <= smin * smin * (1 + 1e-6) + 1e-12 * smax * smax, "linearised error " << fmt(r) << ", the least is " << fmt(smin));
        if (c.exact) for (size_t i = 0; i < c.x.size(); ++i) { double v = f.r->value(tovec(c.x[i]))[k]; CHECK(fabs(v - c.y[i][k]) <= 1e-6 * c.scale, "sample " << i << " is fitted by " << fmt(v) << " expected " << fmt(c.y[i][k])); }
    }
}
PROPERTY(leastsquare_fit) {
    Case c = gen(g, 5, 40, false, 3000); bool one = g.chance(2, 3); int it = g.range(1, 3);
    if (one) { c.exact = true; (g.flip() ? c.np : c.nq) = 1; gen_exact(g, c); if (c.np == 1) for (auto& y : c.y) for (double v : y) if (fabs(v) < 1e-3 * c.scale) discard(); }
    gen_bounds(g, c, true); note(g, c); g.nontrivial(c.np + c.nq > 2); std::string o = S("np", c.np) + S("nq", c.nq); if (it > 1) o += S("max-iter", it); Fit f = fit(c, "rational_fitter_leastsquare", o);
    CHECK(f.ok, "the fit failed"); int np, nq; sizes(f, np, nq); CHECK(np == c.np && nq == c.nq, "size " << np << "," << nq);
    for (int k = 0; k < c.ny; ++k) {
        double num = 0, ymax = 0; bool bad = false; Eigen::MatrixXd A(c.x.size(), np); Eigen::VectorXd r(c.x.size()); double qmin = 1e300, qmax = 0;
        for (size_t i = 0; i < c.x.size(); ++i) { double q = f.r->get(k)->q(tovec(c.x[i]))[0]; qmin = std::min(qmin, fabs(q)); qmax = std::max(qmax, fabs(q)); for (int j = 0; j < np; ++j) A(i, j) = f.r->get(k)->p(tovec(c.x[i]), j) / q; double v = f.r->value(tovec(c.x[i]))[k]; r[i] = v - c.y[i][k]; ymax = std::max(ymax, fabs(c.y[i][k])); if (!std::isfinite(v)) bad = true; }
        if (bad || qmin < 1e-4 * qmax) { CHECK(!c.exact, "a representable data set gives a vanishing denominator"); continue; }
        if (c.exact) for (size_t i = 0; i < c.x.size(); ++i) CHECK(fabs(r[i]) <= 1e-6 * ymax, "sample " << i << " is off by " << fmt(r[i]));
        // the numerator is the least-squares one for the denominator found
        Eigen::VectorXd gr = A.transpose() * r; for (int j = 0; j < np; ++j) { num = A.col(j).norm() * (r.norm() + ymax); CHECK(fabs(gr[j]) <= 1e-7 * num, "the error is not stationary in coefficient " << j << ": " << fmt(gr[j]) << " of " << fmt(num)); }
    }
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
