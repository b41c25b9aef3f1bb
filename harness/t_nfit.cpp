// P21 nonlinear fitters: nonlinear_fitter_eigen, nonlinear_fitter_ceres, nonlinear_fitter_nlopt
#include "func_tree.h"
#include <core/fitter.h>
#include <Eigen/Dense>

struct Which { const char* plugin; std::vector<const char*> opts; };
static const std::vector<Which>& fitters() {
    static const std::vector<Which> v = {
        {"nonlinear_fitter_eigen", {""}}, {"nonlinear_fitter_ceres", {"", " --ceres-max-num-iterations 20", " --ceres-factorization normal-cholesky", " --ceres-function-tolerance 1e-12 --ceres-gradient-tolerance 1e-14 --ceres-parameter-tolerance 1e-12"}},
        // nlopt stops on the relative change of every parameter only, which a parameter that goes to zero never meets: always set a limit
        {"nonlinear_fitter_nlopt", {" --nlop-max-num-iterations 1000", " --nlopt-optimizer local-sqp --nlop-max-num-iterations 1000", " --nlopt-optimizer local-mma --nlop-max-num-iterations 100", 
                                    " --nlopt-optimizer local-Nelder-Mead --nlop-max-num-iterations 200", " --nlopt-optimizer local-spblx --nlop-max-num-iterations 200", " --nlop-max-num-iterations 5", " --nlop-relative-function-tolerance 1e-9 --nlop-max-num-iterations 1000"}}};
    return v;
}
static double sq_error(const function* f, const ptr<data>& d, bool cosine, const nonlinear_function* = 0) {
    double e = 0; int nx = d->parametrization().dimX();
    for (int s = 0; s < d->size(); ++s) {
        vec r = d->get(s); V x(std::max(6, f->parametrization().dimX())); double c[6]; params::input in = d->parametrization().input_parametrization();
        if (in == f->parametrization().input_parametrization()) for (int k = 0; k < nx; ++k) x[k] = r[k]; else params::convert(&r[0], in, f->parametrization().input_parametrization(), &x[0]);
        x.resize(f->parametrization().dimX()); double w = 1; if (cosine) { params::convert(&r[0], in, params::CARTESIAN, c); w = c[5]; }
        V y = vals(f, x); for (size_t i = 0; i < y.size(); ++i) { double t = r[nx + i] - w * y[i]; e += t * t; } }
    return e;
}
static void leaves(nonlinear_function* f, std::vector<nonlinear_function*>& out) {
    if (compound_function* c = dynamic_cast<compound_function*>(f)) { for (unsigned i = 0; i < c->size(); ++i) leaves((*c)[i], out); }
    else if (product_function* p = dynamic_cast<product_function*>(f)) { leaves(p->first(), out); leaves(p->second(), out); }
    else out.push_back(f);
}
static V pvec(const vec& v) { return V(v.data(), v.data() + v.size()); }
static ptr<data> samples(G& g, const Tree& t, int n) {
    Model m; m.nx = t.ddim; m.ny = t.nY; m.kind = 0; m.in = t.dp; m.out = t.dout;
    for (int i = 0; i < n; ++i) { double a = g.uniform(0.05, 1.45), b = g.uniform(0.05, 1.45), p = g.uniform(-3, 3), q = g.uniform(-3, 3), c[6], x[6];
        c[0] = sin(a) * cos(q); c[1] = sin(a) * sin(q); c[2] = cos(a); c[3] = sin(b) * cos(p); c[4] = sin(b) * sin(p); c[5] = cos(b);
        params::convert(c, params::CARTESIAN, t.dp, x); V r(x, x + t.ddim); for (int j = 0; j < t.nY; ++j) r.push_back(g.uniform(0, 3)); m.rows.push_back(r); }
    return build(m);
}
struct Setup { ptr<function> f; nonlinear_function* nl; };
static Setup create(const arguments& a, const ptr<data>& d, bool boot) {
    Setup s; function* f = plugins_manager::get_function(a, d->parametrization()); CHECK(f, "no function"); s.f = ptr<function>(f); s.nl = dynamic_cast<nonlinear_function*>(f); CHECK(s.nl, "not a nonlinear function");
    if (boot) { s.f->setMin(d->min()); s.f->setMax(d->max()); s.nl->bootstrap(d, a); } return s;
}
static bool has(Tree& t, Kind k) { for (auto& q : parts(t)) if (q.p->k == k) return true; return false; }
// shared by the two properties over real models
struct Run { Tree t; std::string cmd; arguments args; ptr<data> d; Setup start, fit; bool ok, cosine; double E0, E1; V p0, p1; const Which* w; };
static void clamp_pars(V& p, const vec& lo, const vec& hi, double margin) { for (size_t i = 0; i < p.size(); ++i) { if (p[i] < lo[i] + margin) p[i] = lo[i] + margin; if (p[i] > hi[i] - margin) p[i] = hi[i] - margin; } }

static void launch(G& g, Run& r) {
    ptr<fitter> ft = plugins_manager::get_fitter(r.w->plugin); CHECK(ft, "no fitter " << r.w->plugin);
    r.start = create(r.args, r.d, true); r.p0 = pvec(r.start.nl->parameters()); r.E0 = sq_error(r.start.f.get(), r.d, r.cosine); if (!std::isfinite(r.E0)) discard();
    r.fit = create(r.args, r.d, false); ft->set_parameters(r.args); ptr<function> f = r.fit.f; r.ok = ft->fit_data(r.d, f, r.args); CHECK(f.get() == r.fit.f.get(), "the fitter replaced the function");
    if (r.ok) { vec m = r.fit.f->min(), M = r.fit.f->max(); CHECK(m.size() == r.d->min().size() && m == r.d->min() && M.size() == r.d->max().size() && M == r.d->max(), "the fit is not defined over the domain of its data"); }
    r.p1 = pvec(r.fit.nl->parameters()); r.E1 = sq_error(r.fit.f.get(), r.d, r.cosine);
}
static void judge(G& g, Run& r) {
    std::vector<nonlinear_function*> a, b; leaves(r.start.nl, a); leaves(r.fit.nl, b); CHECK(a.size() == b.size(), "structure changed"); auto ps = parts(r.t); CHECK(ps.size() == a.size(), "structure: " << a.size() << " parts");
    for (size_t i = 0; i < a.size(); ++i) if (!ps[i].free && a[i]->nbParameters()) { V x = pvec(a[i]->parameters()), y = pvec(b[i]->parameters()); for (size_t k = 0; k < x.size(); ++k) CHECK(same_bits(x[k], y[k]), "parameter " << k << " of the fixed function " << plugin(ps[i].p->k) << " changed from " << fmt(x[k]) << " to " << fmt(y[k])); g.label("fixed part"); }
    g.label(std::string(r.w->plugin).substr(17) + (r.ok ? " ok" : " failed"));
    if (!r.ok) return;
    CHECK(std::isfinite(r.E1) && r.E1 <= r.E0 * (1 + 1e-9) + 1e-15, "the squared error grew from " << fmt(r.E0) << " to " << fmt(r.E1));
    vec lo = r.fit.nl->getParametersMin(), hi = r.fit.nl->getParametersMax();
    for (size_t i = 0; i < r.p1.size(); ++i) CHECK(r.p1[i] >= lo[i] - 1e-9 * (1 + fabs(lo[i])) && r.p1[i] <= hi[i] + 1e-9 * (1 + fabs(hi[i])), "parameter " << i << " = " << fmt(r.p1[i]) << " outside its bounds [" << fmt(lo[i]) << "," << fmt(hi[i]) << "]");
    if (r.E1 < r.E0) g.nontrivial();
}
PROPERTY(never_worse) {
    Run r; r.w = &g.pick(fitters()); wide_trees = true; r.t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, r.t); label_tree(g, r.t);
    std::string opt = g.pick(r.w->opts); r.cosine = r.w == &fitters()[0] && g.chance(1, 4); if (r.cosine) opt += " --fit-with-cosine";
    r.cmd = tree_str(r.t, true) + opt; g.note("fitter", r.w->plugin); g.note("cmd", r.cmd); g.note("nY", r.t.nY); g.note("param", params::get_name(r.t.dp));
    int np = free_pars(r.t).size(); r.d = samples(g, r.t, np + (int)g.range(0, 12) + 1); r.args = arguments::create_arguments(r.cmd);
    launch(g, r); judge(g, r);
}
PROPERTY(recovers_model) {
    Run r; wide_trees = false; r.w = &fitters()[g.below(3)]; r.t = gen_tree(g, SINGLE | PRODUCT | SUM); if (has(r.t, DIFFUSE) || has(r.t, LAFORTUNE)) discard(); gen_all_pars(g, r.t); label_tree(g, r.t);
    std::string opt = r.w == &fitters()[2] ? " --nlop-relative-function-tolerance 1e-9 --nlop-max-num-iterations 3000" : r.w == &fitters()[1] ? " --ceres-function-tolerance 1e-14" : "";
    // the model that generates the data
    r.cmd = tree_str(r.t, true) + opt; int np = free_pars(r.t).size(); if (!np) discard(); r.d = samples(g, r.t, 2 * np + 6); Setup truth = create(arguments::create_arguments(r.cmd), r.d, true); V q = pvec(truth.nl->parameters());
    bool exact = g.chance(1, 4);
    const int nx = r.t.ddim; Eigen::MatrixXd J(r.d->size() * r.t.nY, np);
    for (int s = 0; s < r.d->size(); ++s) { vec row = r.d->get(s); V x(std::max(6, truth.f->parametrization().dimX())); if (r.t.dp == truth.f->parametrization().input_parametrization()) for (int k = 0; k < nx; ++k) x[k] = row[k]; else params::convert(&row[0], r.t.dp, truth.f->parametrization().input_parametrization(), &x[0]); x.resize(truth.f->parametrization().dimX());
        V y = vals(truth.f.get(), x); if (!all_finite(y)) discard(); for (int i = 0; i < r.t.nY; ++i) row[nx + i] = y[i]; r.d->set(s, row);
        vec j = truth.nl->parametersJacobian(tovec(x)); for (int i = 0; i < r.t.nY; ++i) for (int k = 0; k < np; ++k) J(s * r.t.nY + i, k) = j[i * np + k]; }
    if (!J.allFinite()) discard();
    double md = 0; for (int s = 0; s < r.d->size(); ++s) md = std::max(md, r.d->get(s).tail(r.t.nY).array().abs().maxCoeff()); if (md > 1e6 || md < 1e-3) discard();
    // start near the model
    if (!exact) for (auto& pt : parts(r.t)) if (pt.free) for (double& x : pt.p->pars) { double e = g.uniform(-0.01, 0.01); x += e * std::max(0.1, fabs(x)); }
    { vec lo = truth.nl->getParametersMin(), hi = truth.nl->getParametersMax(); V p = free_pars(r.t); for (int i = 0; i < np; ++i) if (p[i] < lo[i] || p[i] > hi[i]) discard(); for (int i = 0; i < np; ++i) if (!exact && (q[i] < lo[i] + 0.03 * std::max(0.1, fabs(q[i])) || q[i] > hi[i] - 0.03 * std::max(0.1, fabs(q[i])))) discard(); }
    r.cmd = tree_str(r.t, true) + opt; r.args = arguments::create_arguments(r.cmd); r.cosine = false; g.note("fitter", r.w->plugin); g.note("cmd", r.cmd); g.notev("model", q); g.note("nY", r.t.nY); g.note("param", params::get_name(r.t.dp)); g.label(exact ? "exact start" : "near start");
    launch(g, r); judge(g, r); g.notev("found", r.p1); g.note("E0", r.E0); g.note("E1", r.E1);
    for (int i = 0; i < np; ++i) if (exact) CHECK(close(r.p0[i], q[i], 1e-12, 1e-12), "the start is not what the user asked for: parameter " << i << " " << fmt(r.p0[i]) << " instead of " << fmt(q[i]));
    if (exact) { CHECK(r.ok || r.w == &fitters()[2], "the fit fails when started at the model"); if (r.ok) { CHECK(r.E1 <= 1e-12 * (1 + md * md) * r.d->size(), "the fit leaves the exact model, error " << fmt(r.E1)); g.nontrivial(); } return; }
    // identifiable models only: the Jacobian, in the units of the perturbation, is well conditioned
    Eigen::MatrixXd Js(J); double jn = 0; for (int k = 0; k < np; ++k) { Js.col(k) *= std::max(0.1, fabs(q[k])); jn = std::max(jn, Js.col(k).norm()); }
    Eigen::VectorXd sv = Eigen::JacobiSVD<Eigen::MatrixXd>(Js).singularValues(); if (!(sv[np - 1] > 0.02 * sv[0]) || sv[0] < 1e-2 * md) { g.label("not identifiable"); return; }
    // SLSQP starts from an identity Hessian
    if (r.w == &fitters()[2]) { double h = J.squaredNorm(); Eigen::VectorXd raw = Eigen::JacobiSVD<Eigen::MatrixXd>(J).singularValues(); if (h > 100 || h < 0.1 || raw[np - 1] < 0.1 * raw[0]) { g.label("badly scaled for SLSQP"); return; } }
    for (auto& pt : parts(r.t)) if (pt.p->k == SGD) { g.label("SGD"); return; }      // its kinks defeat any local solver
    CHECK(r.ok, "the fit fails near the model");
    g.nontrivial(); g.label("recovery judged " + std::string(r.w->plugin).substr(17));
    for (int i = 0; i < np; ++i) CHECK(fabs(r.p1[i] - q[i]) <= 1e-3 * std::max(0.1, fabs(q[i])), "parameter " << i << " is " << fmt(r.p1[i]) << ", the data was generated with " << fmt(q[i]) << ", the start was " << fmt(r.p0[i]) << "; errors " << fmt(r.E0) << " -> " << fmt(r.E1));
}
// ---- a function with known least-squares solutions that records what the fitter does with it -------------------------------------------
struct Probe : public nonlinear_function {
    V p, init, lo, hi, fixed_c; int kind; bool positive; mutable std::vector<V> sets; mutable int boots; bool* rec;
    Probe(const alta::parameters& pr, const V& i, const V& l, const V& h, int k) : nonlinear_function(pr), p(i.size(), 0.0), init(i), lo(l), hi(h), kind(k), positive(false), boots(0) {}
    double phi(const vec& x, int j) const { double t = x[0] + 0.37 * x[_parameters.dimX() - 1]; return positive ? 1.01 + cos((j + 1) * t) : kind == 0 ? cos(j * t) : pow(t, j); }
    vec value(const vec& x) const { int nY = _parameters.dimY(), n = p.size() / nY; vec r(nY); for (int i = 0; i < nY; ++i) { r[i] = 0; for (int j = 0; j < n; ++j) r[i] += p[i * n + j] * phi(x, j); } return r; }
    vec operator()(const vec& x) const { return value(x); }
    void bootstrap(const ptr<data>, const arguments&) { ++boots; p = init; }
    int nbParameters() const { return p.size(); }
    vec parameters() const { return tovec(p); }
    void setParameters(const vec& q) { p = V(q.data(), q.data() + q.size()); sets.push_back(p); }
    vec parametersJacobian(const vec& x) const { int nY = _parameters.dimY(), n = p.size() / nY, N = p.size(); vec J = vec::Zero(N * nY); for (int i = 0; i < nY; ++i) for (int j = 0; j < n; ++j) J[i * N + i * n + j] = phi(x, j); return J; }
    vec getParametersMin() const { return tovec(lo); }
    vec getParametersMax() const { return tovec(hi); }
    bool load(std::istream&) { return false; }
};
PROPERTY(linear_problem) {     // start, bounds and solution on problems whose least-squares solution is known
    const Which& w = g.pick(fitters()); std::string opt = g.pick(w.opts); int nY = g.range(1, 3), n = g.range(1, 3), N = n * nY, S = n + (int)g.range(1, 12); g.note("fitter", w.plugin); g.note("opts", opt); g.note("N", N);
    Tree t; t.nY = nY; set_dp(t, g.pick(full_params())); t.dout = params::UNKNOWN_OUTPUT; ptr<data> d = samples(g, t, S); g.note("param", params::get_name(t.dp));
    params::input fp = g.flip() ? t.dp : g.pick(full_params()); int bounded = g.below(3); V init, lo, hi;
    for (int i = 0; i < N; ++i) { double c = g.uniform(-2, 2); lo.push_back(bounded ? c - g.uniform(0.05, 2) : -HUGE_VAL); hi.push_back(bounded ? c + g.uniform(0.05, 2) : HUGE_VAL); init.push_back(c); if (bounded == 2) { lo[i] = -50; hi[i] = 60; } }
    g.notev("init", init); g.label(bounded == 0 ? "unbounded" : bounded == 1 ? "tight bounds" : "loose bounds");
    parameters pr(params::dimension(fp), nY, fp, params::UNKNOWN_OUTPUT); Probe* pb = new Probe(pr, init, lo, hi, g.below(2)); ptr<function> f(pb);
    bool cw = &w == &fitters()[0] && g.chance(1, 3); if (cw) { opt += " --fit-with-cosine"; g.label("cosine"); }
    arguments a = arguments::create_arguments("--x" + opt); ptr<fitter> ft = plugins_manager::get_fitter(w.plugin); CHECK(ft, "no fitter"); ft->set_parameters(a);
    bool ok = ft->fit_data(d, f, a); g.label(std::string(w.plugin).substr(17) + (ok ? " ok" : " failed"));
    CHECK(pb->boots == 1, "the function was initialised " << pb->boots << " times");
    bool there = !pb->sets.empty(); for (int i = 0; there && i < N; ++i) there = close(pb->sets[0][i], init[i], 1e-12, 1e-12);
    CHECK(there, "the fit starts at " << (pb->sets.empty() ? std::string("nothing") : fmtv(pb->sets[0])) << " instead of " << fmtv(init));
    V q = pb->p; for (int i = 0; i < N; ++i) if (ok) CHECK(q[i] >= lo[i] - 1e-12 && q[i] <= hi[i] + 1e-12, "parameter " << i << " = " << fmt(q[i]) << " outside [" << fmt(lo[i]) << "," << fmt(hi[i]) << "]");
    double E1 = sq_error(f.get(), d, cw); pb->p = init; double E0 = sq_error(f.get(), d, cw); if (ok) CHECK(E1 <= E0 * (1 + 1e-9) + 1e-15, "the squared error grew from " << fmt(E0) << " to " << fmt(E1));
    bool gradient_free = w.plugin == std::string("nonlinear_fitter_nlopt");
    // least-squares solution
    Eigen::MatrixXd A(S, n); Eigen::MatrixXd B(S, nY); for (int s = 0; s < S; ++s) { vec r = d->get(s); vec x(std::max(6, (int)params::dimension(fp))); params::convert(&r[0], t.dp, fp, &x[0]); vec xx = x.head(params::dimension(fp)); double wt = 1, c6[6]; if (cw) { params::convert(&r[0], t.dp, params::CARTESIAN, c6); wt = c6[5]; } for (int j = 0; j < n; ++j) A(s, j) = wt * pb->phi(xx, j); for (int i = 0; i < nY; ++i) B(s, i) = r[t.ddim + i]; }
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV); if (svd.singularValues()[n - 1] < 0.05 * svd.singularValues()[0]) { g.label("ill conditioned"); if (!ok && !bounded) CHECK(gradient_free, "the fit of a linear model fails"); return; }
    Eigen::MatrixXd X = svd.solve(B); bool inside = true, near = true; double Eopt = (A * X - B).squaredNorm(); for (int i = 0; i < nY; ++i) for (int j = 0; j < n; ++j) { double v = X(j, i); if (v < lo[i * n + j] + 1e-2 || v > hi[i * n + j] - 1e-2) inside = false; if (fabs(v) > 10) near = false; }
    if (!ok) { CHECK(gradient_free || (bounded == 1 || !inside || !near) && w.plugin == std::string("nonlinear_fitter_eigen"), "the fit of a linear model fails"); return; }
    CHECK(E1 >= Eopt * (1 - 1e-9) - 1e-12, "error below the optimum");
    bool gradient = std::string(w.plugin) != "nonlinear_fitter_nlopt" || opt == " --nlop-max-num-iterations 1000" || opt.find("sqp") != std::string::npos || opt.find("1e-9") != std::string::npos;
    if (inside && gradient && bounded != 1) { g.nontrivial(); g.label("optimum judged"); CHECK(E1 <= Eopt * (1 + 1e-2) + 1e-5 * E0, "the fit " << fmtv(q) << " has error " << fmt(E1) << ", the least-squares solution has " << fmt(Eopt) << " and the start " << fmt(E0)); }
}
PROPERTY(log_fit) {     // --log-fit minimises the difference of log(1 + y)
    int nY = g.range(1, 2), S = 4 + (int)g.range(0, 8); Tree t; t.nY = nY; set_dp(t, g.pick(full_params())); t.dout = params::UNKNOWN_OUTPUT; ptr<data> d = samples(g, t, S); g.note("nY", nY); g.note("S", S);
    int n = g.range(1, 2), N = n * nY; V init(N), lo(N, 0.0), hi(N, 1e6); for (double& x : init) x = g.uniform(0.5, 3); g.notev("init", init); bool noise = g.flip(); V truth(N); for (double& x : truth) x = g.uniform(0.5, 3);
    Probe* pb = new Probe(alta::parameters(params::dimension(t.dp), nY, t.dp, params::UNKNOWN_OUTPUT), init, lo, hi, 0); ptr<function> f(pb); pb->positive = true; pb->p = truth;
    for (int s = 0; s < S; ++s) { vec r = d->get(s); vec y = pb->value(r.head(t.ddim)); for (int i = 0; i < nY; ++i) r[t.ddim + i] = y[i] * (noise ? g.uniform(0.5, 2) : 1); d->set(s, r); }
    auto err = [&](const V& q) { V keep = pb->p; pb->p = q; double e = 0; for (int s = 0; s < S; ++s) { vec r = d->get(s); vec y = pb->value(r.head(t.ddim)); for (int i = 0; i < nY; ++i) { double u = log(1 + r[t.ddim + i]) - log(1 + y[i]); e += u * u; } } pb->p = keep; return e; };
    arguments a = arguments::create_arguments("--x --log-fit --ceres-function-tolerance 1e-16 --ceres-max-num-iterations 500"); ptr<fitter> ft = plugins_manager::get_fitter("nonlinear_fitter_ceres"); CHECK(ft, "no fitter"); ft->set_parameters(a); CHECK(ft->fit_data(d, f, a), "the fit fails");
    g.notev("truth", truth); V q = pb->p; double E0 = err(init), E1 = err(q); CHECK(E1 <= E0 * (1 + 1e-9) + 1e-18, "the log error grew from " << fmt(E0) << " to " << fmt(E1));
    bool inner = true; for (int i = 0; i < N; ++i) if (q[i] < 1e-3) inner = false; if (!inner) { g.label("at bounds"); return; }
    if (!noise) CHECK(E1 <= 1e-6 * (1 + E0), "the log fit stops at error " << fmt(E1) << " at " << fmtv(q) << " on exact data");
    for (int i = 0; i < N; ++i) for (double e : {-1e-3, 1e-3}) { V u = q; u[i] *= 1 + e; CHECK(err(u) >= E1 * (1 - 1e-7) - 1e-12, "not a minimum of the log error: parameter " << i << " = " << fmt(q[i]) << " scaled by " << 1 + e << " gives " << fmt(err(u)) << " instead of " << fmt(E1)); }
    g.label(noise ? "noisy" : "exact"); g.nontrivial();
}
PROPERTY(stopping_options) {   // the documented stopping criteria of the solvers
    int nY = g.range(1, 2), n = g.range(1, 3), N = nY * n; Tree t; t.nY = nY; set_dp(t, g.pick(full_params())); t.dout = params::UNKNOWN_OUTPUT; ptr<data> d = samples(g, t, n + (int)g.range(2, 6)); V init(N), lo(N, -1e6), hi(N, 1e6); for (double& x : init) x = g.uniform(-2, 2); g.notev("init", init);
    int k = g.below(3); static const char* o[] = {" --ceres-gradient-tolerance 1e30", " --ceres-max-num-iterations 0", " --nlop-max-num-iterations "}; std::string opt = o[k]; int maxe = g.range(1, 30); if (k == 2) opt += std::to_string(maxe); g.note("opts", opt); g.label(opt.substr(0, 26));
    Probe* pb = new Probe(alta::parameters(params::dimension(t.dp), nY, t.dp, params::UNKNOWN_OUTPUT), init, lo, hi, 0); ptr<function> f(pb);
    arguments a = arguments::create_arguments("--x" + opt); ptr<fitter> ft = plugins_manager::get_fitter(k == 2 ? "nonlinear_fitter_nlopt" : "nonlinear_fitter_ceres"); CHECK(ft, "no fitter"); ft->set_parameters(a); bool ok = ft->fit_data(d, f, a);
    // distinct points the solver looked at
    int steps = 0; V last; for (const V& q : pb->sets) { if (q != last) ++steps; last = q; }
    if (k <= 1) { CHECK(ok, "fit fails"); CHECK(k == 1 || steps == 1, "the solver went through " << steps << " points although the gradient meets its criterion at the start"); for (int i = 0; i < N; ++i) CHECK(close(pb->p[i], init[i], 1e-15, 1e-15), "the fit moved although its criterion is met at the start: parameter " << i << " from " << fmt(init[i]) << " to " << fmt(pb->p[i])); g.nontrivial(); }
    else { CHECK(steps <= maxe + 1, steps << " evaluations for a limit of " << maxe); g.nontrivial(); }
}
PROPERTY(no_free_parameters) {  // everything fixed: the fit only applies the initial parameters
    Tree t = gen_tree(g, SUM); gen_all_pars(g, t); for (auto& m : t.terms) { m.fixed = true; m.fixed_lobe = m.fixed_factor = false; } t.has_factor = false; Run r; r.t = t; r.w = &g.pick(fitters()); label_tree(g, t);
    r.cmd = tree_str(r.t, true); r.d = samples(g, r.t, g.range(1, 5)); r.args = arguments::create_arguments(r.cmd); r.cosine = false; g.note("cmd", r.cmd); g.note("fitter", r.w->plugin); g.note("nY", t.nY); launch(g, r); CHECK(r.ok, "fit of a fixed function fails"); judge(g, r); CHECK(close(r.E0, r.E1, 1e-12, 1e-15), "the error of a fixed function changed from " << fmt(r.E0) << " to " << fmt(r.E1)); if (parts(t).size() > 1) g.nontrivial();
}
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
PROPERTY(start_outside) {     // a start outside of the bounds is either brought back or reported as a failure
    const Which& w = g.pick(fitters()); std::string opt = g.pick(w.opts); int nY = g.range(1, 3), n = g.range(1, 3), N = n * nY, S = n + (int)g.range(1, 12); g.note("fitter", w.plugin); g.note("opts", opt); g.note("N", N);
    Tree t; t.nY = nY; set_dp(t, g.pick(full_params())); t.dout = params::UNKNOWN_OUTPUT; ptr<data> d = samples(g, t, S);
    V init, lo, hi; for (int i = 0; i < N; ++i) { double c = g.uniform(-2, 2); lo.push_back(c - g.uniform(0.05, 2)); hi.push_back(c + g.uniform(0.05, 2)); init.push_back(c); }
    int bad = g.below(N); bool up = g.flip(); double off = g.pick(std::vector<double>{1e-3, 0.1, 3}); init[bad] = up ? hi[bad] + off : lo[bad] - off; if (g.flip()) (up ? lo : hi)[bad] = up ? -HUGE_VAL : HUGE_VAL;
    g.notev("init", init); g.note("outside", bad); g.note("bounds", fmtv(lo) + " " + fmtv(hi));
    Probe* pb = new Probe(parameters(t.ddim, nY, t.dp, params::UNKNOWN_OUTPUT), init, lo, hi, g.below(2)); ptr<function> f(pb);
    arguments a = arguments::create_arguments("--x" + opt); ptr<fitter> ft = plugins_manager::get_fitter(w.plugin); CHECK(ft, "no fitter"); ft->set_parameters(a);
    bool ok = ft->fit_data(d, f, a); g.label(std::string(w.plugin).substr(17) + (ok ? " ok" : " failed")); g.nontrivial();
    for (int i = 0; i < N; ++i) if (ok) CHECK(pb->p[i] >= lo[i] - 1e-12 && pb->p[i] <= hi[i] + 1e-12, "a fit reported as successful leaves parameter " << i << " = " << fmt(pb->p[i]) << " outside [" << fmt(lo[i]) << "," << fmt(hi[i]) << "]");
}
