// P22 distances between functions and data, metrics between two data objects
#include "alta_gen.h"
#include <core/function.h>
#include <core/metrics.h>
using namespace ag;
typedef std::vector<double> V;

// a smooth function of the coordinates, per channel
struct Poly {
    std::vector<V> a;   // per channel: constant then one coefficient per coordinate, then one product term
    int nx = 0;
    void gen(G& g, int nx_, int ny, bool constant) { nx = nx_; a.clear(); double s = g.pick(V{1.0, 1e-3, 50.0, 1e6});
        for (int k = 0; k < ny; ++k) { V c(nx + 2, 0.0); c[0] = s * g.real(-2, 2); if (!constant) for (int i = 0; i <= nx; ++i) c[i + 1] = s * g.real(-1, 1); a.push_back(c); } }
    double at(int k, const double* x) const { double v = a[k][0]; for (int i = 0; i < nx; ++i) v += a[k][i + 1] * x[i]; return v + a[k][nx + 1] * x[0] * x[nx - 1]; }
};
struct PolyFun : function {
    Poly p;
    PolyFun(const parameters& q) { setParametrization(q); }
    vec value(const vec& x) const { vec r(parametrization().dimY()); for (int k = 0; k < r.size(); ++k) r[k] = p.at(k, x.data()); return r; }
    bool load(std::istream&) { return false; }
};
struct PolyData : data {
    Poly p; mutable int evals = 0;
    PolyData(const parameters& q, int n) : data(q, n) {}
    vec get(int) const { return vec::Zero(parametrization().dimX() + parametrization().dimY()); }
    vec value(const vec& x) const { ++evals; vec r(parametrization().dimY()); for (int k = 0; k < r.size(); ++k) r[k] = p.at(k, x.data()); return r; }
    void set(int, const vec&) {}
};
static void gen_cart(G& g, double* c) {
    for (int k = 0; k < 2; ++k) { double t = g.chance(1, 8) ? 0.0 : g.uniform(0.0, 1.5), p = g.uniform(-3.1, 3.1); c[3 * k] = sin(t) * cos(p); c[3 * k + 1] = sin(t) * sin(p); c[3 * k + 2] = cos(t); }
}
// full parametrizations and reductions from which the conversion to Cartesian stays in the upper hemisphere
static bool usable(params::input p, const double* cart, double* x) {
    double c2[6]; params::convert(cart, params::CARTESIAN, p, x); int n = params::dimension(p);
    for (int i = 0; i < n; ++i) if (!std::isfinite(x[i])) return false;
    params::convert(x, p, params::CARTESIAN, c2);
    for (int i = 0; i < 6; ++i) if (!std::isfinite(c2[i])) return false;
    return c2[2] > 1e-6 && c2[5] > 1e-6;
}
static const std::vector<params::input>& pars() {
    static const std::vector<params::input> v = {params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, params::STEREOGRAPHIC, params::RUSIN_TH_PH_TD_PD, params::RUSIN_TH_TD_PD, params::ISOTROPIC_TV_TL_DPHI, params::ISOTROPIC_TL_TV_PROJ_DPHI, params::RUSIN_TH_TD, params::COS_TH_TD};
    return v;
}
struct Ref { params::input in; int nx, ny; std::vector<V> rows; };
static Ref gen_ref(G& g, int maxn) {
    Ref r; r.in = g.pick(pars()); r.nx = params::dimension(r.in); r.ny = g.range(1, 4); int n = g.chance(1, 10) ? (int)g.range(1, 200) : (int)g.range(1, maxn); if (g.chance(1, 25)) { n = g.range(1, 4000); g.label("many samples"); } double s = g.pick(V{1.0, 1e-4, 1e5});
    for (int i = 0; i < n; ++i) { double c[6], x[6]; gen_cart(g, c); if (!usable(r.in, c, x)) continue; V row(x, x + r.nx); for (int k = 0; k < r.ny; ++k) row.push_back(s * g.real(-3, 3)); r.rows.push_back(row); }
    if (r.rows.empty()) discard(); return r;
}
static ptr<vertical_segment> make(const Ref& r, const std::vector<int>& order) {
    ptr<vertical_segment> d(new vertical_segment(parameters(r.nx, r.ny, r.in, params::UNKNOWN_OUTPUT), order.size()));
    for (size_t i = 0; i < order.size(); ++i) { vec x(r.nx + r.ny); for (int j = 0; j < x.size(); ++j) x[j] = r.rows[order[i]][j]; d->set(i, x); }
    return d;
}
static std::vector<int> iota(size_t n) { std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = i; return v; }
static std::vector<int> shuffled(G& g, size_t n) { std::vector<int> v = iota(n); for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[i - 1 - g.below(i)]); return v; }
static V coords(const V& row, params::input from, int nx, params::input to) {
    V x(row.begin(), row.begin() + nx), o(8, 0.0); if (to == params::UNKNOWN_INPUT) return x; params::convert(x.data(), from, to, o.data()); return o;
}

PROPERTY(function_distances) {
    Ref r = gen_ref(g, 10); params::input fin = g.chance(1, 4) ? params::UNKNOWN_INPUT : g.pick(pars());
    int fnx = fin == params::UNKNOWN_INPUT ? r.nx : params::dimension(fin);
    PolyFun f(parameters(fnx, r.ny, fin, params::UNKNOWN_OUTPUT)); f.p.gen(g, fnx, r.ny, g.chance(1, 8));
    bool same = g.chance(1, 6);
    for (V& row : r.rows) if (same || g.chance(1, 8)) { V x = coords(row, r.in, r.nx, fin); for (int k = 0; k < r.ny; ++k) row[r.nx + k] = f.p.at(k, x.data()); }
    long double sum = 0; double mx = 0, mag = 0;
    for (const V& row : r.rows) { V x = coords(row, r.in, r.nx, fin); for (int k = 0; k < r.ny; ++k) { double v = f.p.at(k, x.data()), d = row[r.nx + k] - v; if (!std::isfinite(v)) discard(); sum += (long double)d * d; mx = std::max(mx, fabs(d)); mag = std::max(mag, fabs(v) + fabs(row[r.nx + k])); } }
    double l2 = sqrtl(sum / r.rows.size());
    g.note("data_in", params::get_name(r.in)); g.note("function_in", params::get_name(fin)); g.note("n", r.rows.size()); g.note("ny", r.ny); g.notev("row0", r.rows[0]); g.nontrivial(r.rows.size() > 1 && mx > 0); g.label(same ? "identical" : "different");
    ptr<data> d = make(r, iota(r.rows.size())); double got2 = f.L2_distance(d), goti = f.Linf_distance(d);
    double tol = 1e-11 * mag * (1 + fnx);
    CHECK(fabs(got2 - l2) <= 1e-10 * l2 + tol, "L2 distance is " << fmt(got2) << " expected " << fmt(l2));
    CHECK(fabs(goti - mx) <= 1e-10 * mx + tol, "Linf distance is " << fmt(goti) << " expected " << fmt(mx));
    if (r.rows.size() > 1) { ptr<data> e = make(r, shuffled(g, r.rows.size()));
        CHECK(close(f.L2_distance(e), got2, 1e-10, tol), "L2 distance depends on the row order"); CHECK(close(f.Linf_distance(e), goti, 1e-12, 0), "Linf distance depends on the row order"); }
}

struct Sums { V l1, l2, l3, li; int n; Sums(int ny) : l1(ny, 0.0), l2(ny, 0.0), l3(ny, 0.0), li(ny, 0.0), n(0) {} };
PROPERTY(data_metrics) {
    Ref r = gen_ref(g, 10); params::input in = g.pick(pars()); int nx = params::dimension(in);
    PolyData p(parameters(nx, r.ny, in, params::UNKNOWN_OUTPUT), 1); p.p.gen(g, nx, r.ny, g.chance(1, 8)); bool same = g.chance(1, 6);
    auto conv = [&](const V& row) { V c(6, 0.0), x(8, 0.0); params::convert(row.data(), r.in, params::CARTESIAN, c.data()); params::convert(c.data(), params::CARTESIAN, in, x.data()); return x; };
    double mag = 0;
    for (V& row : r.rows) { V x = conv(row); for (int k = 0; k < r.ny; ++k) { double v = p.p.at(k, x.data()); if (!std::isfinite(v)) discard(); if (same) row[r.nx + k] = v; mag = std::max(mag, fabs(v) + fabs(row[r.nx + k])); } }
    bool masked = g.flip(); int mny = g.range(1, 2); V mask(r.rows.size(), 1.0); int kept = 0;
    for (double& m : mask) { if (masked && g.flip()) m = 0; else if (masked) m = g.pick(V{1.0, -1.0, 0.5, 1e-9}); kept += m != 0; }
    Sums s(r.ny); V f3(r.ny, 0.0);
    for (size_t i = 0; i < r.rows.size(); ++i) if (mask[i] != 0) { V x = conv(r.rows[i]); ++s.n;
        for (int k = 0; k < r.ny; ++k) { double d = fabs(p.p.at(k, x.data()) - r.rows[i][r.nx + k]); s.l1[k] += d; s.l2[k] += d * d; s.l3[k] += d * d * d; s.li[k] = std::max(s.li[k], d); } }
    g.note("ref_in", params::get_name(r.in)); g.note("in", params::get_name(in)); g.note("n", r.rows.size()); g.note("ny", r.ny); if (masked) g.notev("mask", mask); g.notev("row0", r.rows[0]);
    g.nontrivial(s.n > 1); g.label(masked ? (kept ? kept == (int)mask.size() ? "mask_all" : "mask_some" : "mask_none") : "no_mask"); if (same) g.label("identical");
    if (!kept) discard();
    auto run = [&](const std::vector<int>& order) {
        ptr<vertical_segment> d = make(r, order), m;
        if (masked) { m.reset(new vertical_segment(parameters(r.nx, mny, r.in, params::UNKNOWN_OUTPUT), order.size()));
            for (size_t i = 0; i < order.size(); ++i) { vec x = vec::Constant(r.nx + mny, 3.0); for (int j = 0; j < r.nx; ++j) x[j] = r.rows[order[i]][j]; x[r.nx + mny - 1] = mask[order[i]]; m->set(i, x); } }
        errors::metrics res; res["L1"] = vec::Constant(7, 4.0); res["old"] = vec::Zero(1); p.evals = 0; errors::compute(&p, d.get(), m.get(), res);
        return res; };
    errors::metrics res = run(iota(r.rows.size())); double tol = 1e-11 * mag * (1 + nx);
    CHECK(res.size() == 6, "metrics reported: " << res.size());
    for (auto& e : res) CHECK(e.second.size() == r.ny, e.first << " has " << e.second.size() << " channels");
    for (int k = 0; k < r.ny; ++k) {
        auto ck = [&](const char* n, double want, double t) { double got = res[n][k]; CHECK(fabs(got - want) <= 1e-9 * fabs(want) + t, n << " of channel " << k << " is " << fmt(got) << " expected " << fmt(want)); };
        ck("L1", s.l1[k], tol * s.n); ck("L2", sqrt(s.l2[k]), tol * s.n); ck("L3", cbrt(s.l3[k]), tol * s.n); ck("LInf", s.li[k], tol);
        ck("MSE", s.l2[k] / s.n, tol * (s.li[k] + tol)); ck("RMSE", sqrt(s.l2[k] / s.n), tol);
        if (same) CHECK(fabs(res["LInf"][k]) <= tol, "identical data at distance " << fmt(res["LInf"][k]));
    }
    if (r.rows.size() > 1) { errors::metrics o = run(shuffled(g, r.rows.size())); for (auto& e : res) for (int k = 0; k < r.ny; ++k) CHECK(close(o[e.first][k], e.second[k], 1e-9, tol * (e.first == "MSE" ? s.li[k] + tol : 1)), e.first << " depends on the row order"); }
}
// the metrics of two tables of samples on the same positions are those of their difference, either way round
struct Table : data {
    Ref r; Table(const Ref& q) : data(parameters(q.nx, q.ny, q.in, params::UNKNOWN_OUTPUT), q.rows.size()), r(q) {}
    vec get(int i) const { vec x(r.nx + r.ny); for (int j = 0; j < x.size(); ++j) x[j] = r.rows[i][j]; return x; }
    vec value(const vec& x) const { double best = 1e300; int b = 0; for (size_t i = 0; i < r.rows.size(); ++i) { double d = 0; for (int j = 0; j < r.nx; ++j) d += fabs(r.rows[i][j] - x[j]); if (d < best) { best = d; b = i; } }
        vec v(r.ny); for (int k = 0; k < r.ny; ++k) v[k] = r.rows[b][r.nx + k]; return v; }
    void set(int, const vec&) {}
};
PROPERTY(metrics_symmetric) {
    Ref a = gen_ref(g, 10); a.in = params::CARTESIAN; a.nx = 6; int n = g.range(1, 12); a.rows.clear();
    for (int i = 0; i < n; ++i) { double c[6]; gen_cart(g, c);
        for (int k = 0; k < 2; ++k) if (g.chance(1, 6)) { double p = g.uniform(-3.1, 3.1); c[3 * k] = cos(p); c[3 * k + 1] = sin(p); c[3 * k + 2] = 0; g.label("horizon"); }
        V row(c, c + 6); for (int k = 0; k < a.ny; ++k) row.push_back(g.real(-3, 3));
        for (const V& o : a.rows) { double d = 0; for (int j = 0; j < 6; ++j) d += fabs(o[j] - row[j]); if (d < 1e-6) discard(); }   // positions must differ
        a.rows.push_back(row); }
    Ref b = a; bool same = g.chance(1, 5); if (!same) for (V& row : b.rows) for (int k = 0; k < a.ny; ++k) row[6 + k] = g.real(-3, 3);
    Table ta(a), tb(b); errors::metrics ab, ba; g.note("n", n); g.notev("row0", a.rows[0]); g.nontrivial(n > 1);
    errors::compute(&ta, &tb, nullptr, ab); errors::compute(&tb, &ta, nullptr, ba);
    for (int k = 0; k < a.ny; ++k) { double l1 = 0, l2 = 0, li = 0; for (int i = 0; i < n; ++i) { double d = fabs(a.rows[i][6 + k] - b.rows[i][6 + k]); l1 += d; l2 += d * d; li = std::max(li, d); }
        CHECK(close(ab["L1"][k], l1, 1e-9, 1e-12) && close(ab["MSE"][k], l2 / n, 1e-9, 1e-12) && close(ab["LInf"][k], li, 1e-9, 1e-12), "metrics of two tables in channel " << k << ": L1 " << fmt(ab["L1"][k]) << " expected " << fmt(l1) << ", MSE " << fmt(ab["MSE"][k]) << " expected " << fmt(l2 / n)); }
    for (auto& e : ab) for (int k = 0; k < a.ny; ++k) { CHECK(close(e.second[k], ba[e.first][k], 1e-12, 1e-15), e.first << " is not symmetric"); if (same) CHECK(e.second[k] == 0, e.first << " of identical tables is " << fmt(e.second[k])); }
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
