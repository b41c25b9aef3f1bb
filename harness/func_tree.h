// Random function structures shared by the harnesses of nonlinear functions
#pragma once
#include "func_gen.h"
using namespace fg;

// ---- random function structures -------------------------------------------------------------------------------
// terms: a sum of (lobe or lobe x factor); optionally the whole sum times a factor
struct Term { Part lobe; bool has_factor; Part factor; bool fixed_lobe, fixed_factor, fixed; };
struct Tree { std::vector<Term> terms; bool compound; bool has_factor; Part factor; bool fixed_lobe, fixed_factor; int nY; params::input dp; params::output dout; int ddim; };

static bool wide_trees = true;   // now and then more lobes, terms and channels than usual
inline Part gen_part(G& g, Kind k, const Tree& t) {
    Part p; p.k = k; p.nY = t.nY; p.lobes = 1; p.sgtype = 0; p.retro = false; p.in1 = params::UNKNOWN_INPUT; p.fixed = false;
    switch (k) {
    case LAFORTUNE: p.lobes = wide_trees && g.chance(1, 12) ? g.range(4, 9) : g.range(1, 3); if (p.lobes > 1 || g.flip()) p.opts = " --lobes " + std::to_string(p.lobes); break;
    case SG: { p.sgtype = g.below(6); static const char* n[] = {"mirror", "half", "retro", "back", "moment"}; if (p.sgtype < 5) p.opts = std::string(" --sg-type ") + n[p.sgtype]; else p.sgtype = 0; break; }
    case RBECKMANN: p.retro = g.flip(); if (p.retro) p.opts = " --retro"; break;
    case ABC: { int q = g.below(3); p.in1 = q == 1 ? params::COS_TK : params::COS_TH; if (q) p.opts = std::string(" --param ") + params::get_name(p.in1); break; }
    case BLINN: p.in1 = params::COS_TH; break;
    case RBLINN: p.in1 = t.dp; break;
    default: break;
    }
    return p;
}
inline std::string vecstr(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + fmt(v[i]); return s + "]"; }
inline const std::vector<params::input>& full_params() { static const std::vector<params::input> v = {params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, params::STEREOGRAPHIC, params::RUSIN_TH_PH_TD_PD}; return v; }
inline void set_dp(Tree& t, params::input p) { t.dp = p; t.ddim = params::dimension(p); }

enum { SINGLE = 1, PRODUCT = 2, SUM = 4 };
inline Tree gen_tree(G& g, int what, bool one_d = true) {
    Tree t; t.nY = wide_trees && g.chance(1, 16) ? g.range(4, 7) : g.range(1, 3); t.dout = t.nY == 3 && g.flip() ? params::RGB_COLOR : t.nY == 1 && g.flip() ? params::INV_STERADIAN : params::UNKNOWN_OUTPUT;
    t.has_factor = false; t.fixed_lobe = t.fixed_factor = false;
    set_dp(t, g.pick(full_params()));
    std::vector<int> shapes; for (int i = 0; i < 3; ++i) if (what & (1 << i)) shapes.push_back(1 << i);
    int shape = shapes[g.below(3) % shapes.size()];
    t.compound = shape == SUM;
    int n = shape == SUM ? (wide_trees && g.chance(1, 16) ? g.range(4, 6) : g.range(1, 3)) : 1;
    for (int i = 0; i < n; ++i) {
        Term m; m.has_factor = m.fixed_lobe = m.fixed_factor = m.fixed = false;
        int r = g.below(12);
        if (shape == SINGLE && r == 11) { set_dp(t, g.pick(std::vector<params::input>{params::COS_TK, params::COS_TLV, params::COS_TH, params::COS_TLR})); m.lobe = gen_part(g, RBLINN, t); }
        else if (shape == SINGLE && r >= 8) m.lobe = gen_part(g, g.pick(factors()), t);
        else m.lobe = gen_part(g, g.pick(lobes()), t);
        if (!one_d && (m.lobe.k == ABC || m.lobe.k == BLINN)) m.lobe = gen_part(g, BECKMANN, t);
        if (shape == PRODUCT || (shape == SUM && g.chance(1, 3))) {
            m.has_factor = true; m.factor = gen_part(g, g.pick(factors()), t);
            // any other function can be the second one; options are shared by both, so only one of them has some
            if (one_d && g.chance(1, 6)) { if (m.lobe.opts.empty()) { Part p; p.k = g.pick(std::vector<Kind>{BECKMANN, WARD, BLINN, ABC, YOO, SG}); p.nY = t.nY; p.lobes = 1; p.sgtype = 0; p.retro = false; p.fixed = false;
                    p.in1 = p.k == BLINN || p.k == ABC ? params::COS_TH : params::UNKNOWN_INPUT; m.factor = p; }
                else if (m.lobe.k == ABC) m.factor = gen_part(g, BLINN, t); }
            m.fixed_lobe = g.chance(1, 5); m.fixed_factor = g.chance(1, 5);
        }
        if (shape == SUM) m.fixed = g.chance(1, 5);
        t.terms.push_back(m);
    }
    if (shape == SUM && g.chance(1, 4)) { t.has_factor = true; t.factor = gen_part(g, g.pick(factors()), t); t.fixed_lobe = g.chance(1, 6); t.fixed_factor = g.chance(1, 6); }
    // values weighted by the cosines: the diffuse model starts from what they are without them
    if (t.ddim >= 4 && t.nY <= 3 && g.chance(1, 8)) t.dout = params::INV_STERADIAN_COSINE_FACTOR;
    return t;
}
struct PRef { Part* p; bool free; };
inline std::vector<PRef> parts(Tree& t) {
    std::vector<PRef> r;
    for (Term& m : t.terms) { r.push_back({&m.lobe, !m.fixed && !m.fixed_lobe && !t.fixed_lobe}); if (m.has_factor) r.push_back({&m.factor, !m.fixed && !m.fixed_factor && !t.fixed_lobe}); }
    if (t.has_factor) r.push_back({&t.factor, !t.fixed_factor}); return r;
}
// initial parameters are given on the command line for fixed parts (and for the others when wanted)
inline std::string part_str(const Part& p, bool boot) { std::string s = std::string(plugin(p.k)) + p.opts; if (boot && p.np()) s += " --bootstrap " + vecstr(p.pars); return s; }
inline std::string tree_str(Tree& t, bool boot) {
    auto fac = [&](const Part& p, bool b) { std::string s = part_str(p, b); return s.find(' ') != std::string::npos ? "[" + s + "]" : s; };
    std::string s;
    if (t.compound) {
        s = "--func [";
        for (size_t i = 0; i < t.terms.size(); ++i) { Term& m = t.terms[i];
            if (i) s += ", ";
            // an element which is a product takes its initial values as a whole
            s += std::string(plugin(m.lobe.k)) + m.lobe.opts; V v = m.lobe.pars;
            if (m.has_factor) { s += " --fresnel " + std::string(plugin(m.factor.k)); if (m.fixed_lobe) { s += " --fixed-lobe"; v.clear(); } if (m.fixed_factor) s += " --fixed-fresnel"; else v.insert(v.end(), m.factor.pars.begin(), m.factor.pars.end()); }
            if (boot && v.size()) s += " --bootstrap " + vecstr(v);
            if (m.fixed) s += " --fixed"; }
        s += "]";
    } else { Term& m = t.terms[0]; s = "--func " + std::string(plugin(m.lobe.k)) + m.lobe.opts; V v = m.lobe.pars;
        if (m.has_factor) { s += " --fresnel " + std::string(plugin(m.factor.k)); if (m.fixed_lobe) { s += " --fixed-lobe"; v.clear(); } if (m.fixed_factor) s += " --fixed-fresnel"; else v.insert(v.end(), m.factor.pars.begin(), m.factor.pars.end()); }
        if (boot && v.size()) s += " --bootstrap " + vecstr(v); }
    if (t.has_factor) { s += " --fresnel " + std::string(plugin(t.factor.k)); if (t.fixed_lobe) s += " --fixed-lobe"; if (t.fixed_factor) s += " --fixed-fresnel"; }
    return s;
}
inline ptr<data> make_data(G& g, const Tree& t, V& mins, V& cmins) {
    Model m; m.nx = t.ddim; m.ny = t.nY; m.kind = 0; m.in = t.dp; m.out = t.dout; int n = g.range(1, 4); mins.assign(t.nY, 1e300); cmins = mins;
    for (int i = 0; i < n; ++i) {
        double c[6], x[6]; double a = g.uniform(0.1, 1.4), b = g.uniform(0.1, 1.4), p = g.uniform(-3, 3);
        c[0] = sin(a); c[1] = 0; c[2] = cos(a); c[3] = sin(b) * cos(p); c[4] = sin(b) * sin(p); c[5] = cos(b);
        params::convert(c, params::CARTESIAN, t.dp, x); V r(x, x + t.ddim);
        for (int j = 0; j < t.nY; ++j) { double v = g.uniform(0, 3); r.push_back(v); mins[j] = std::min(mins[j], v); cmins[j] = std::min(cmins[j], v / (c[2] * c[5])); }
        m.rows.push_back(r); }
    return build(m);
}
struct Dirs { double c[6]; bool regular; };
inline Dirs gen_dirs(G& g) {
    Dirs d; double tv, tl, pv, pl; int kind = g.below(10);
    tv = kind < 7 ? g.uniform(0.05, 1.5) : g.real(0, 1.55); tl = kind < 7 ? g.uniform(0.05, 1.5) : g.real(0, 1.55); pv = g.uniform(-PI, PI); pl = g.uniform(-PI, PI);
    if (kind == 9) { tl = tv; pl = pv; } if (kind == 8) { pl = pv + (pv > 0 ? -PI : PI); } if (kind == 6) { tl = tv + g.uniform(-.1, .1); pl = pv + PI + g.uniform(-.1, .1); }
    // one of these at a time may change from one evaluation to the next
    if (kind < 6 && g.mem.size() == 4 && g.flip()) { double* q[4] = {&tv, &tl, &pv, &pl}; for (int i = 0; i < 4; ++i) if (g.flip()) *q[i] = g.mem[i]; }
    if (kind < 6) g.mem = {tv, tl, pv, pl};
    double* c = d.c; c[0] = sin(tv) * cos(pv); c[1] = sin(tv) * sin(pv); c[2] = cos(tv); c[3] = sin(tl) * cos(pl); c[4] = sin(tl) * sin(pl); c[5] = cos(tl);
    d.regular = kind < 7 && tl > 0.04 && fabs(fabs(pl) - PI) > 1e-3; g.note("theta_v", tv); g.note("theta_l", tl); g.note("phi_v", pv); g.note("phi_l", pl); return d;
}
inline vec tovec(const V& v) { vec r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
inline V free_pars(Tree& t) { V r; for (auto& q : parts(t)) if (q.free) r.insert(r.end(), q.p->pars.begin(), q.p->pars.end()); return r; }

struct Fun { ptr<function> f; nonlinear_function* nl; ptr<data> d; arguments args; std::string cmd; V mins, cmins; };
inline Fun make(G& g, Tree& t, bool boot, const std::string& extra = "") {
    Fun F; F.cmd = tree_str(t, boot) + extra; g.note("cmd", F.cmd); g.note("nY", t.nY); g.note("data_param", params::get_name(t.dp));
    F.d = make_data(g, t, F.mins, F.cmins);
    F.args = arguments::create_arguments(F.cmd);
    function* f = plugins_manager::get_function(F.args, F.d->parametrization());
    CHECK(f, "no function for " << F.cmd); F.f = ptr<function>(f); F.nl = dynamic_cast<nonlinear_function*>(f); CHECK(F.nl, "not a nonlinear function: " << F.cmd);
    F.f->bootstrap(F.d, F.args);
    for (auto& q : parts(t)) { q.p->kd.assign(t.nY, 0); for (int j = 0; j < t.nY; ++j) q.p->kd[j] = q.p->k == DIFFUSE && t.dout == params::INV_STERADIAN_COSINE_FACTOR ? F.cmins[j] : F.mins[j]; }
    return F;
}
inline void gen_all_pars(G& g, Tree& t) { for (auto& q : parts(t)) { q.p->pars = gen_pars(g, *q.p); } }
inline void label_tree(G& g, Tree& t) {
    g.label(t.compound ? t.has_factor ? "sum x factor" : "sum" : t.terms[0].has_factor ? "product" : "single"); for (auto& q : parts(t)) { g.label(std::string(plugin(q.p->k)).substr(10)); }
}
inline V to_input(const function* f, const Dirs& d) {   // coordinates of d for f
    params::input in = f->parametrization().input_parametrization(); int n = params::dimension(in);
    V x(std::max(6, n), 0.0); params::convert(d.c, params::CARTESIAN, in, &x[0]); x.resize(n); return x;
}
inline V from_input(const function* f, const V& x) { V c(6); params::convert(&x[0], f->parametrization().input_parametrization(), params::CARTESIAN, &c[0]); if (!(c[2] > 1e-6 && c[5] > 1e-6)) discard(); return c; }
inline bool all_finite(const V& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
inline V vals(const function* f, const V& x) { vec v = f->value(tovec(x)); return V(v.data(), v.data() + v.size()); }

