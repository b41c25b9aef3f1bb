// P11 save/load, P12 Jacobians, P13 parameter vectors, P14 formulas, P15 sums and products, P37 initial parameters (nonlinear functions)
#include "func_tree.h"
// ---- P14 ------------------------------------------------------------------------------------------------------
PROPERTY(formula) {
    Tree t = gen_tree(g, SINGLE); gen_all_pars(g, t); Fun F = make(g, t, false); Part& p = t.terms[0].lobe; label_tree(g, t); g.notev("params", p.pars);
    F.nl->setParameters(tovec(p.pars));
    for (int rep = 0; rep < 4; ++rep) {
        if (rep && g.chance(1, 3)) {    // all or some of the parameters change
            V o = p.pars, v = gen_pars(g, p); bool all = g.flip(); for (size_t i = 0; i < v.size(); ++i) if (!all && g.flip()) v[i] = o[i];
            p.pars = v; g.notev("new params", v); F.nl->setParameters(tovec(v)); }
        Dirs d = gen_dirs(g); bool one = p.in1 != params::UNKNOWN_INPUT; V x; double u = NAN; V c(d.c, d.c + 6);
        if (one) { CHECK(F.f->parametrization().input_parametrization() == p.in1, "input parametrization " << params::get_name(F.f->parametrization().input_parametrization())); u = g.flip() ? coord1(p.in1, d.c) : g.real(-0.25, 1.25); x = V{u}; g.note("u", u); }
        else { x = to_input(F.f.get(), d); c = from_input(F.f.get(), x); }
        if (p.k == YOO && fabs(c[0]) < 1e-3) continue;
        V got = vals(F.f.get(), x), want = reference(p, p.pars, &c[0], u);
        CHECK((int)got.size() == t.nY, "value has " << got.size() << " channels");
        double s = 0; for (double w : want) s = std::max(s, fabs(w));
        double rel = p.k == RBECKMANN || p.k == BECKMANN || p.k == WARD ? 1e-6 : p.k == SG ? 2e-6 : 1e-8;   // steep lobes amplify the rounding of their coordinate
        for (int i = 0; i < t.nY; ++i) if (std::isfinite(want[i])) CHECK(close(got[i], want[i], rel, 1e-11 + 1e-9 * s), plugin(p.k) << " channel " << i << ": " << fmt(got[i]) << " expected " << fmt(want[i]) << " x=" << fmtv(x));
        if (s > 0 && d.regular) g.nontrivial();
    }
}
// ---- P13 ------------------------------------------------------------------------------------------------------
PROPERTY(parameter_vector) {
    Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); Fun F = make(g, t, false); label_tree(g, t);
    V p = free_pars(t); int n = p.size();
    CHECK(F.nl->nbParameters() == n, "nbParameters " << F.nl->nbParameters() << " expected " << n);
    vec m = F.nl->getParametersMin(), M = F.nl->getParametersMax(), q0 = F.nl->parameters();
    CHECK(m.size() == n && M.size() == n && q0.size() == n, "sizes of bounds and parameters " << m.size() << " " << M.size() << " " << q0.size() << " expected " << n);
    for (int i = 0; i < n; ++i) { CHECK(m[i] <= M[i], "bounds of parameter " << i << ": [" << fmt(m[i]) << "," << fmt(M[i]) << "]"); CHECK(std::isfinite(q0[i]), "initial parameter " << i << " is " << fmt(q0[i]));
        CHECK(q0[i] >= m[i] && q0[i] <= M[i], "initial parameter " << i << "=" << fmt(q0[i]) << " outside [" << fmt(m[i]) << "," << fmt(M[i]) << "]"); }
    for (int i = 0; i < n; ++i) CHECK(p[i] >= m[i] && p[i] <= M[i], "meaningful parameter " << i << "=" << fmt(p[i]) << " outside [" << fmt(m[i]) << "," << fmt(M[i]) << "]");
    Dirs d = gen_dirs(g); V x = to_input(F.f.get(), d);
    F.nl->setParameters(tovec(p)); V v1 = vals(F.f.get(), x);
    vec q = F.nl->parameters(); for (int i = 0; i < n; ++i) CHECK(same_bits(q[i], p[i]), "parameter " << i << " set to " << fmt(p[i]) << " reads " << fmt(q[i]));
    V r; bool mild = g.flip();
    for (int i = 0; i < n; ++i) {
        if (mild) { r.push_back(g.uniform(0.05, 1)); continue; }
        // any vector between the bounds is read back as it was set: at a bound, tiny, huge, of either sign
        double lo = std::max(m[i], -1e12), hi = std::min(M[i], 1e12), v; int how = g.below(5);
        if (how == 0) v = lo; else if (how == 1) v = hi; else if (how == 2) v = (g.flip() ? 1 : -1) * std::pow(10., -g.uniform(1, 15)); else if (how == 3) v = (g.flip() ? 1 : -1) * std::pow(10., g.uniform(0, 12)); else v = lo + (hi - lo) * g.uniform(0, 1);
        r.push_back(std::min(hi, std::max(lo, v))); }
    F.nl->setParameters(tovec(r)); if (mild) vals(F.f.get(), x); else g.label("extreme parameters");
    q = F.nl->parameters(); for (int i = 0; i < n; ++i) CHECK(same_bits(q[i], r[i]), "parameter " << i << " set to " << fmt(r[i]) << " reads " << fmt(q[i]));
    F.nl->setParameters(tovec(p)); V v2 = vals(F.f.get(), x);
    CHECK((int)v1.size() == t.nY, "channels " << v1.size());
    for (int i = 0; i < t.nY; ++i) CHECK(same_bits(v1[i], v2[i]) || (v1[i] != v1[i] && v2[i] != v2[i]), "value depends on history: " << fmt(v1[i]) << " then " << fmt(v2[i]));
    // a second object with the same parameters has the same values
    function* f2 = plugins_manager::get_function(F.args, F.d->parametrization()); ptr<function> o(f2); f2->bootstrap(F.d, F.args); dynamic_cast<nonlinear_function*>(f2)->setParameters(tovec(p)); V v3 = vals(f2, x);
    for (int i = 0; i < t.nY; ++i) CHECK(same_bits(v1[i], v3[i]) || (v1[i] != v1[i] && v3[i] != v3[i]), "two objects with the same parameters differ: " << fmt(v1[i]) << " " << fmt(v3[i]));
    if (n > 1) g.nontrivial();
}
// ---- P12 ------------------------------------------------------------------------------------------------------
PROPERTY(jacobian) {
    Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); Fun F = make(g, t, true); label_tree(g, t);
    V p = free_pars(t); int n = p.size(); if (!n) discard();
  for (int rep = 0, reps = g.chance(1, 3) ? 2 : 1; rep < reps; ++rep) {    // then at other parameters and directions
    if (rep) { V o = p; gen_all_pars(g, t); p = free_pars(t); bool all = g.flip(); for (int i = 0; i < n; ++i) if (!all && g.flip()) p[i] = o[i]; }
    for (double& x : p) if (fabs(x) < 1e-3) x = 1e-3;             // keep away from the edge of the parameter domain
    g.notev("params", p); F.nl->setParameters(tovec(p));
    Dirs d = gen_dirs(g); V x = to_input(F.f.get(), d); vec J = F.nl->parametersJacobian(tovec(x)); V v0 = vals(F.f.get(), x);
    CHECK(J.size() == n * t.nY, "Jacobian has " << J.size() << " entries, expected " << n * t.nY);
    if (!all_finite(v0)) discard();
    // the shadowing of SGD has a kink where an angle equals its third parameter
    for (auto& q : parts(t)) if (q.p->k == SGD) for (double y : p) if (fabs(y - acos(d.c[2])) < 4e-3 * (1 + fabs(y)) || fabs(y - acos(d.c[5])) < 4e-3 * (1 + fabs(y))) discard();
    auto eval = [&](int i, double h) { V q = p; q[i] += h; F.nl->setParameters(tovec(q)); return vals(F.f.get(), x); };
    for (int i = 0; i < n; ++i) {
        double h = 1e-3 * std::min(1.0, std::max(fabs(p[i]), 1e-2)) * (fabs(p[i]) > 1 ? std::min(fabs(p[i]), 10.0) : 1); if (h > 0.5 * fabs(p[i])) h = 0.5 * fabs(p[i]);
        V a = eval(i, h), b = eval(i, -h), a2 = eval(i, h / 2), b2 = eval(i, -h / 2), a4 = eval(i, h / 4), b4 = eval(i, -h / 4);
        for (int y = 0; y < t.nY; ++y) {
            double d1 = (a[y] - b[y]) / (2 * h), d2 = (a2[y] - b2[y]) / h, d4 = (a4[y] - b4[y]) / (h / 2), R1 = (4 * d2 - d1) / 3, R = (4 * d4 - d2) / 3, err = fabs(R - R1);
            double sc = std::max(fabs(a[y]), fabs(b[y])), round = 4e-15 * std::max(sc, fabs(v0[y])) / h * 20;
            double j = J[y * n + i];
            if (!(err < 1e-4 * fabs(R) + 100 * round + 1e-12)) { g.label("not differentiable here"); continue; }
            CHECK(std::isfinite(j), "d value[" << y << "] / d p[" << i << "] is " << fmt(j));
            CHECK(fabs(j - R) <= 1e-5 * std::max(fabs(j), fabs(R)) + 10 * err + 10 * round + 1e-10, "d value[" << y << "] / d p[" << i << "] = " << fmt(j) << " but the difference quotient is " << fmt(R) << " (+-" << fmt(err + round) << ") x=" << fmtv(x));
            if (fabs(R) > 1e-6) g.nontrivial();
        }
    }
  }
}
PROPERTY(jacobian_at_bounds) {   // solvers do visit the bounds: one-sided derivatives there
    Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); Fun F = make(g, t, true); label_tree(g, t);
    V p = free_pars(t); int n = p.size(); if (!n) discard(); vec lo = F.nl->getParametersMin(), hi = F.nl->getParametersMax(); CHECK(lo.size() == n && hi.size() == n, "bounds of size " << lo.size() << "," << hi.size());
    V dir(n, 0.0); int at = 0; for (int i = 0; i < n; ++i) if (g.chance(1, 3)) { if (fabs(lo[i]) < 1e6 && (lo[i] == 0 || fabs(lo[i]) > 1e-2) && g.flip()) { p[i] = lo[i]; dir[i] = 1; ++at; } else if (fabs(hi[i]) < 1e6 && (hi[i] == 0 || fabs(hi[i]) > 1e-2)) { p[i] = hi[i]; dir[i] = -1; ++at; } }
    if (!at) discard();
    for (int i = 0; i < n; ++i) if (!dir[i] && fabs(p[i]) < 1e-3) p[i] = 1e-3;
    g.notev("params", p); F.nl->setParameters(tovec(p)); Dirs d = gen_dirs(g); V x = to_input(F.f.get(), d); g.notev("x", x); vec J = F.nl->parametersJacobian(tovec(x)); V v0 = vals(F.f.get(), x); if (!all_finite(v0)) { g.label("undefined at the bound"); return; }
    for (auto& q : parts(t)) if (q.p->k == SGD) for (double y : p) if (fabs(y - acos(d.c[2])) < 4e-3 * (1 + fabs(y)) || fabs(y - acos(d.c[5])) < 4e-3 * (1 + fabs(y))) discard();
    auto eval = [&](int i, double h) { V q = p; q[i] += h; F.nl->setParameters(tovec(q)); return vals(F.f.get(), x); };
    for (int i = 0; i < n; ++i) if (dir[i]) {
        const double h = dir[i] * 1e-3; V a = eval(i, h), b = eval(i, h / 2), c = eval(i, h / 4), e = eval(i, h / 8);
        for (int y = 0; y < t.nY; ++y) {
            double d1 = (a[y] - v0[y]) / h, d2 = (b[y] - v0[y]) / (h / 2), d3 = (c[y] - v0[y]) / (h / 4), d4 = (e[y] - v0[y]) / (h / 8), r1 = 2 * d2 - d1, r2 = 2 * d3 - d2, r3 = 2 * d4 - d3, R1 = (4 * r2 - r1) / 3, R = (4 * r3 - r2) / 3, err = fabs(R - R1), round = 1e-12 * std::max(fabs(v0[y]), fabs(a[y])) / fabs(h);
            double j = J[y * n + i]; if (!(err < 1e-4 * fabs(R) + 100 * round + 1e-12)) { g.label("not differentiable here"); continue; }
            CHECK(std::isfinite(j), "d value[" << y << "] / d p[" << i << "] is " << fmt(j) << " at the bound, where the value is " << fmt(v0[y]) << " and the difference quotient " << fmt(R));
            CHECK(fabs(j - R) <= 1e-4 * std::max(fabs(j), fabs(R)) + 100 * err + 100 * round + 1e-9, "d value[" << y << "] / d p[" << i << "] = " << fmt(j) << " but the one-sided difference quotient is " << fmt(R) << " (+-" << fmt(err + round) << ")"); g.nontrivial(); g.label(plugin(parts(t)[0].p->k)); }
    }
}
// ---- P15 ------------------------------------------------------------------------------------------------------
PROPERTY(composition) {
    Tree t = gen_tree(g, PRODUCT | SUM); gen_all_pars(g, t); Fun F = make(g, t, false); label_tree(g, t);
    V p0; // fixed parts keep the values they started with
    V p = free_pars(t); F.nl->setParameters(tovec(p)); g.notev("params", p);
    // the same parts, as functions of their own
    std::vector<ptr<function> > fs;
    for (auto& q : parts(t)) {
        arguments a = arguments::create_arguments("--func " + part_str(*q.p, false)); function* f = plugins_manager::get_function(a, F.d->parametrization()); CHECK(f, "part"); fs.push_back(ptr<function>(f));
        f->bootstrap(F.d, a); if (q.free) dynamic_cast<nonlinear_function*>(f)->setParameters(tovec(q.p->pars));
    }
    // the parameters and their bounds are those of the free parts, one after the other
    { vec lo = F.nl->getParametersMin(), hi = F.nl->getParametersMax(), cur = F.nl->parameters(); int i = 0, k = 0; CHECK(lo.size() == (int)p.size() && hi.size() == lo.size() && cur.size() == lo.size(), "sizes of the parameter vector and its bounds");
      for (auto& q : parts(t)) { nonlinear_function* f = dynamic_cast<nonlinear_function*>(fs[k].get()); if (q.free) { vec l = f->getParametersMin(), h = f->getParametersMax(), c = f->parameters();
          for (int j = 0; j < c.size(); ++j, ++i) CHECK(same_bits(l[j], lo[i]) && same_bits(h[j], hi[i]) && same_bits(c[j], cur[i]), "parameter " << j << " of part " << k << ": " << fmt(cur[i]) << " in [" << fmt(lo[i]) << "," << fmt(hi[i]) << "], alone " << fmt(c[j]) << " in [" << fmt(l[j]) << "," << fmt(h[j]) << "]"); } ++k; } }
    for (int rep = 0; rep < 2; ++rep) {
        Dirs d = gen_dirs(g); V x = to_input(F.f.get(), d), c = from_input(F.f.get(), x);
        auto part_val = [&](int k) { params::input in = fs[k]->parametrization().input_parametrization(); V y(params::dimension(in)); params::convert(&c[0], params::CARTESIAN, in, &y[0]); return vals(fs[k].get(), y); };
        V want(t.nY, 0.0); int k = 0; double s = 0;
        for (Term& m : t.terms) { V a = part_val(k++); if (m.has_factor) { V b = part_val(k++); for (int i = 0; i < t.nY; ++i) a[i] *= b[i]; } for (int i = 0; i < t.nY; ++i) { want[i] += a[i]; s = std::max(s, fabs(a[i])); } }
        if (t.has_factor) { V b = part_val(k++); for (int i = 0; i < t.nY; ++i) want[i] *= b[i]; }
        V got = vals(F.f.get(), x); CHECK((int)got.size() == t.nY, "channels");
        for (int i = 0; i < t.nY; ++i) if (std::isfinite(want[i])) CHECK(close(got[i], want[i], 1e-6, 1e-10 * (1 + s)), "channel " << i << ": " << fmt(got[i]) << " expected " << fmt(want[i]));
        vec via = (*F.f)(tovec(x)); for (int i = 0; i < t.nY; ++i) CHECK(close(via[i], got[i], 1e-12, 1e-300) || via[i] != via[i], "operator() and value() differ");
        if (s > 0 && d.regular && parts(t).size() > 1) g.nontrivial();
    }
}
// ---- P11 ------------------------------------------------------------------------------------------------------
// what ten saved digits of the parameters are worth in the value (next to a pole, a lot)
static double digits_worth(Fun& F, const V& p, const V& x, int i) {
    double v = vals(F.f.get(), x)[i], s = 0;
    for (size_t j = 0; j < p.size(); ++j) { double m = 0; for (double e : {-1e-9, 1e-9}) { V q = p; q[j] *= 1 + e; F.nl->setParameters(tovec(q)); double d = fabs(vals(F.f.get(), x)[i] - v); m = d > m || d != d ? (d != d ? INFINITY : d) : m; } s += m; }
    F.nl->setParameters(tovec(p)); return s;
}
PROPERTY(save_load) {
    Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); std::string extra; if (g.chance(1, 5)) extra = " --export alta"; if (g.chance(1, 4)) extra += " --input somefile.dat --fitter nonlinear_fitter_eigen";
    Fun F = make(g, t, g.flip(), extra); label_tree(g, t); V p = free_pars(t); F.nl->setParameters(tovec(p)); g.notev("params", p);
    std::string file = pbt::tmpfile("f.func"); F.f->save(file, F.args);
    function* f2 = plugins_manager::load_function(file); std::string content = pbt::slurp(file); unlink(file.c_str());
    CHECK(f2, "cannot be loaded back:\n" << content); ptr<function> o(f2); nonlinear_function* n2 = dynamic_cast<nonlinear_function*>(f2); CHECK(n2, "loaded function is not nonlinear");
    const parameters &a = F.f->parametrization(), &b = f2->parametrization();
    CHECK(a.input_parametrization() == b.input_parametrization() && a.output_parametrization() == b.output_parametrization() && a.dimX() == b.dimX() && a.dimY() == b.dimY(),
          "parametrization " << a.dimX() << "," << a.dimY() << " " << params::get_name(a.input_parametrization()) << "," << params::get_name(a.output_parametrization()) << " became " << b.dimX() << "," << b.dimY() << " " << params::get_name(b.input_parametrization()) << "," << params::get_name(b.output_parametrization()) << "\n" << content);
    CHECK(n2->nbParameters() == (int)p.size(), "number of free parameters " << n2->nbParameters() << " expected " << p.size());
    vec q = n2->parameters(); for (size_t i = 0; i < p.size(); ++i) CHECK(close(q[i], p[i], 2e-9, 1e-300), "parameter " << i << " " << fmt(p[i]) << " loaded as " << fmt(q[i]) << "\n" << content);
    for (int rep = 0; rep < 2; ++rep) { Dirs d = gen_dirs(g); V x = to_input(F.f.get(), d), v = vals(F.f.get(), x), w = vals(f2, x); double s = 0; for (double y : v) s = std::max(s, fabs(y));
        for (int i = 0; i < t.nY; ++i) if (std::isfinite(v[i])) CHECK(close(v[i], w[i], 2e-6, 1e-9 * (1 + s)) || close(v[i], w[i], 2e-6, 4 * digits_worth(F, p, x, i)), "channel " << i << " evaluates to " << fmt(w[i]) << " instead of " << fmt(v[i]) << "\n" << content);
        if (s > 0 && (p.size() > 1)) g.nontrivial(); }
}
// ---- P37 ------------------------------------------------------------------------------------------------------
PROPERTY(initial_vector) {
    Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); bool global = g.flip(); V p = free_pars(t); if (p.empty()) discard(); label_tree(g, t); g.label(global ? "one list" : "a list per part");
    std::string extra; if (global) { extra = " --bootstrap " + vecstr(p); } else if (t.has_factor && !t.fixed_factor) { t.has_factor = t.fixed_lobe = false; p = free_pars(t); }
    Fun F = make(g, t, !global, extra); vec q = F.nl->parameters(); CHECK(q.size() == (int)p.size(), "size " << q.size() << " expected " << p.size());
    for (size_t i = 0; i < p.size(); ++i) CHECK(same_bits(q[i], p[i]), "initial value " << i << " " << fmt(p[i]) << " became " << fmt(q[i])); if (p.size() > 1) g.nontrivial();
}
PROPERTY(initial_file) {
    Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); Fun F = make(g, t, false); label_tree(g, t); V p = free_pars(t); F.nl->setParameters(tovec(p)); if (p.empty()) discard();
    std::string file = pbt::tmpfile("b.func"); F.f->save(file, F.args);
    Fun H = make(g, t, false, " --bootstrap " + file); unlink(file.c_str()); vec q = H.nl->parameters(); CHECK(q.size() == (int)p.size(), "size");
    for (size_t i = 0; i < p.size(); ++i) CHECK(close(q[i], p[i], 2e-9, 1e-300), "initial value " << i << " " << fmt(p[i]) << " became " << fmt(q[i])); if (p.size() > 1) g.nontrivial();
    Dirs d = gen_dirs(g); V x = to_input(F.f.get(), d), v = vals(F.f.get(), x), w = vals(H.f.get(), x); double s = 0; for (double y : v) s = std::max(s, fabs(y));
    for (int i = 0; i < t.nY; ++i) if (std::isfinite(v[i])) CHECK(close(v[i], w[i], 2e-6, 1e-9 * (1 + s)) || close(v[i], w[i], 2e-6, 4 * digits_worth(F, p, x, i)), "channel " << i << " starts at " << fmt(w[i]) << " instead of " << fmt(v[i]));
}
// a file which lacks some of the parts, or the header
PROPERTY(initial_partial_file) {
    Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); auto ps = parts(t);
    for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < i; ++j) if (ps[i].p->k == ps[j].p->k) discard();
    Fun F = make(g, t, false); V p = free_pars(t); F.nl->setParameters(tovec(p)); if (p.empty()) discard();
    std::string file = pbt::tmpfile("b.func"); F.f->save(file, F.args); std::string all = pbt::slurp(file);
    std::vector<std::string> sec(1); { std::istringstream in(all); std::string l; while (std::getline(in, l)) { if (l.compare(0, 5, "#FUNC") == 0) sec.push_back(""); sec.back() += l + "\n"; } }
    CHECK(sec.size() == ps.size() + 1, sec.size() - 1 << " functions in the file, expected " << ps.size() << "\n" << all);
    bool header = t.compound || t.has_factor || t.terms[0].has_factor || g.flip(); std::vector<bool> kept; std::string text = header ? sec[0] : "\n"; size_t nk = 0;
    for (size_t i = 0; i < ps.size(); ++i) { bool k = ps.size() == 1 || g.chance(2, 3); kept.push_back(k); nk += k; if (k) text += sec[i + 1]; }
    if (!nk) discard(); { std::ofstream o(file.c_str()); o << text; } g.note("file", text); if (!header) g.label("no header"); g.label(nk == ps.size() ? "complete" : "incomplete"); label_tree(g, t);
    Fun H = make(g, t, false, " --bootstrap " + file); unlink(file.c_str());
    arguments a = arguments::create_arguments(tree_str(t, false)); ptr<function> own(plugins_manager::get_function(a, H.d->parametrization())); own->bootstrap(H.d, a);
    vec w = dynamic_cast<nonlinear_function*>(own.get())->parameters(), q = H.nl->parameters(); CHECK(q.size() == (int)p.size() && w.size() == q.size(), "size " << q.size() << " expected " << p.size());
    int i = 0; for (size_t k = 0; k < ps.size(); ++k) { if (!ps[k].free) continue; for (size_t j = 0; j < ps[k].p->pars.size(); ++j, ++i)
        if (kept[k]) CHECK(close(q[i], p[i], 2e-9, 1e-300), "initial value " << j << " of part " << k << ": " << fmt(p[i]) << " in the file became " << fmt(q[i]));
        else CHECK(same_bits(q[i], w[i]), "initial value " << j << " of part " << k << ", which is not in the file, is " << fmt(q[i]) << " instead of " << fmt(w[i])); }
    if (ps.size() > 1 || !header) g.nontrivial();
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
