// P16 rational functions are ratios of their basis polynomials, P17 save/load of rational functions
#include "alta_gen.h"
#include <core/rational_function.h>
#include <set>
using namespace ag;
typedef std::vector<double> V;
enum Basis { MONO, LEGENDRE, CHEBYCHEV, COSINE };
static const char* plug[] = {"", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"};
static vec tovec(const V& v) { vec r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }

static double poly(Basis b, int n, double x) {
    if (b == MONO) { double r = 1; while (n--) r *= x; return r; }
    double p0 = 1, p1 = x; if (n == 0) return 1;
    for (int k = 2; k <= n; ++k) { double p = b == CHEBYCHEV ? 2 * x * p1 - p0 : ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p; }
    return p1;
}
struct R { ptr<function> f; rational_function* r; Basis b; int nX, nY, np, nq; params::input in; params::output out; V lo, hi; std::vector<V> A, B; std::string cmd; };
static R gen(G& g, int maxnp) {
    R r; r.b = (Basis)g.below(4); r.nY = g.range(1, 3); r.in = params::UNKNOWN_INPUT; r.out = g.chance(1, 2) ? params::UNKNOWN_OUTPUT : r.nY == 3 ? params::RGB_COLOR : r.nY == 1 ? params::INV_STERADIAN : params::UNKNOWN_OUTPUT;
    r.nX = g.range(1, 4);
    if (g.chance(1, 3)) { const PIn& q = g.pick(inputs()); if (q.dim <= 6) { r.in = q.p; r.nX = q.dim; } }
    if (r.b == COSINE && r.in != params::UNKNOWN_INPUT) { static const std::vector<params::input> full = {params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, params::RUSIN_TH_TD, params::ISOTROPIC_TV_TL_DPHI, params::RUSIN_TH_PH_TD_PD}; r.in = g.pick(full); r.nX = params::dimension(r.in); }
    r.np = g.range(1, maxnp); r.nq = g.range(1, maxnp);
    for (int k = 0; k < r.nX; ++k) { double a = g.chance(1, 4) ? -1 : g.chance(1, 4) ? 0 : g.uniform(-5, 5), w = g.chance(1, 8) ? 0 : g.chance(1, 4) ? 1 : g.uniform(0.5, 6); r.lo.push_back(a); r.hi.push_back(a + w); }
    r.cmd = plug[r.b][0] ? std::string("--func ") + plug[r.b] : "";
    g.label(plug[r.b][0] ? plug[r.b] : "monomials"); g.label("dim" + std::to_string(r.nX)); g.note("basis", std::string(plug[r.b])); g.note("nX", r.nX); g.note("np", r.np); g.note("nq", r.nq); g.note("nY", r.nY); g.note("in", params::get_name(r.in)); g.notev("min", r.lo); g.notev("max", r.hi);
    parameters P(r.nX, r.nY, r.in, r.out);
    function* f = plugins_manager::get_function(arguments::create_arguments(r.cmd), P); CHECK(f, "no function"); r.f = ptr<function>(f);
    r.r = dynamic_cast<rational_function*>(f); CHECK(r.r, "not a rational function: " << r.cmd);
    r.r->setMin(tovec(r.lo)); r.r->setMax(tovec(r.hi)); r.r->setSize(r.np, r.nq);
    return r;
}
static double coef(G& g) { int k = g.below(8); return k == 0 ? 0 : k == 1 ? (double)g.range(-3, 3) : k == 2 ? g.real(-1e3, 1e3) : g.uniform(-2, 2); }
static void gen_coefs(G& g, R& r) {
    r.A.clear(); r.B.clear();
    for (int y = 0; y < r.nY; ++y) { V a, b; for (int i = 0; i < r.np; ++i) a.push_back(coef(g)); for (int i = 0; i < r.nq; ++i) b.push_back(i ? coef(g) : g.chance(1, 2) ? 1.0 : g.uniform(0.2, 5) * (g.flip() ? 1 : -1)); r.A.push_back(a); r.B.push_back(b); }
}
static V point(G& g, const R& r) {
    V x; if (r.b == COSINE && r.in != params::UNKNOWN_INPUT) {
        double tv = g.uniform(0.05, 1.5), tl = g.uniform(0.05, 1.5), pv = g.uniform(-3, 3), pl = g.uniform(-3, 3);
        double c[6] = {sin(tv) * cos(pv), sin(tv) * sin(pv), cos(tv), sin(tl) * cos(pl), sin(tl) * sin(pl), cos(tl)}, y[6]; params::convert(c, params::CARTESIAN, r.in, y); x.assign(y, y + r.nX); return x; }
    for (int k = 0; k < r.nX; ++k) { double w = r.hi[k] - r.lo[k]; if (w == 0) w = 0.05; int q = g.below(8); x.push_back(q == 0 ? r.lo[k] : q == 1 ? r.hi[k] : q == 2 ? r.lo[k] + w * g.uniform(-0.5, 1.5) : r.lo[k] + w * g.unit()); }
    V y = x; g.again(&x[0], r.nX); for (int k = 0; k < r.nX; ++k) { double w = r.hi[k] - r.lo[k]; if (w == 0) w = 0.05; if (!(x[k] >= r.lo[k] - w / 2 && x[k] <= r.hi[k] + w / 2)) x[k] = y[k]; }
    g.mem = x; return x;
}
struct Ref { double p, q, sp, sq; V bp; };
static double basis(const R& r, const rational_function_1d* rf, const std::vector<int>& deg, const V& x, bool num) {
    double s = 1; vec lo = rf->min(), hi = rf->max();
    for (int k = 0; k < r.nX; ++k) s *= poly(r.b, deg[k], 2 * ((x[k] - lo[k]) / (hi[k] - lo[k]) - 0.5));
    if (num && r.b == COSINE && r.in != params::UNKNOWN_INPUT) { double c[6]; params::convert(&x[0], r.in, params::CARTESIAN, c); s *= c[2] * c[5]; }
    return s;
}
static double amplitude(const R& r, const rational_function_1d* rf, const std::vector<int>& deg, const V& x) {
    double s = 1; vec lo = rf->min(), hi = rf->max();
    for (int k = 0; k < r.nX; ++k) s *= std::max(1.0, fabs(poly(r.b, deg[k], 2 * ((x[k] - lo[k]) / (hi[k] - lo[k]) - 0.5))));
    return s;
}
static Ref ref(const R& r, const rational_function_1d* rf, int y, const V& x) {
    Ref o = {0, 0, 0, 0, {}};
    for (int i = 0; i < r.np; ++i) { double t = r.A[y][i] * basis(r, rf, rf->index2degree(i), x, true); o.p += t; o.sp += fabs(r.A[y][i]) * amplitude(r, rf, rf->index2degree(i), x); }
    for (int i = 0; i < r.nq; ++i) { double t = r.B[y][i] * basis(r, rf, rf->index2degree(i), x, false); o.q += t; o.sq += fabs(r.B[y][i]) * amplitude(r, rf, rf->index2degree(i), x); }
    return o;
}
static void check_domain(const R& r, const rational_function_1d* rf) {
    vec lo = rf->min(), hi = rf->max();
    for (int k = 0; k < r.nX; ++k)
        if (r.lo[k] != r.hi[k]) CHECK(close(lo[k], r.lo[k], 1e-9, 1e-12) && close(hi[k], r.hi[k], 1e-9, 1e-12), "domain of coordinate " << k << " is [" << fmt(lo[k]) << "," << fmt(hi[k]) << "]");
        else CHECK(lo[k] < r.lo[k] && hi[k] > r.hi[k], "degenerate coordinate " << k << " keeps the domain [" << fmt(lo[k]) << "," << fmt(hi[k]) << "]");
}
static void check_values(G& g, const R& r, const char* when, double tol = 1e-9) {
    for (int it = 0; it < 3; ++it) {
        V x = point(g, r); vec xv = tovec(x); vec v = r.f->value(xv); CHECK(v.size() == r.nY, when << ": value has " << v.size() << " channels");
        for (int y = 0; y < r.nY; ++y) {
            rational_function_1d* rf = r.r->get(y); Ref o = ref(r, rf, y, x); if (!(fabs(o.q) > 1e-6 * o.sq) || o.q == 0) continue;
            double w = o.p / o.q, t = tol * (o.sp / fabs(o.q) + fabs(w) * o.sq / fabs(o.q)) * (1 + r.np + r.nq);
            CHECK(fabs(v[y] - w) <= t + 1e-300, when << ": channel " << y << " at " << fmtv(x) << " is " << fmt(v[y]) << " expected " << fmt(w) << " a=" << fmtv(r.A[y]) << " b=" << fmtv(r.B[y]));
            double vr = rf->value(xv)[0]; CHECK(close(vr, v[y], 1e-12, 0) || (vr != vr && v[y] != v[y]), when << ": channel " << y << " differs from its own value");
            // numerator and denominator are available separately
            double P = rf->p(xv)[0], Q = rf->q(xv)[0]; double b0 = r.B[y][0];
            CHECK(fabs(P * b0 - o.p) <= tol * (o.sp + 1e-300) * (1 + r.np), when << ": numerator " << fmt(P * b0) << " expected " << fmt(o.p)); CHECK(fabs(Q * b0 - o.q) <= tol * o.sq * (1 + r.nq), when << ": denominator " << fmt(Q * b0) << " expected " << fmt(o.q));
            if (fabs(w) > 1e-9 && r.np + r.nq > 2) g.nontrivial();
        }
    }
}
// the coefficients handed out, one by one, as vectors or printed, are those that make the values
static void check_coefs(G& g, const R& r) {
    (void)g;
    for (int y = 0; y < r.nY; ++y) {
        rational_function_1d* rf = r.r->get(y); vec p = rf->getP(), q = rf->getQ(); double b0 = r.B[y][0];
        CHECK((int)p.size() == r.np && (int)q.size() == r.nq, "channel " << y << " hands out " << p.size() << " and " << q.size() << " coefficients of " << r.np << " and " << r.nq);
        for (int i = 0; i < r.np; ++i) CHECK(p[i] == rf->getP(i) && close(p[i] * b0, r.A[y][i], 1e-12, 1e-300), "channel " << y << " numerator coefficient " << i << " is " << fmt(p[i]) << " of " << fmtv(r.A[y]) << " / " << fmt(b0));
        for (int i = 0; i < r.nq; ++i) CHECK(q[i] == rf->getQ(i) && close(q[i] * b0, r.B[y][i], 1e-12, 1e-300), "channel " << y << " denominator coefficient " << i << " is " << fmt(q[i]) << " of " << fmtv(r.B[y]) << " / " << fmt(b0));
        std::ostringstream o; o.precision(17); o << *rf; std::string t = o.str(); for (auto& c : t) if (c == '[' || c == ']' || c == ',' || c == '=') c = ' ';
        std::istringstream in(t); std::string n; double c; in >> n; CHECK(n == "p", "printed " << o.str());
        for (int i = 0; i < r.np; ++i) { in >> c; CHECK(in && close(c, p[i], 1e-14, 1e-300), "printed " << o.str() << " for numerator coefficient " << i << " = " << fmt(p[i])); }
        in >> n; CHECK(n == "q", "printed " << o.str());
        for (int i = 0; i < r.nq; ++i) { in >> c; CHECK(in && close(c, q[i], 1e-14, 1e-300), "printed " << o.str() << " for denominator coefficient " << i << " = " << fmt(q[i])); }
    }
}
PROPERTY(rational_value) {
    R r = gen(g, 12); gen_coefs(g, r);
    for (int y = 0; y < r.nY; ++y) { rational_function_1d* rf = r.r->get(y); CHECK(rf, "no function for channel " << y); rf->update(tovec(r.A[y]), tovec(r.B[y])); check_domain(r, rf); }
    check_values(g, r, "first coefficients"); check_coefs(g, r);
    int op = g.below(6);
    if (op == 5) { // coefficients in another number
        r.np = g.range(1, 14); r.nq = g.range(1, 14); gen_coefs(g, r); for (int y = 0; y < r.nY; ++y) r.r->get(y)->update(tovec(r.A[y]), tovec(r.B[y])); check_values(g, r, "after an update of another size"); check_coefs(g, r); g.label("update of another size"); }
    if (op == 0) { gen_coefs(g, r); for (int y = 0; y < r.nY; ++y) r.r->get(y)->update(tovec(r.A[y]), tovec(r.B[y])); check_values(g, r, "second coefficients"); g.label("update twice"); }
    if (op == 1) { // resizing one channel function keeps the enumeration
        r.np = g.range(1, 14); r.nq = g.range(1, 14); gen_coefs(g, r); for (int y = 0; y < r.nY; ++y) { r.r->get(y)->resize(r.np, r.nq); r.r->get(y)->update(tovec(r.A[y]), tovec(r.B[y])); } check_values(g, r, "after resize"); check_coefs(g, r); g.label("resize"); }
    if (op == 2) { // a new size starts from new functions
        r.np = g.range(1, 14); r.nq = g.range(1, 14); r.r->setSize(r.np, r.nq); gen_coefs(g, r); for (int y = 0; y < r.nY; ++y) r.r->get(y)->update(tovec(r.A[y]), tovec(r.B[y])); check_values(g, r, "after setSize"); g.label("setSize"); }
    if (op == 4) { // another number of channels: those that remain are kept
        int old = r.nY, now = g.range(1, 7); r.r->setDimY(now); CHECK(r.f->parametrization().dimY() == now, "dimension of the output"); auto A = r.A, B = r.B; r.nY = now; gen_coefs(g, r);
        for (int y = 0; y < now; ++y) if (y < old) { r.A[y] = A[y]; r.B[y] = B[y]; } else { CHECK(r.r->get(y), "no function for channel " << y << " of " << now << ", grown from " << old); r.r->get(y)->update(tovec(r.A[y]), tovec(r.B[y])); }
        check_values(g, r, "after setDimY"); check_coefs(g, r); g.label("setDimY"); }
    if (op == 3) { // copying from another function with the same parametrization
        parameters P(r.nX, r.nY, r.in, r.out); function* f2 = plugins_manager::get_function(arguments::create_arguments(r.cmd), P); rational_function* q = dynamic_cast<rational_function*>(f2); CHECK(q, "no function"); ptr<rational_function> Q(q);
        q->setMin(tovec(r.lo)); q->setMax(tovec(r.hi)); q->setSize(g.range(1, 5), g.range(1, 5)); for (int y = 0; y < r.nY; ++y) q->update(y, (q->get(y), r.r->get(y)));
        for (int y = 0; y < r.nY; ++y) { vec a = q->get(y)->getP(), b = r.r->get(y)->getP(), c = q->get(y)->getQ(), d = r.r->get(y)->getQ(); CHECK(a.size() == b.size() && c.size() == d.size() && a == b && c == d, "copied coefficients differ"); }
        R s = r; s.f = Q; s.r = q; check_values(g, s, "copy"); g.label("copy"); }
}
PROPERTY(rational_basis) {   // enumeration of the degrees
    int nX = g.range(1, 6), n = g.range(2, nX == 1 ? 20 : 150); std::string cmd = g.flip() ? "" : std::string("--func ") + plug[1 + g.below(3)];
    function* f = plugins_manager::get_function(arguments::create_arguments(cmd), parameters(nX, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT)); ptr<function> F(f); rational_function* r = dynamic_cast<rational_function*>(f); CHECK(r, "no function");
    vec lo(nX), hi(nX); for (int i = 0; i < nX; ++i) { lo[i] = 0; hi[i] = 1; } r->setMin(lo); r->setMax(hi); r->setSize(n, n); rational_function_1d* rf = r->get(0);
    g.note("nX", nX); g.note("n", n); std::set<std::vector<int>> seen; int last = 0; std::vector<long> per;
    for (int i = 0; i < n; ++i) {
        std::vector<int> d = rf->index2degree(i); CHECK((int)d.size() == nX, "degree vector of size " << d.size()); int t = 0; for (int e : d) { CHECK(e >= 0, "negative degree at index " << i); t += e; }
        CHECK(i || t == 0, "the first basis function is not the constant"); CHECK(seen.insert(d).second, "index " << i << " repeats a degree vector");
        CHECK(t == last || t == last + 1, "total degree goes from " << last << " to " << t << " at index " << i);
        if (t != last) { double c = 1; for (int k = 1; k < nX; ++k) c = c * (last + k) / k; CHECK(per.back() == (long)(c + .5), "only " << per.back() << " functions of total degree " << last << " before the next degree"); }
        if (per.empty() || t != last) per.push_back(0); per.back()++; last = t;
    }
    // the numerator and denominator basis functions use that enumeration
    Basis b = cmd.empty() ? MONO : cmd.find("legendre") != std::string::npos ? LEGENDRE : cmd.find("cheby") != std::string::npos ? CHEBYCHEV : COSINE;
    V x; for (int k = 0; k < nX; ++k) x.push_back(g.unit()); vec xv = tovec(x);
    for (int q = 0; q < 4; ++q) { int i = g.below(n); std::vector<int> d = rf->index2degree(i); double w = 1; for (int k = 0; k < nX; ++k) w *= poly(b, d[k], 2 * x[k] - 1);
        double p = rf->p(xv, i), qq = rf->q(xv, i); CHECK(close(p, w, 1e-8, 1e-9), "numerator basis " << i << " is " << fmt(p) << " expected " << fmt(w) << " x=" << fmtv(x)); CHECK(close(qq, w, 1e-8, 1e-9), "denominator basis " << i << " is " << fmt(qq) << " expected " << fmt(w)); }
    g.label("dim" + std::to_string(nX)); if (nX > 1 && n > 5) g.nontrivial();
}
PROPERTY(rational_save_load) {
    R r = gen(g, 12); gen_coefs(g, r); for (int y = 0; y < r.nY; ++y) r.r->get(y)->update(tovec(r.A[y]), tovec(r.B[y]));
    arguments args = arguments::create_arguments(r.cmd + (g.flip() ? " --np 10 --output x" : "")); std::string file = pbt::tmpfile("r.func"); r.f->save(file, args);
    ptr<function> L(plugins_manager::load_function(file)); std::string txt = pbt::slurp(file); CHECK(L, "cannot load the saved function\n" << txt.substr(0, 1500)); rational_function* q = dynamic_cast<rational_function*>(L.get()); CHECK(q, "the loaded function is not rational");
    CHECK(typeid(*q) == typeid(*r.r), "the loaded function has another basis");
    CHECK(q->parametrization().dimX() == r.nX && q->parametrization().dimY() == r.nY && q->parametrization().input_parametrization() == r.in && q->parametrization().output_parametrization() == r.out, "parametrization changed\n" << txt.substr(0, 600));
    vec lo = q->min(), hi = q->max(); for (int k = 0; k < r.nX; ++k) CHECK(close(lo[k], r.lo[k], 1e-10, 1e-300) && close(hi[k], r.hi[k], 1e-10, 1e-300), "domain of coordinate " << k << " [" << fmt(r.lo[k]) << "," << fmt(r.hi[k]) << "] became [" << fmt(lo[k]) << "," << fmt(hi[k]) << "]");
    for (int y = 0; y < r.nY; ++y) { vec a = q->get(y)->getP(), b = q->get(y)->getQ(), a0 = r.r->get(y)->getP(), b0 = r.r->get(y)->getQ(); CHECK(a.size() == r.np && b.size() == r.nq, "sizes " << a.size() << "/" << b.size() << " expected " << r.np << "/" << r.nq);
        for (int i = 0; i < r.np; ++i) CHECK(close(a[i], a0[i], 1e-9, 0), "numerator coefficient " << i << " of channel " << y << " " << fmt(a0[i]) << " became " << fmt(a[i]));
        for (int i = 0; i < r.nq; ++i) CHECK(close(b[i], b0[i], 1e-9, 0), "denominator coefficient " << i << " of channel " << y << " " << fmt(b0[i]) << " became " << fmt(b[i])); }
    R s = r; s.f = L; s.r = q; check_values(g, s, "reloaded", 3e-7);
    std::string file2 = pbt::tmpfile("r2.func"); L->save(file2, args); CHECK(pbt::slurp(file2) == txt, "saving the reloaded function changes the file\n" << txt.substr(0, 800) << "\n---\n" << pbt::slurp(file2).substr(0, 800)); unlink(file.c_str()); unlink(file2.c_str());
    g.nontrivial();
}

// ---- P30 ------------------------------------------------------------------------------------------------------
#include <dlfcn.h>
PROPERTY(cpp_export) {
    int n = g.range(1, 8); std::vector<R> rs; std::string src = "#include <cmath>\n#include <Eigen/Core>\n";
    for (int i = 0; i < n; ++i) {
        R r; do r = gen(g, 8); while (r.b != MONO); gen_coefs(g, r); for (int y = 0; y < r.nY; ++y) r.r->get(y)->update(tovec(r.A[y]), tovec(r.B[y]));
        arguments args = arguments::create_arguments(r.cmd + " --export " + g.pick(std::vector<std::string>{"C++", "c++", "cpp"})); std::string file = pbt::tmpfile("e.cpp"); r.f->save(file, args);
        src += "namespace n" + std::to_string(i) + " {\n" + pbt::slurp(file) + "}\nextern \"C\" int e" + std::to_string(i) + "(const double* x, int n, double* r) { n" + std::to_string(i) + "::vec v(n); for (int i = 0; i < n; ++i) v[i] = x[i]; n" + std::to_string(i) + "::vec y = n" + std::to_string(i) + "::brdf(v); for (int i = 0; i < y.size(); ++i) r[i] = y[i]; return y.size(); }\n";
        unlink(file.c_str()); rs.push_back(r); }
    std::string cpp = pbt::tmpfile("all.cpp"), so = pbt::tmpfile("all.so"), log = pbt::tmpfile("all.log"); pbt::spew(cpp, src);
    int rc = system(("g++ -std=c++11 -O0 -w -fPIC -shared -I/usr/include/eigen3 " + cpp + " -o " + so + " 2> " + log).c_str()); CHECK(rc == 0, "the exported code does not compile: " << pbt::slurp(log).substr(0, 600) << "\n" << src.substr(0, 3000));
    void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); CHECK(h, "dlopen " << dlerror()); unlink(cpp.c_str()); unlink(so.c_str()); unlink(log.c_str());
    for (int i = 0; i < n; ++i) { R& r = rs[i]; auto e = (int (*)(const double*, int, double*))dlsym(h, ("e" + std::to_string(i)).c_str());
        for (int it = 0; it < 6; ++it) { V x = point(g, r); vec xv = tovec(x); vec v = r.f->value(xv); double out[8]; int m = e(&x[0], r.nX, out); CHECK(m == r.nY, "exported code returns " << m << " channels instead of " << r.nY);
            for (int y = 0; y < r.nY; ++y) { rational_function_1d* rf = r.r->get(y); Ref o = ref(r, rf, y, x); bool flat = false; for (int k = 0; k < r.nX; ++k) flat |= r.lo[k] == r.hi[k];
                if (!(fabs(o.q) > 1e-4 * o.sq) || o.q == 0 || flat) continue;
                double t = 3e-5 * (o.sp / fabs(o.q) + fabs(v[y]) * o.sq / fabs(o.q)) * 4;
                CHECK(fabs(out[y] - v[y]) <= t, "exported code gives " << fmt(out[y]) << " instead of " << fmt(v[y]) << " in channel " << y << " at " << fmtv(x) << "\n" << src.substr(0, 2500)); if (fabs(v[y]) > 1e-6) g.nontrivial(); } } }
    dlclose(h);
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
