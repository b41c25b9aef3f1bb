// P23-P27: MERL, UTIA, slice and ASTM data, grid and RBF interpolants
#include "exr_gen.h"
using namespace ag; typedef std::vector<double> V;
#define PI M_PI
static ptr<data> load(const std::string& file, const std::string& type, const std::string& opts = "") {
    std::string f = file; arguments a = arguments::create_arguments(opts); return plugins_manager::load_data(f, type, a); }
static vec tovec(const V& x) { vec v(x.size()); for (size_t i = 0; i < x.size(); ++i) v[i] = x[i]; return v; }
static V head(const vec& r, int n) { V v(n); for (int i = 0; i < n; ++i) v[i] = r[i]; return v; }
// deterministic table content: cheap and different everywhere
struct Table { uint64_t seed; int style; double operator()(int c, int i) const { uint64_t z = G::mix(seed ^ (uint64_t(i) * 3 + c)); double u = double(z >> 11) / 9007199254740992.0;
    if (style == 1) return u < 0.1 ? -1 : u * 1500; if (style == 2) return (z & 1 ? -1 : 1) * u * 3; if (style == 3) return floor(u * 100); return 1e-3 + u * 20; } };
static Table gen_table(G& g) { Table t; t.seed = g.bits(); t.style = g.below(4); g.label("style" + std::to_string(t.style)); return t; }
static bool fit_rows(const ptr<data>& d, int nx, int ny, params::input in, params::output out, int size) {
    const parameters& p = d->parametrization(); return d->size() == size && (int)p.dimX() == nx && (int)p.dimY() == ny && p.input_parametrization() == in && p.output_parametrization() == out; }

// ------------------------------------------------------------------------------------------------------------ MERL
static const int TH = 90, TD = 90, PD = 180, MN = TH * TD * PD; static const double SC[3] = {1.0 / 1500, 1.15 / 1500, 1.66 / 1500};
static std::string merl_bytes(const Table& t) { std::string s(12 + size_t(MN) * 24, '\0'); int d[3] = {TH, TD, PD}; memcpy(&s[0], d, 12); double* p = (double*)malloc(size_t(MN) * 24);
    for (int c = 0; c < 3; ++c) for (int i = 0; i < MN; ++i) p[size_t(c) * MN + i] = t(c, i); memcpy(&s[12], p, size_t(MN) * 24); free(p); return s; }
static void merl_centre(int i, double x[3]) { int p = i % PD, d = i / PD % TD, h = i / (PD * TD); x[0] = (h + .5) * (h + .5) / (TH * TH) * PI / 2; x[1] = (d + .5) / TD * PI / 2; x[2] = (p + .5) / PD * PI; }
// index of the cell a configuration falls in, or -1 (outside) / -2 (too close to a boundary to tell)
static int cell(double u, int n) { double e = 1e-7 * (1 + fabs(u)); if (u <= 0) return u > -e ? 0 : -1; if (u >= n) return u < n + e ? n - 1 : -1; int k = floor(u); if (u - k < e && k > 0) return -2; if (k + 1 - u < e && k < n - 1) return -2; return k; }
static void merl_lookup(G& g, const ptr<data>& d, const Table& t) {
    for (int it = 0; it < 60; ++it) {
        int i = g.chance(1, 8) ? (g.flip() ? 0 : MN - 1) : (int)g.below(MN); vec r = d->get(i); double x[3]; merl_centre(i, x); CHECK(r.size() == 6, "row of size " << r.size());
        for (int k = 0; k < 3; ++k) CHECK(close(r[k], x[k], 1e-12, 1e-14), "sample " << i << " coordinate " << k << " is " << fmt(r[k]) << " instead of " << fmt(x[k]));
        bool neg = false; V w(3); for (int k = 0; k < 3; ++k) { double v = t(k, i); w[k] = v * SC[k]; neg |= v < 0; CHECK(close(r[3 + k], w[k], 1e-12, 0), "sample " << i << " channel " << k << " is " << fmt(r[3 + k]) << " instead of " << fmt(w[k])); }
        vec v = d->value(tovec(head(r, 3))); for (int k = 0; k < 3; ++k) CHECK(close(v[k], neg ? 0 : w[k], 1e-12, 0), "value at the coordinates of sample " << i << " channel " << k << " is " << fmt(v[k]) << " instead of " << fmt(neg ? 0 : w[k])); }
    for (int it = 0; it < 60; ++it) {
        double x[3] = {g.uniform(0, PI / 2), g.uniform(0, PI / 2), g.uniform(0, PI)}; int edge = g.below(12); if (edge < 3) x[edge] = edge == 2 ? PI : PI / 2; else if (edge < 6) x[edge - 3] = 0; else if (edge == 6) x[0] = g.uniform(0, 0.01); g.again(x, 3);
        int h = cell(sqrt(x[0] / (PI / 2)) * TH, TH), dd = cell(x[1] / (PI / 2) * TD, TD), p = cell(x[2] / PI * PD, PD); if (h < 0 || dd < 0 || p < 0) continue;
        int i = p + PD * (dd + TD * h); int fold = g.below(4); double ph = fold == 1 ? -x[2] : fold == 2 ? 2 * PI - x[2] : x[2];      // mirrored azimuths hold the same value
        V q = {x[0], x[1], ph}; bool neg = false; for (int k = 0; k < 3; ++k) neg |= t(k, i) < 0; vec v = d->value(tovec(q));
        for (int k = 0; k < 3; ++k) CHECK(close(v[k], neg ? 0 : t(k, i) * SC[k], 1e-12, 0), "value at " << fmtv(q) << " channel " << k << " is " << fmt(v[k]) << ", the cell " << i << " holds " << fmt(t(k, i) * SC[k])); }
    for (int it = 0; it < 6; ++it) { V q = {g.uniform(0, 1.5), g.uniform(0, 1.5), g.uniform(0, 3)}; int k = g.below(2); q[k] = g.flip() ? g.uniform(-3, -1e-6) : g.uniform(PI / 2 + 1e-6, 5); vec v = d->value(tovec(q)); CHECK(v[0] == 0 && v[1] == 0 && v[2] == 0, "value outside of the domain at " << fmtv(q)); }
}
PROPERTY(merl_load) {
    Table t = gen_table(g); std::string s = merl_bytes(t), f = pbt::tmpfile("m.binary"); pbt::spew(f, s); ptr<data> d = load(f, "data_merl"); unlink(f.c_str());
    CHECK(d && fit_rows(d, 3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR, MN), "file not loaded with its size and parametrization"); merl_lookup(g, d, t); g.nontrivial();
    const double m[3] = {PI / 2, PI / 2, 2 * PI}; for (int k = 0; k < 3; ++k) CHECK(d->min()[k] == 0 && close(d->max()[k], m[k], 1e-12, 0), "domain");
}
PROPERTY(merl_save) {
    Table t = gen_table(g); ptr<data> d; int mode = g.below(2); std::string s = merl_bytes(t), f = pbt::tmpfile("m.binary");
    if (mode) { pbt::spew(f, s); d = load(f, "data_merl"); }
    else { d = plugins_manager::get_data("data_merl", g.below(5), parameters(3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR), arguments()); CHECK(d && d->size() == MN, "new MERL object"); vec r(6); r.setZero(); for (int i = 0; i < MN; ++i) { for (int k = 0; k < 3; ++k) r[3 + k] = t(k, i) * SC[k]; d->set(i, r); } }
    std::map<int, V> over; int n = g.below(12); for (int i = 0; i < n; ++i) { int id = g.below(MN); V v = {g.uniform(0, 9), g.uniform(0, 9), g.uniform(0, 9)}; vec r(6); r << 0, 0, 0, v[0], v[1], v[2]; d->set(id, r); over[id] = v; }
    if (n) g.nontrivial();
    d->save(f); std::string o = pbt::slurp(f); CHECK(o.size() == s.size() && o.compare(0, 12, s, 0, 12) == 0, "saved file has " << o.size() << " bytes instead of " << s.size() << " or other dimensions");
    const double* a = (const double*)(s.data() + 12); const double* b = (const double*)(o.data() + 12);
    for (int c = 0; c < 3; ++c) for (int i = 0; i < MN; ++i) { double w, v; memcpy(&w, a + size_t(c) * MN + i, 8); memcpy(&v, b + size_t(c) * MN + i, 8); auto e = over.find(i); if (e != over.end()) w = e->second[c] / SC[c]; CHECK(close(v, w, 1e-12, 0), "saved table entry " << i << " channel " << c << " is " << fmt(v) << " instead of " << fmt(w)); }
    ptr<data> e = load(f, "data_merl"); unlink(f.c_str()); CHECK(e, "saved file does not load"); for (int it = 0; it < 2000; ++it) { int i = g.below(MN); vec p = d->get(i), q = e->get(i); for (int k = 0; k < 6; ++k) CHECK(close(p[k], q[k], 1e-12, 0), "sample " << i << " changed by saving"); }
}
PROPERTY(merl_invalid) {
    CHECK(plugins_manager::get_data("data_merl", 1, parameters(3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR), arguments()), "plugin");
    int d[3] = {TH, TD, PD}; size_t body = 24 * size_t(MN); int kind = g.below(5); g.nontrivial();
    if (kind == 0) body = g.below(64); else if (kind == 1) body -= g.flip() ? g.range(1, 16) : g.range(1, body); else if (kind == 2) { d[g.below(3)] += g.flip() ? 1 : -1; } else if (kind == 3) { d[g.below(3)] = g.pick(std::vector<int>{0, -1, 45, 360, INT_MAX, INT_MIN}); }
    std::string s((char*)d, 12); if (kind == 4) { body = 0; s.resize(g.below(12)); } s.resize(s.size() + body, '\x01'); std::string f = pbt::tmpfile("m.binary"); pbt::spew(f, s); ptr<data> p = load(f, "data_merl"); unlink(f.c_str());
    CHECK(!p, "invalid file of " << s.size() << " bytes with dimensions " << d[0] << " " << d[1] << " " << d[2] << " loaded");
}
// ------------------------------------------------------------------------------------------------------------ UTIA
static const int UN = 6 * 48 * 6 * 48; static const double UT = PI / 12, UP = PI / 24;
static void utia_coords(int i, int k[4]) { k[3] = i % 48; i /= 48; k[2] = i % 6; i /= 6; k[1] = i % 48; i /= 48; k[0] = i; }
static int utia_id(int a, int b, int c, int d) { return ((a * 48 + b % 48) * 6 + c) * 48 + d % 48; }
static void utia_lookup(G& g, const ptr<data>& d, const Table& t, bool flt) {
    auto val = [&](int c, int i) { double v = t(c, i); return flt ? (double)(float)v : v; };
    for (int it = 0; it < 60; ++it) {
        int i = g.below(UN), k[4]; utia_coords(i, k); vec r = d->get(i); CHECK(r.size() == 7, "row size"); for (int j = 0; j < 4; ++j) { double w = k[j] * (j % 2 ? UP : UT); CHECK(close(r[j], w, 1e-6, 1e-7), "sample " << i << " coordinate " << j << " is " << fmt(r[j]) << " instead of " << fmt(w)); }
        for (int c = 0; c < 3; ++c) CHECK(r[4 + c] == val(c, i), "sample " << i << " channel " << c << " is " << fmt(r[4 + c]) << " instead of " << fmt(val(c, i)));
        vec v = d->value(tovec(head(r, 4))); for (int c = 0; c < 3; ++c) CHECK(fabs(v[c] - val(c, i)) <= 1e-4 * (1 + 21), "value at grid sample " << i << " channel " << c << " is " << fmt(v[c]) << " instead of " << fmt(val(c, i))); }
    for (int it = 0; it < 60; ++it) {
        V q = {g.uniform(0, PI / 2 - 1e-6), g.uniform(-2 * PI, 2 * PI), g.uniform(0, PI / 2 - 1e-6), g.uniform(-2 * PI, 2 * PI)}; if (g.chance(1, 6)) q[g.flip() ? 1 : 3] = g.pick(V{0, PI, -PI, 2 * PI, -2 * PI, 1e-12, -1e-12}); if (g.chance(1, 4)) q[g.flip() ? 0 : 2] = g.pick(V{0, 5 * UT, PI / 2 - 1e-5}); g.again(&q[0], 4);
        int b[4]; double w[4]; for (int j = 0; j < 4; ++j) { double u = j % 2 ? (q[j] < 0 ? q[j] + 2 * PI : q[j]) / UP : q[j] / UT; if (j % 2 && u >= 48) u = 0; b[j] = floor(u); if (j % 2 == 0 && b[j] > 4) b[j] = 4; w[j] = u - b[j]; }
        vec v = d->value(tovec(q));
        for (int c = 0; c < 3; ++c) { double s = 0, lo = 1e300, hi = -1e300, m = 0; for (int e = 0; e < 16; ++e) { double p = 1; int k[4]; for (int j = 0; j < 4; ++j) { int o = e >> j & 1; k[j] = b[j] + o; p *= o ? w[j] : 1 - w[j]; } double x = val(c, utia_id(k[0], k[1], k[2], k[3])); s += p * x; lo = std::min(lo, x); hi = std::max(hi, x); m = std::max(m, fabs(x)); }
            CHECK(fabs(v[c] - s) <= 2e-4 * (m + 1), "value at " << fmtv(q) << " channel " << c << " is " << fmt(v[c]) << ", the surrounding samples give " << fmt(s));
            if (w[0] <= 1 && w[2] <= 1) CHECK(v[c] >= lo - 2e-4 * (m + 1) && v[c] <= hi + 2e-4 * (m + 1), "value outside the range of the surrounding samples"); } }
    for (int it = 0; it < 4; ++it) { V q = {g.uniform(0, 1.5), g.uniform(0, 6), g.uniform(0, 1.5), g.uniform(0, 6)}; q[g.flip() ? 0 : 2] = g.uniform(PI / 2 + 1e-6, 4); vec v = d->value(tovec(q)); CHECK(v[0] == 0 && v[1] == 0 && v[2] == 0, "value below the horizon"); }
}
static std::string utia_bytes(const Table& t) { V v(3 * UN); for (int c = 0; c < 3; ++c) for (int i = 0; i < UN; ++i) v[c * UN + i] = t(c, i); return std::string((char*)v.data(), v.size() * 8); }
PROPERTY(utia_files) {
    Table t = gen_table(g); if (t.style == 1) t.style = 3; bool set = g.chance(1, 3), exr = g.flip(); ptr<data> d; std::string s = utia_bytes(t), f = pbt::tmpfile("u.bin"); if (t.style == 2) g.label("signed"); g.nontrivial();
    if (set) { d = plugins_manager::get_data("data_utia", g.below(5), parameters(4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR), arguments()); CHECK(d, "new UTIA object"); vec r(7); r.setZero(); for (int i = 0; i < UN; ++i) { for (int c = 0; c < 3; ++c) r[4 + c] = t(c, i); d->set(i, r); } }
    else { pbt::spew(f, s); d = load(f, "data_utia"); unlink(f.c_str()); }
    CHECK(d && fit_rows(d, 4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR, UN), "not loaded with its size and parametrization"); utia_lookup(g, d, t, false);
    std::string o = pbt::tmpfile(exr ? "u.exr" : "u2.bin"); d->save(o); if (!exr) CHECK(pbt::slurp(o) == s, "saved table differs"); g.label(exr ? "exr" : "binary"); ptr<data> e = load(o, "data_utia"); unlink(o.c_str()); CHECK(e, "saved file does not load");
    for (int i = 0; i < UN; ++i) { vec a = d->get(i), b = e->get(i); for (int k = 0; k < 7; ++k) CHECK(b[k] == (k > 3 && exr ? (double)(float)a[k] : a[k]), "sample " << i << " changed by saving: " << fmt(a[k]) << " -> " << fmt(b[k])); }
    utia_lookup(g, e, t, exr);
}
struct SliceP { const char* name; params::input p; int dim; double lo[2], hi[2]; bool rev; };
static const std::vector<SliceP>& slices() { static const double h = PI / 2; static const std::vector<SliceP> v = {{"", params::STARK_2D, 2, {0, 0}, {1, 1}, false}, {"STARK_2D", params::STARK_2D, 2, {0, 0}, {1, 1}, false}, {"RUSIN_TH_TD", params::RUSIN_TH_TD, 2, {0, 0}, {h, h}, false},
    {"COS_TH_TD", params::COS_TH_TD, 2, {0, 0}, {1, 1}, false}, {"RUSIN_TH_TD_PD", params::RUSIN_TH_TD_PD, 3, {0, 0}, {h, h}, false}, {"STARK_3D", params::STARK_3D, 3, {0, 0}, {1, 1}, false}, {"ISOTROPIC_TV_TL_DPHI", params::ISOTROPIC_TV_TL_DPHI, 3, {-h, -h}, {h, h}, false},
    {"ISOTROPIC_TL_TV_PROJ_DPHI", params::ISOTROPIC_TL_TV_PROJ_DPHI, 3, {-h, -h}, {h, h}, true}, {"SCHLICK_TL_TK_PROJ_DPHI", params::SCHLICK_TL_TK_PROJ_DPHI, 3, {-h, -h}, {h, h}, true}, {"RETRO_TL_TVL_PROJ_DPHI", params::RETRO_TL_TVL_PROJ_DPHI, 3, {-h, -h}, {h, h}, true}}; return v; }
PROPERTY(slice_cells) {
    const SliceP& P = g.pick(slices()); std::string opt; double phi = PI / 2; if (*P.name) { opt = std::string("--param ") + P.name; if (P.dim == 3 && g.flip()) { int a = g.range(0, 85); opt += " --phi " + std::to_string(a); phi = a * PI / 180; } } g.label(*P.name ? P.name : "default");
    int W = 512, H = 512; ptr<data> d; Table t = gen_table(g); std::map<int, V> over; bool file = g.chance(3, 4); bool half[3] = {false, false, false}; bool gone[3] = {false, false, false};    // channels the image does not have: they read zero
    std::vector<char> halves; g.note("opt", opt);
    if (file) { W = g.chance(1, 4) ? 1 : g.range(1, 40); H = g.chance(1, 4) ? 1 : g.range(1, 40); std::vector<std::string> names = {"B", "G", "R"}; if (g.chance(1, 6)) { g.label("missing channel"); int n = g.range(1, 2); while (n--) { int k = g.below(names.size()); gone[names[k] == "R" ? 0 : names[k] == "G" ? 1 : 2] = true; names.erase(names.begin() + k); } } if (g.flip()) names.insert(names.begin(), "A"); std::vector<std::vector<float>> ch; for (auto& n : names) { std::vector<float> v(W * H); int c = n == "R" ? 0 : n == "G" ? 1 : n == "B" ? 2 : 3; for (int i = 0; i < W * H; ++i) v[i] = c == 3 ? 7.f : (float)t(c, i); ch.push_back(v); }
        if (g.chance(1, 3)) { g.label("half"); for (size_t k = 0; k < names.size(); ++k) { int c = names[k] == "R" ? 0 : names[k] == "G" ? 1 : names[k] == "B" ? 2 : 3; halves.push_back(g.chance(2, 3) && std::all_of(ch[k].begin(), ch[k].end(), [](float v) { return std::fabs(v) < 65000; })); if (c < 3) half[c] = halves.back(); } }
        std::string f = pbt::tmpfile("s.exr"); pbt::spew(f, exr_bytes(W, H, ch, names, halves)); d = load(f, "data_brdf_slice", opt); unlink(f.c_str()); CHECK(d, "image not loaded"); }
    else { d = plugins_manager::get_data("data_brdf_slice", g.below(5), parameters(2, 3, params::STARK_2D, params::RGB_COLOR), arguments::create_arguments(opt)); CHECK(d, "new slice"); vec r(P.dim + 3); r.setZero(); for (int i = 0; i < W * H; ++i) { for (int c = 0; c < 3; ++c) r[P.dim + c] = t(c, i); d->set(i, r); } }
    g.note("size", std::to_string(W) + "x" + std::to_string(H)); CHECK(fit_rows(d, P.dim, 3, P.p, params::RGB_COLOR, W * H), "size, dimensions or parametrization"); if (W * H > 1) g.nontrivial(); g.label(file ? "file" : "new");
    auto want = [&](int c, int i) { auto e = over.find(i); if (e != over.end()) return e->second[c]; if (gone[c]) return 0.; double v = t(c, i); return !file ? v : half[c] ? (double)(_Float16)(float)v : (double)(float)v; };
    auto mk = [&](double a, double b) { V x(P.dim); x[0] = a; x[1] = b; if (P.dim == 3) x[2] = phi; if (P.rev) std::reverse(x.begin(), x.end()); return x; };
    CHECK(d->min().size() == P.dim && d->max().size() == P.dim, "domain");
    for (int it = 0; it < 80; ++it) { int op = g.below(8), i = g.below(W * H);
        if (op < 3) { vec r = d->get(i); V x = mk(P.lo[0] + (i % W + .5) / W * (P.hi[0] - P.lo[0]), P.lo[1] + (i / W + .5) / H * (P.hi[1] - P.lo[1])); CHECK((int)r.size() == P.dim + 3, "row size");
            for (int k = 0; k < P.dim; ++k) { CHECK(close(r[k], x[k], 1e-6, 1e-9), "row " << i << " coordinate " << k << " is " << fmt(r[k]) << " instead of " << fmt(x[k])); CHECK(r[k] >= d->min()[k] && r[k] <= d->max()[k], "row " << i << " outside of the domain"); }
            for (int c = 0; c < 3; ++c) CHECK(r[P.dim + c] == want(c, i), "row " << i << " channel " << c << " is " << fmt(r[P.dim + c]) << " instead of " << fmt(want(c, i)));
            vec v = d->value(tovec(head(r, P.dim))); for (int c = 0; c < 3; ++c) CHECK(v[c] == want(c, i), "value at the coordinates of row " << i << " channel " << c << " is " << fmt(v[c]) << " instead of " << fmt(want(c, i))); }
        else if (op < 5) { V n = {g.uniform(-3, 3), g.real(0, 10), g.uniform(0, 1)}; vec r(P.dim + 3); for (int k = 0; k < P.dim; ++k) r[k] = g.uniform(-1, 1); for (int c = 0; c < 3; ++c) r[P.dim + c] = n[c]; d->set(i, r); over[i] = n; }
        else if (op == 5) { double a = g.chance(1, 5) ? P.hi[0] : g.chance(1, 5) ? P.lo[0] : g.uniform(P.lo[0], P.hi[0]), b = g.chance(1, 5) ? P.hi[1] : g.chance(1, 5) ? P.lo[1] : g.uniform(P.lo[1], P.hi[1]); double ab[2] = {a, b}; g.again(ab, 2); a = ab[0]; b = ab[1];
            int ci = cell((a - P.lo[0]) / (P.hi[0] - P.lo[0]) * W, W), cj = cell((b - P.lo[1]) / (P.hi[1] - P.lo[1]) * H, H); if (ci < 0 || cj < 0) continue; vec v = d->value(tovec(mk(a, b))); for (int c = 0; c < 3; ++c) CHECK(v[c] == want(c, ci + W * cj), "value at " << fmtv(mk(a, b)) << " channel " << c << " is " << fmt(v[c]) << ", its cell holds " << fmt(want(c, ci + W * cj))); }
        else { double a = g.uniform(P.lo[0], P.hi[0]), b = g.uniform(P.lo[1], P.hi[1]); int k = g.below(2); double& o = k ? b : a; int how = g.below(3); o = how == 0 ? P.lo[k] - g.uniform(1e-6, 3) : how == 1 ? P.hi[k] + g.uniform(1e-6, 3) : NAN; vec v = d->value(tovec(mk(a, b))); for (int c = 0; c < 3; ++c) CHECK(v[c] == 0, "value outside of the domain at " << fmtv(mk(a, b)) << " is " << fmt(v[c])); } }
    if (W * H < 5000 || g.chance(1, 4)) { std::string o = pbt::tmpfile("o.exr"); d->save(o); ptr<data> e = load(o, "data_brdf_slice", opt); unlink(o.c_str()); CHECK(e && e->size() == W * H, "saved image does not load"); for (int i = 0; i < W * H; ++i) { vec b = e->get(i), a = d->get(i); for (int k = 0; k < P.dim; ++k) CHECK(a[k] == b[k], "coordinates of row " << i << " changed by saving"); for (int c = 0; c < 3; ++c) CHECK(b[P.dim + c] == (double)(float)want(c, i), "pixel " << i << " channel " << c << " is " << fmt(b[P.dim + c]) << " after saving " << fmt(want(c, i))); } }
}
static std::string gen_exr(G& g, int W, int H) { std::vector<std::vector<float>> ch(3, std::vector<float>(size_t(W) * H)); Table t = gen_table(g); for (int c = 0; c < 3; ++c) for (int i = 0; i < W * H; ++i) ch[c][i] = t(c, i); return exr_bytes(W, H, ch, {"B", "G", "R"}); }
PROPERTY(image_invalid) {      // truncated images, images of the wrong size, other files
    bool utia = g.flip(); std::string s, f; int kind = g.below(5); g.nontrivial(); g.note("kind", kind); g.note("utia", utia);
    CHECK(plugins_manager::get_data(utia ? "data_utia" : "data_brdf_slice", 1, parameters(2, 3, params::STARK_2D, params::RGB_COLOR), arguments()), "plugin");
    if (kind == 0 && utia) { s = std::string(size_t(UN) * 24 - g.range(1, g.flip() ? 20 : UN * 24), '\x01'); f = pbt::tmpfile("i.bin"); }
    else { f = pbt::tmpfile("i.exr"); bool full = utia && kind < 3; int W = full ? 288 : g.range(1, 30), H = full ? 288 : g.range(1, 30); s = gen_exr(g, W, H);
        if (kind < 3) { size_t n = s.size() - (g.flip() ? g.range(1, std::min<size_t>(s.size(), 40)) : g.range(1, s.size())); s.resize(n); }
        else if (kind == 3) { if (!utia) s[g.below(5)] ^= 1 << g.below(6); else if (W == 288 && H == 288) discard(); } else { s.clear(); int n = g.range(0, 300); for (int i = 0; i < n; ++i) s += (char)g.below(256); } }
    pbt::spew(f, s); ptr<data> d = load(f, utia ? "data_utia" : "data_brdf_slice"); unlink(f.c_str()); CHECK(!d, "invalid image of " << s.size() << " bytes loaded");
}
// ------------------------------------------------------------------------------------------------------------ ASTM
PROPERTY(astm_files) {
    static const std::vector<std::string> four = {"theta_i", "phi_i", "theta_s", "phi_s"}, three = {"theta_i", "theta_s", "phi_s"}; bool f4 = g.chance(2, 3), rgb = g.flip(); int nx = f4 ? 4 : 3, ny = rgb ? 3 : 1, n = g.range(0, 20);
    std::vector<std::string> vars = f4 ? four : three; if (rgb) { vars.push_back("R"); vars.push_back("G"); vars.push_back("B"); } else vars.push_back(g.pick(std::vector<std::string>{"Integrated 300 700", "Integrated", "Integrated_BRDF", "Integrated300-700", "Integrated: 300 700"}));
    std::vector<std::string> hd = {"NUM_POINTS " + std::to_string(n)}; static const std::vector<std::string> extra = {"TITLE a sample, of paint", "DATE 12 May 1999", "ASTM E1392-90", "SAMPLE_ID 17", "COMMENTS none", "ANGLES radians"}; int ne = g.below(5); for (int i = 0; i < ne; ++i) hd.push_back(extra[i]);
    for (size_t i = hd.size(); i > 1; --i) std::swap(hd[i - 1], hd[g.below(i)]);
    std::string s; for (auto& h : hd) s += h + "\n"; s += "VARS "; for (size_t i = 0; i < vars.size(); ++i) s += (i ? (g.flip() ? "," : ", ") : "") + vars[i]; s += "\n";
    std::vector<V> rows; for (int i = 0; i < n; ++i) { V r; std::string l; for (int k = 0; k < nx + ny; ++k) { double v = k < nx ? g.uniform(-3, 3) : g.real(0, 50); char b[40]; snprintf(b, sizeof b, g.flip() ? "%.6g" : "%.9e", v); r.push_back(atof(b)); l += (k ? (g.chance(1, 3) ? ", " : g.chance(1, 8) ? " ,\t" : ",") : "") + std::string(g.chance(1, 8) && b[0] != '-' ? "+" : "") + b; } rows.push_back(r); if (g.chance(1, 8)) s += g.chance(1, 3) ? "  \n" : "\n";
        if (g.chance(1, 8)) { l = std::string(g.range(1, 3), g.chance(1, 4) ? '\t' : ' ') + l; g.label("leading blanks"); } if (g.chance(1, 8)) l += g.pick(std::vector<std::string>{" ", "\t", ",", "\r", " , "});
        s += l + (i == n - 1 && g.flip() ? "" : "\n"); }
    g.note("file", s.substr(0, 600)); std::string f = pbt::tmpfile("a.astm"); if (n > 1) g.nontrivial();
    int cut = g.below(4); if (cut == 0 && n > 0) { s = s.substr(0, s.rfind(',', s.rfind(',') - 1)); g.label("truncated"); }     // the last row misses values
    else if (cut == 1 && n > 0) { size_t p = s.find("NUM_POINTS "); s.replace(p, 11 + std::to_string(n).size(), "NUM_POINTS " + std::to_string(n + g.range(1, 1000))); g.label("too short"); } else cut = 9;
    if (s.empty()) discard(); pbt::spew(f, s); ptr<data> d = load(f, "data_astm"); unlink(f.c_str()); if (cut != 9) { CHECK(!d, "file shorter than declared was loaded"); return; }
    if (n == 0) { g.label("empty"); return; }
    CHECK(d && fit_rows(d, nx, ny, f4 ? params::SPHERICAL_TL_PL_TV_PV : params::UNKNOWN_INPUT, rgb ? params::RGB_COLOR : params::INV_STERADIAN, n), "size, dimensions or parametrization: " << (d ? d->size() : -1));
    for (int i = 0; i < n; ++i) { vec r = d->get(i); CHECK((int)r.size() == nx + ny, "row size"); for (int k = 0; k < nx + ny; ++k) CHECK(r[k] == rows[i][k], "row " << i << " column " << k << " is " << fmt(r[k]) << " instead of " << fmt(rows[i][k])); }
    for (int k = 0; k < nx; ++k) { double lo = 1e300, hi = -1e300; for (auto& r : rows) { lo = std::min(lo, r[k]); hi = std::max(hi, r[k]); } CHECK(d->min()[k] == lo && d->max()[k] == hi, "domain of coordinate " << k); }
    if (!f4) return;
    d->save(f); ptr<data> e = load(f, ""); unlink(f.c_str()); CHECK(e && fit_rows(e, nx, ny, params::SPHERICAL_TL_PL_TV_PV, rgb ? params::RGB_COLOR : params::INV_STERADIAN, n), "saved file does not load"); for (int i = 0; i < n; ++i) { vec r = e->get(i); for (int k = 0; k < nx + ny; ++k) CHECK(close(r[k], rows[i][k], 1e-14, 0), "row " << i << " changed by saving"); }
}
// ------------------------------------------------------------------------------------------------------------ interpolants
struct GridP { const char* name; params::input p; V lo, hi; };
static const std::vector<GridP>& grids() { static const double h = PI / 2; static const std::vector<GridP> v = {{"COS_TH", params::COS_TH, {0}, {1}}, {"COS_TK", params::COS_TK, {0}, {1}}, {"COS_TLV", params::COS_TLV, {-1}, {1}}, {"COS_TLR", params::COS_TLR, {-1}, {1}}, {"COS_TH_TD", params::COS_TH_TD, {0, 0}, {1, 1}}, {"RUSIN_TH_TD", params::RUSIN_TH_TD, {0, 0}, {h, h}},
    {"ISOTROPIC_TV_PROJ_DPHI", params::ISOTROPIC_TV_PROJ_DPHI, {-h, -h}, {h, h}}, {"STARK_2D", params::STARK_2D, {0, 0}, {1, 1}}, {"RUSIN_TH_TD_PD", params::RUSIN_TH_TD_PD, {0, 0, 0}, {h, h, 2 * PI}}, {"STARK_3D", params::STARK_3D, {0, 0, 0}, {1, 1, 2 * PI}}}; return v; }
PROPERTY(grid) {
    const GridP& P = g.pick(grids()); int nx = P.lo.size(), ny; params::output out = g.flip() ? params::RGB_COLOR : params::INV_STERADIAN; ny = out == params::RGB_COLOR ? 3 : 1; std::vector<int> sz(nx, 10); std::string opt; int how = g.below(3); parameters ps(nx, ny, P.p, out);
    if (how == 0) opt = std::string("--param ") + P.name; else if (how == 1) { opt = std::string("--PARAM_IN ") + P.name + " --PARAM_OUT " + (ny == 3 ? "RGB_COLOR" : "INV_STERADIAN"); if (g.flip()) ps = parameters(2, 1, params::RUSIN_TH_TD, params::INV_STERADIAN); }
    if (g.chance(3, 4)) { opt += " --grid-size ["; for (int k = 0; k < nx; ++k) { sz[k] = g.chance(1, 8) ? 1 : g.range(2, nx == 3 ? 6 : 14); opt += (k ? "," : "") + std::to_string(sz[k]); } opt += "]"; }
    int N = 1; for (int k : sz) N *= k; if (N > 1) g.nontrivial(); g.note("opt", opt + " " + P.name); g.label("dim" + std::to_string(nx));
    ptr<data> d = plugins_manager::get_data("data_grid", N, ps, arguments::create_arguments(opt)); CHECK(d && fit_rows(d, nx, ny, P.p, out, N), "size, dimensions or parametrization");
    bool affine = g.chance(1, 3); V A(ny * nx), B(ny); for (double& a : A) a = g.uniform(-2, 2); for (double& b : B) b = g.uniform(-2, 2); std::vector<V> y(N, V(ny)); if (affine) g.label("affine");
    auto coord = [&](int i) { V x(nx); for (int k = nx - 1; k >= 0; --k) { int j = i % sz[k]; i /= sz[k]; x[k] = sz[k] == 1 ? P.lo[k] : P.lo[k] + (P.hi[k] - P.lo[k]) * j / (sz[k] - 1); } return x; };
    auto aff = [&](const V& x, int c) { double s = B[c]; for (int k = 0; k < nx; ++k) s += A[c * nx + k] * x[k]; return s; };
    Table t = gen_table(g);
    for (int i = 0; i < N; ++i) { vec r = d->get(i); V x = coord(i); for (int k = 0; k < nx; ++k) CHECK(close(r[k], x[k], 1e-12, 1e-12), "row " << i << " coordinate " << k << " is " << fmt(r[k]) << " instead of " << fmt(x[k])); for (int c = 0; c < ny; ++c) r[nx + c] = y[i][c] = affine ? aff(x, c) : t(c, i); d->set(i, r); }
    for (int i = 0; i < N; ++i) { vec r = d->get(i); for (int c = 0; c < ny; ++c) CHECK(r[nx + c] == y[i][c], "row " << i << " not as set"); vec v = d->value(tovec(coord(i))); for (int c = 0; c < ny; ++c) CHECK(close(v[c], y[i][c], 1e-9, 1e-9), "value at sample " << i << " is " << fmt(v[c]) << " instead of " << fmt(y[i][c])); if (N > 400) i += g.below(8); }
    for (int it = 0; it < 30; ++it) { V x(nx), w(nx); std::vector<int> b(nx); bool one = false, keep = (int)g.mem.size() == nx && g.flip(); for (int k = 0; k < nx; ++k) { x[k] = g.uniform(P.lo[k], P.hi[k]); int o = g.below(10); if (o == 0) x[k] = P.hi[k]; if (o == 1) x[k] = P.lo[k]; if (o == 2) x[k] = P.hi[k] + g.uniform(0, 1); if (o == 3) x[k] = P.lo[k] - g.uniform(0, 1); if (keep && g.flip()) x[k] = g.mem[k]; one |= sz[k] == 1;
            double u = (sz[k] - 1) * std::min(1.0, std::max(0.0, (x[k] - P.lo[k]) / (P.hi[k] - P.lo[k]))); b[k] = std::min((int)floor(u), std::max(0, sz[k] - 2)); w[k] = u - b[k]; }
        g.mem = x; vec v = d->value(tovec(x)); bool in = true; for (int k = 0; k < nx; ++k) in &= x[k] >= P.lo[k] && x[k] <= P.hi[k];
        for (int c = 0; c < ny; ++c) { double s = 0, m = 0; for (int e = 0; e < 1 << nx; ++e) { double p = 1; int id = 0; for (int k = 0; k < nx; ++k) { int o = e >> k & 1; p *= o ? w[k] : 1 - w[k]; id = id * sz[k] + std::min(b[k] + o, sz[k] - 1); } s += p * y[id][c]; m = std::max(m, fabs(y[id][c])); }
            CHECK(close(v[c], s, 1e-9, 1e-9 * (1 + m)), "value at " << fmtv(x) << " channel " << c << " is " << fmt(v[c]) << ", the surrounding samples give " << fmt(s)); if (affine && in && !one) CHECK(close(v[c], aff(x, c), 1e-9, 1e-9), "affine data not reproduced at " << fmtv(x)); } }
    std::string f = pbt::tmpfile("g.txt"); d->save(f); ptr<data> e = load(f, ""); unlink(f.c_str()); CHECK(e && fit_rows(e, nx, ny, P.p, out, N), "saved grid does not load"); for (int i = 0; i < N; ++i) { vec a = d->get(i), q = e->get(i); for (int k = 0; k < nx + ny; ++k) CHECK(close(a[k], q[k], 1e-13, 1e-300), "row " << i << " changed by saving"); }
}
PROPERTY(rbf) {
    int nx = g.range(1, 4), ny = g.range(1, 3), n = g.chance(1, 6) ? g.range(33, g.chance(1, 12) ? 5000 : 300) : g.chance(1, 4) ? g.range(1, 3) : g.range(3, 28); Model m; m.nx = nx; m.ny = ny; m.kind = 0; m.in = params::UNKNOWN_INPUT; m.out = params::UNKNOWN_OUTPUT;
    for (int i = 0; i < n; ++i) { V r; for (int k = 0; k < nx; ++k) r.push_back(g.chance(1, 6) ? (double)g.range(-2, 2) : g.uniform(-2, 2)); for (int k = 0; k < ny; ++k) r.push_back(g.uniform(-5, 5)); m.rows.push_back(r); }
    std::string f = pbt::tmpfile("r.txt"); { ptr<vertical_segment> s = build(m); s->save(f); } ptr<data> ref = load(f, ""), d = load(f, "data_rbf"); CHECK(ref && d, "not loaded"); g.note("dims", std::to_string(nx) + " " + std::to_string(ny) + " rows " + rows_str(m, 12)); if (n > 3) g.nontrivial(); g.label(n > 32 ? "large" : "small");
    CHECK(d->size() == n && (int)d->parametrization().dimX() == nx && (int)d->parametrization().dimY() == ny, "size or dimensions"); for (int k = 0; k < nx; ++k) CHECK(d->min()[k] == ref->min()[k] && d->max()[k] == ref->max()[k], "domain");
    std::vector<V> rows; for (int i = 0; i < n; ++i) { vec a = ref->get(i), b = d->get(i); CHECK(a.size() == b.size(), "row size"); for (int k = 0; k < nx + ny; ++k) CHECK(a[k] == b[k], "row " << i << " differs from the source"); rows.push_back(head(a, nx + ny)); }
    for (int it = 0; it < 25; ++it) { bool at = g.flip(); V x; if (at) x = V(rows[it % n].begin(), rows[it % n].begin() + nx); else for (int k = 0; k < nx; ++k) x.push_back(g.uniform(-2.5, 2.5)); if (at) g.mem = x; else g.again(&x[0], nx);
        std::vector<std::pair<double, int>> ds; for (int i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < nx; ++k) s += (rows[i][k] - x[k]) * (rows[i][k] - x[k]); ds.push_back({s, i}); } std::sort(ds.begin(), ds.end()); int q = std::min(3, n);
        vec v = d->value(tovec(x)); bool dup = at && n > 1 && ds[1].first < 1e-4;
        for (int c = 0; c < ny; ++c) { double s = 0, w = 0, lo = 1e300, hi = -1e300; for (int i = 0; i < q; ++i) { double k = 1 / (1e-10 + ds[i].first), y = rows[ds[i].second][nx + c]; s += k * y; w += k; } for (auto& r : rows) { lo = std::min(lo, r[nx + c]); hi = std::max(hi, r[nx + c]); }
            CHECK(v[c] >= lo - 1e-9 && v[c] <= hi + 1e-9, "value " << fmt(v[c]) << " outside the range of the data at " << fmtv(x)); if (at && !dup) CHECK(fabs(v[c] - rows[ds[0].second][nx + c]) <= 2e-4, "value at sample is " << fmt(v[c]) << " instead of " << fmt(rows[ds[0].second][nx + c])); }
        if (n <= q || ds[q].first - ds[q - 1].first > 1e-9 * ds[q].first) { // the kernel-weighted mean of the three nearest samples
            for (int c = 0; c < ny; ++c) { double s = 0, w = 0; for (int k = 0; k < q; ++k) { double kk = 1 / (1e-10 + ds[k].first); s += kk * rows[ds[k].second][nx + c]; w += kk; }
                CHECK(close(v[c], s / w, 1e-6, 1e-6), "value " << fmt(v[c]) << " at " << fmtv(x) << ", the weighted mean of the " << q << " nearest of " << n << " samples is " << fmt(s / w)); } } else g.label("equidistant"); }
    std::string o = pbt::tmpfile("o.txt"); d->save(o); CHECK(pbt::slurp(o) == pbt::slurp(f), "saved rows differ from the source"); unlink(o.c_str()); unlink(f.c_str());
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
