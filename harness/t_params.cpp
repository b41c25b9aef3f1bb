// P06 parametrization conversions, P07 names, P08 output conversions
#include "alta_gen.h"
#include "core/vertical_segment.h"
using namespace ag;
typedef std::vector<double> V;
static const double PI = 3.14159265358979323846;

struct Dir { double x, y, z; };
static Dir sph(double t, double p) { return Dir{sin(t) * cos(p), sin(t) * sin(p), cos(t)}; }
static double dot(Dir a, Dir b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static double wrap(double a) { a = std::fmod(a, 2 * PI); if (a > PI) a -= 2 * PI; if (a <= -PI) a += 2 * PI; return a; }
static double cl(double x) { return std::max(-1.0, std::min(1.0, x)); }
static double az(double y, double x) { return (x == 0 && y == 0) ? 0.0 : atan2(y, x); }

// which coordinates are angles modulo 2 pi
static bool is_azimuth(params::input p, int k) {
    switch (p) { case params::RUSIN_TH_PH_TD: return k == 1; case params::RUSIN_TH_TD_PD: return k == 2; case params::ISOTROPIC_TV_TL_DPHI: return k == 2; case params::STARK_3D: case params::NEUMANN_3D: return k == 2;
        case params::RUSIN_TH_PH_TD_PD: return k == 1 || k == 3; case params::SPHERICAL_TL_PL_TV_PV: return k == 1 || k == 3; default: return false; }
}
// Reference coordinates, written from the documentation of each parametrization.
static V reference(params::input p, Dir v, Dir l) {
    Dir h = {v.x + l.x, v.y + l.y, v.z + l.z}; double n = sqrt(dot(h, h)); if (n > 0) { h.x /= n; h.y /= n; h.z /= n; } else h = Dir{0, 0, 1};
    Dir k = {v.x - l.x, v.y - l.y, v.z + l.z}; double kn = sqrt(dot(k, k)); if (kn > 0) { k.x /= kn; k.y /= kn; k.z /= kn; }
    double tl = acos(cl(l.z)), tv = acos(cl(v.z)), pl = az(l.y, l.x), pv = az(v.y, v.x), th = acos(cl(h.z)), ph = az(h.y, h.x), td = acos(cl(dot(v, h)));
    Dir H = {(v.x + l.x) / 2, (v.y + l.y) / 2, (v.z + l.z) / 2}, B = {(l.x - v.x) / 2, (l.y - v.y) / 2, (l.z - v.z) / 2};
    // difference vector: the view direction in the frame where h is the normal
    auto diffphi = [&]() { Dir d = v; double c = cos(-ph), s = sin(-ph); Dir e = {c * d.x - s * d.y, s * d.x + c * d.y, d.z};
        c = cos(-th); s = sin(-th); Dir f = {c * e.x + s * e.z, e.y, -s * e.x + c * e.z}; return az(f.y, f.x); };
    switch (p) {
    case params::COS_TH: return V{h.z};
    case params::COS_TK: return V{k.z};
    case params::COS_TLV: return V{dot(l, v)};
    case params::COS_TLR: return V{l.z * v.z - l.x * v.x - l.y * v.y};
    case params::RUSIN_TH_TD: return V{th, td};
    case params::COS_TH_TD: return V{h.z, dot(v, h)};
    case params::ISOTROPIC_TV_PROJ_DPHI: return V{tv * cos(pv - pl), tv * sin(pv - pl)};
    case params::STARK_2D: return V{hypot(H.x, H.y), sqrt(dot(B, B))};
    case params::NEUMANN_2D: return V{hypot(H.x, H.y), hypot(B.x, B.y)};
    case params::RUSIN_TH_PH_TD: return V{th, ph, td};
    case params::RUSIN_TH_TD_PD: return V{th, td, diffphi()};
    case params::ISOTROPIC_TV_TL_DPHI: return V{tv, tl, pl - pv};
    case params::RUSIN_VH: return V{h.x, h.y, h.z};
    case params::SCHLICK_VK: return V{-k.x, -k.y, k.z};
    case params::ISOTROPIC_TL_TV_PROJ_DPHI: return V{tl, tv * cos(pv - pl), tv * sin(pv - pl)};
    case params::SCHLICK_TL_TK_PROJ_DPHI: { double tk = acos(cl(k.z)), pk = az(k.y, k.x); return V{tl, tk * cos(pk - pl), tk * sin(pk - pl)}; }
    case params::RETRO_TL_TVL_PROJ_DPHI: {
        // spherical triangle N, L, V: angle at L between the arcs to N and to V
        double tvl = acos(cl(dot(v, l))), svl = sin(tvl), sl = sin(tl); if (svl < 1e-12 || sl < 1e-12) return V{tl, tv - tl, 0.0};
        double cphi = (v.z - l.z * cos(tvl)) / (sl * svl), sphi = sin(pv - pl) * sin(tv) / svl; return V{tl, tvl * cphi, tvl * sphi}; }
    case params::STARK_3D: return V{hypot(H.x, H.y), sqrt(dot(B, B)), az(B.y, B.x) - az(H.y, H.x)};
    case params::NEUMANN_3D: return V{hypot(H.x, H.y), hypot(B.x, B.y), az(B.y, B.x) - az(H.y, H.x)};
    case params::RUSIN_TH_PH_TD_PD: return V{th, ph, td, diffphi()};
    case params::SPHERICAL_TL_PL_TV_PV: return V{tl, pl, tv, pv};
    case params::STEREOGRAPHIC: return V{v.x / (1 + v.z), v.y / (1 + v.z), l.x / (1 + l.z), l.y / (1 + l.z)};
    case params::CARTESIAN: return V{v.x, v.y, v.z, l.x, l.y, l.z};
    default: return V{};
    }
}
struct Cfg { Dir v, l; bool regular; };
// regular: bounded away from the places where some parametrization is not differentiable
static Cfg gen_cfg(G& g) {
    double tv, tl, pv, pl; int kind = g.below(10);
    tv = kind < 5 ? g.uniform(0.05, 1.5) : g.real(0, PI / 2); tl = kind < 5 ? g.uniform(0.05, 1.5) : g.real(0, PI / 2);
    pv = kind < 5 ? g.uniform(-PI, PI) : g.real(-PI, PI); pl = kind < 5 ? g.uniform(-PI, PI) : g.real(-PI, PI);
    if (kind == 9) { tl = tv; pl = pv; } if (kind == 8) { tl = tv; pl = wrap(pv + PI); } if (kind == 7) { tl = 0; }
    if (kind == 6) {        // close to a singular place, at any scale: both near the horizon or the normal, coincident or mirrored
        auto eps = [&]() { return g.uniform(-1, 1) * pow(10, -g.range(1, 6)); };
        double base = g.pick(V{PI / 2, PI / 2, 0, g.uniform(0.1, 1.4)}); tv = fabs(base - fabs(eps())); tl = fabs(base - fabs(eps())); pl = pv + g.pick(V{0, PI}) + eps(); }
    Cfg c; c.v = sph(tv, pv); c.l = sph(tl, pl);
    if (c.v.z < 0) c.v.z = 0; if (c.l.z < 0) c.l.z = 0;
    double h2 = 2 + 2 * dot(c.v, c.l); Dir H = {c.v.x + c.l.x, c.v.y + c.l.y, c.v.z + c.l.z}, B = {c.l.x - c.v.x, c.l.y - c.v.y, c.l.z - c.v.z};
    c.regular = tv > 0.02 && tl > 0.02 && tv < 1.55 && tl < 1.55 && h2 > 0.01 && hypot(H.x, H.y) > 0.02 && hypot(B.x, B.y) > 0.02 && fabs(dot(c.v, c.l)) < 0.9995 && (c.v.z + c.l.z) > 0.02;
    g.note("theta_v", tv); g.note("phi_v", pv); g.note("theta_l", tl); g.note("phi_l", pl);
    g.label(c.regular ? "regular" : "degenerate");
    return c;
}
static bool near(params::input p, const V& a, const double* b, double tol, std::string& why) {
    for (size_t k = 0; k < a.size(); ++k) {
        double d = is_azimuth(p, k) ? fabs(wrap(a[k] - b[k])) : fabs(a[k] - b[k]);
        if (!(d <= tol)) { why = "coordinate " + std::to_string(k) + ": " + fmt(b[k]) + " expected " + fmt(a[k]); return false; }
    }
    return true;
}
static std::string nm(params::input p) { for (auto& i : inputs()) if (i.p == p) return i.name; return "?"; }

// How far the coordinates may be from the definition: the rounding of the directions, amplified where a coordinate is singular.
static double sharpness(params::input p, const Cfg& c) {
    Dir H = {c.v.x + c.l.x, c.v.y + c.l.y, c.v.z + c.l.z}, K = {c.v.x - c.l.x, c.v.y - c.l.y, c.v.z + c.l.z}, B = {c.v.x - c.l.x, c.v.y - c.l.y, c.v.z - c.l.z};
    double h = sqrt(dot(H, H)), hp = hypot(H.x, H.y), k = sqrt(dot(K, K)), b = sqrt(dot(B, B)), bp = hypot(B.x, B.y), lp = hypot(c.l.x, c.l.y), vp = hypot(c.v.x, c.v.y), e = 1e-15, m = 1e300;
    double ang = 3e-8;     // arc cosines close to 1
    switch (p) {
    case params::COS_TH: case params::RUSIN_VH: return e / h;
    case params::COS_TH_TD: return e / h;
    case params::COS_TK: case params::SCHLICK_VK: return k > 1e-8 ? e / k : m;
    case params::COS_TLV: case params::COS_TLR: case params::STARK_2D: case params::NEUMANN_2D: case params::CARTESIAN: case params::STEREOGRAPHIC: return e;
    case params::RUSIN_TH_TD: return ang + sqrt(e / h) ;
    case params::RUSIN_TH_PH_TD: return hp > 1e-7 ? ang + sqrt(e / h) + e / hp : m;
    case params::RUSIN_TH_TD_PD: case params::RUSIN_TH_PH_TD_PD: return hp > 1e-5 && b > 1e-5 ? ang + sqrt(e / h) + e / hp / b / h : m;
    case params::ISOTROPIC_TV_PROJ_DPHI: case params::ISOTROPIC_TL_TV_PROJ_DPHI: return lp > 1e-7 ? ang + e / lp : m;
    case params::SCHLICK_TL_TK_PROJ_DPHI: return lp > 1e-7 && k > 1e-7 ? ang + e / lp + sqrt(e / k) : m;
    case params::ISOTROPIC_TV_TL_DPHI: case params::SPHERICAL_TL_PL_TV_PV: return lp > 1e-7 && vp > 1e-7 ? ang + e / lp + e / vp : m;
    case params::STARK_3D: case params::NEUMANN_3D: return hp > 1e-7 && bp > 1e-7 ? ang + e / hp + e / bp : m;
    default: return c.regular ? 1e-9 : m;
    }
}
PROPERTY(coordinates_match_definition) {
    Cfg c = gen_cfg(g); const PIn& p = g.pick(inputs()); g.note("param", p.name); g.label(p.name);
    double cart[6] = {c.v.x, c.v.y, c.v.z, c.l.x, c.l.y, c.l.z}, out[8]; for (double& o : out) o = 1e300;
    params::convert(cart, params::CARTESIAN, p.p, out);
    for (int k = 0; k < p.dim; ++k) CHECK(std::isfinite(out[k]), p.name << " coordinate " << k << " is " << fmt(out[k]));
    for (int k = p.dim; k < 8; ++k) CHECK(out[k] == 1e300, p.name << " wrote past its dimension");
    g.nontrivial(c.regular);
    V r = reference(p.p, c.v, c.l); std::string why;
    if (c.regular) CHECK(near(p.p, r, out, 1e-9, why), p.name << " " << why);
    else { double tol = 20 * sharpness(p.p, c); if (tol < 1e-3) { g.label("close to singular"); g.nontrivial(); CHECK(near(p.p, r, out, tol, why), p.name << " close to a singular direction, within " << fmt(tol) << ": " << why); } }
    double* q = params::convert(cart, params::CARTESIAN, p.p); CHECK(q, "allocating overload returned nothing");
    for (int k = 0; k < p.dim; ++k) CHECK(q[k] == out[k], "overloads disagree at " << k); delete[] q;
}
// back to Cartesian: unit vectors, the same coordinates, and the same configuration up to the symmetry forgotten
PROPERTY(roundtrip_through_param) {
    Cfg c = gen_cfg(g); const PIn& p = g.pick(inputs()); g.note("param", p.name); g.label(p.name);
    double cart[6] = {c.v.x, c.v.y, c.v.z, c.l.x, c.l.y, c.l.z}, x[6], b[6], y[6];
    params::convert(cart, params::CARTESIAN, p.p, x); g.nontrivial(c.regular);
    params::convert(x, p.p, params::CARTESIAN, b);
    for (double t : b) CHECK(std::isfinite(t), p.name << " back to Cartesian gives " << fmt(t));
    double tol = c.regular ? 1e-8 : 3e-6;
    // exactly on the horizon, rounding may leave the domain of the projected coordinates: they answer with an invalid configuration
    if (std::min(c.v.z, c.l.z) < 1e-7 && b[2] < 0 && b[5] < 0) { g.label("horizon"); return; }
    CHECK(fabs(b[0]*b[0]+b[1]*b[1]+b[2]*b[2] - 1) < tol, p.name << " view is not a unit vector: " << fmtv(b, 6));
    CHECK(fabs(b[3]*b[3]+b[4]*b[4]+b[5]*b[5] - 1) < tol, p.name << " light is not a unit vector: " << fmtv(b, 6));
    Dir v = {b[0], b[1], b[2]}, l = {b[3], b[4], b[5]};
    bool full = p.dim >= 4, iso = p.dim == 3 && p.p != params::RUSIN_TH_PH_TD && p.p != params::RUSIN_VH && p.p != params::SCHLICK_VK;
    // near the horizon of the light or view the reconstructed pair may dip below; the coordinates are then not re-read
    if (c.regular || full || iso) {
        double t2 = c.regular ? (p.p == params::RETRO_TL_TVL_PROJ_DPHI ? 1e-6 : 1e-8) : 3e-6;
        if (full) for (int k = 0; k < 6; ++k) { if (!c.regular && (p.p == params::RUSIN_TH_PH_TD_PD)) { Dir H = {c.v.x + c.l.x, c.v.y + c.l.y, c.v.z + c.l.z}; if (dot(H, H) < 1e-3 || hypot(H.x, H.y) < 1e-5) continue; }
            CHECK(fabs(b[k] - cart[k]) < t2, p.name << " component " << k << " is " << fmt(b[k]) << " expected " << fmt(cart[k])); }
        if (iso && c.regular) {
            CHECK(fabs(v.z - c.v.z) < t2, p.name << " view elevation: " << fmt(v.z) << " expected " << fmt(c.v.z));
            CHECK(fabs(l.z - c.l.z) < t2, p.name << " light elevation: " << fmt(l.z) << " expected " << fmt(c.l.z));
            CHECK(fabs(dot(v, l) - dot(c.v, c.l)) < t2, p.name << " angle between view and light");
            double turn = v.x * l.y - v.y * l.x, turn0 = c.v.x * c.l.y - c.v.y * c.l.x;      // handedness
            CHECK(fabs(turn - turn0) < t2, p.name << " is mirrored: " << fmt(turn) << " expected " << fmt(turn0));
        }
    }
    if (c.regular && v.z > 1e-3 && l.z > 1e-3) {
        params::convert(b, params::CARTESIAN, p.p, y); std::string why;
        CHECK(near(p.p, V(x, x + p.dim), y, 1e-6, why), p.name << " re-read: " << why); g.label("reread");
    }
}
// a -> b equals a -> Cartesian -> b; a -> a is the identity; the input is not modified
PROPERTY(convert_composes) {
    Cfg c = gen_cfg(g); const PIn& p = g.pick(inputs()); const PIn& q = g.pick(inputs()); g.note("from", p.name); g.note("to", q.name);
    double cart[6] = {c.v.x, c.v.y, c.v.z, c.l.x, c.l.y, c.l.z}, x[6], x0[6], b[6], y[6], z[6];
    params::convert(cart, params::CARTESIAN, p.p, x); memcpy(x0, x, sizeof(double) * p.dim);
    params::convert(x, p.p, params::CARTESIAN, b);
    if (b[2] < 0 || b[5] < 0) { g.label("below"); pbt::discard(); }
    params::convert(b, params::CARTESIAN, q.p, y); params::convert(x, p.p, q.p, z); g.nontrivial(p.p != q.p && c.regular);
    for (int k = 0; k < q.dim; ++k) { double want = p.p == q.p ? x[k] : y[k]; CHECK(fabs(z[k] - want) <= 1e-12 || z[k] == want, p.name << " -> " << q.name << " coordinate " << k << ": " << fmt(z[k]) << " expected " << fmt(want)); }
    for (int k = 0; k < p.dim; ++k) CHECK(x[k] == x0[k], "input modified");
    double up[6]; memcpy(up, x, sizeof up); CHECK(params::is_above_hemisphere(up, p.p) == (b[2] >= 0 && b[5] >= 0), "hemisphere test");
    CHECK(params::is_below_hemisphere(up, p.p) != params::is_above_hemisphere(up, p.p), "above and below");
    // 4-D and 6-D parametrizations carry the whole configuration between each other
    if (c.regular && p.dim >= 4) { V r = reference(q.p, c.v, c.l); std::string why; CHECK(near(q.p, r, z, 1e-7, why), p.name << " -> " << q.name << " " << why); g.label("full"); }
}
// a data set moved to another parametrization: one row per row, in order, same outputs, converted inputs
PROPERTY(reparametrized_rows) {
    const PIn &a = g.pick(inputs()), &b = g.pick(inputs()); int n = g.range(0, 12), nY = g.range(1, 4), before = g.range(0, 3);
    g.note("from", a.name); g.note("to", b.name); g.note("rows", n); g.note("nY", nY); g.label(std::string("to ") + b.name);
    vertical_segment d(parameters(a.dim, nY, a.p, params::UNKNOWN_OUTPUT), n); std::vector<vec> rows;
    for (int i = 0; i < n; ++i) {
        vec r(a.dim + nY); double back[6]; int tries = 0;
        do { if (++tries > 20) pbt::discard(); Cfg c = gen_cfg(g); double cart[6] = {c.v.x, c.v.y, c.v.z, c.l.x, c.l.y, c.l.z}; params::convert(cart, params::CARTESIAN, a.p, &r[0]); params::convert(&r[0], a.p, params::CARTESIAN, back); } while (back[2] < 0 || back[5] < 0);
        for (int k = 0; k < nY; ++k) r[a.dim + k] = g.uniform(-5, 5);
        d.set(i, r); rows.push_back(r);
    }
    std::vector<vec> out(before, vec::Constant(2, 7.0)); clustering(&d, nY, a.p, b.p, out);
    CHECK((int)out.size() == before + n, out.size() << " rows of " << before << " + " << n);
    for (int i = 0; i < before; ++i) CHECK(out[i] == vec::Constant(2, 7.0), "earlier row " << i << " changed");
    for (int i = 0; i < n; ++i) {
        const vec& o = out[before + i]; CHECK(o.size() == b.dim + nY, "row " << i << " has " << o.size() << " columns");
        double w[8]; params::convert(&rows[i][0], a.p, b.p, w);
        for (int k = 0; k < b.dim; ++k) CHECK(o[k] == w[k] || (o[k] != o[k] && w[k] != w[k]), "row " << i << " coordinate " << k << " is " << fmt(o[k]) << " expected " << fmt(w[k]));
        for (int k = 0; k < nY; ++k) CHECK(o[b.dim + k] == rows[i][a.dim + k], "row " << i << " channel " << k << " is " << fmt(o[b.dim + k]) << " expected " << fmt(rows[i][a.dim + k]));
    }
    g.nontrivial(n > 0 && a.p != b.p);
}
PROPERTY(hemisphere_test) {
    double tv = g.real(0, PI), tl = g.real(0, PI), pv = g.real(-PI, PI), pl = g.real(-PI, PI); g.note("tv", tv); g.note("tl", tl); g.note("pv", pv); g.note("pl", pl);
    Dir v = sph(tv, pv), l = sph(tl, pl); double c[6] = {v.x, v.y, v.z, l.x, l.y, l.z}; g.nontrivial((v.z < 0) != (l.z < 0)); g.label(v.z >= 0 && l.z >= 0 ? "above" : "below");
    CHECK(params::is_above_hemisphere(c, params::CARTESIAN) == (v.z >= 0 && l.z >= 0), "Cartesian");
    if (fabs(v.z) > 1e-6 && fabs(l.z) > 1e-6) {
        double s[4] = {tl, pl, tv, pv}; CHECK(params::is_above_hemisphere(s, params::SPHERICAL_TL_PL_TV_PV) == (v.z >= 0 && l.z >= 0), "spherical");
        double i[3] = {tv, tl, pl - pv}; CHECK(params::is_above_hemisphere(i, params::ISOTROPIC_TV_TL_DPHI) == (v.z >= 0 && l.z >= 0), "isotropic");
    }
}
// coordinates of the projected parametrizations, within and outside of what two directions can have
PROPERTY(outside_domain) {
    static const std::vector<params::input> ps = {params::STARK_2D, params::NEUMANN_2D, params::STARK_3D, params::NEUMANN_3D};
    params::input p = g.pick(ps); int dim = params::dimension(p); double x[3] = {g.real(0, 1), g.real(0, 1), g.real(0, 2 * PI)}, b[6], y[3]; g.note("param", nm(p)); for (int k = 0; k < dim; ++k) g.note("x", x[k]);
    if (g.flip()) { double s = g.uniform(0.9, 1.1) / std::max(1e-3, hypot(x[0], x[1])); x[0] *= s; x[1] *= s; }     // along the border
    params::convert(x, p, params::CARTESIAN, b); for (double t : b) CHECK(std::isfinite(t), nm(p) << " to Cartesian gives " << fmt(t));
    double a = x[0], c = x[1], co = cos(x[2]), over;     // by how much the domain is exceeded
    if (p == params::NEUMANN_3D) over = std::max((a - co * c) * (a - co * c), (a + co * c) * (a + co * c)) + sin(x[2]) * sin(x[2]) * c * c - 1; else over = a * a + c * c - 1;
    if (fabs(over) < 1e-9) pbt::discard();
    g.label(over > 0 ? "outside" : "inside"); g.nontrivial();
    if (over > 0) { CHECK(!params::is_above_hemisphere(x, p), nm(p) << " coordinates of no pair of directions are answered with a valid one: " << fmtv(b, 6)); return; }
    CHECK(fabs(b[0] * b[0] + b[1] * b[1] + b[2] * b[2] - 1) < 1e-9 && fabs(b[3] * b[3] + b[4] * b[4] + b[5] * b[5] - 1) < 1e-9, nm(p) << " gives directions that are not unit: " << fmtv(b, 6));
    if (b[2] < 0 || b[5] < 0) { g.label("below"); return; }
    params::convert(b, params::CARTESIAN, p, y); double tol[3] = {1e-7, 1e-7, 1e-7 / std::max(1e-9, std::min(x[0], x[1]))};
    for (int k = 0; k < dim; ++k) CHECK((k == 2 ? fabs(wrap(x[k] - y[k])) : fabs(x[k] - y[k])) < tol[k] || tol[k] > 1e-3, nm(p) << " re-read: coordinate " << k << " is " << fmt(y[k]) << " expected " << fmt(x[k]));
}
// arbitrary points of the half-angle domains: the two directions share the half vector and the difference angle
PROPERTY(half_frame) {
    double th = g.real(0, PI / 2), ph = g.real(-PI, PI), td = g.real(0, PI / 2), pd = g.real(-PI, PI); g.note("th", th); g.note("ph", ph); g.note("td", td); g.note("pd", pd); g.nontrivial(th > 0.01 && td > 0.01);
    double x[4] = {th, ph, td, pd}, o[6], q[6]; params::convert(x, params::RUSIN_TH_PH_TD_PD, params::CARTESIAN, o);
    params::half_to_cartesian(th, ph, td, pd, q); for (int k = 0; k < 6; ++k) CHECK(o[k] == q[k], "half_to_cartesian differs from the conversion");
    Dir v = {o[0], o[1], o[2]}, l = {o[3], o[4], o[5]}, h = sph(th, ph);
    CHECK(fabs(dot(v, v) - 1) < 1e-12 && fabs(dot(l, l) - 1) < 1e-12, "not unit");
    CHECK(fabs(dot(v, h) - cos(td)) < 1e-12 && fabs(dot(l, h) - cos(td)) < 1e-12, "difference angle");
    CHECK(fabs(v.x + l.x - 2 * cos(td) * h.x) < 1e-12 && fabs(v.y + l.y - 2 * cos(td) * h.y) < 1e-12 && fabs(v.z + l.z - 2 * cos(td) * h.z) < 1e-12, "half vector");
    // the azimuth: tangent frame of h rotated with it
    Dir t = {cos(th) * cos(ph), cos(th) * sin(ph), -sin(th)}, b = {-sin(ph), cos(ph), 0};
    CHECK(fabs(dot(v, t) - sin(td) * cos(pd)) < 1e-12 && fabs(dot(v, b) - sin(td) * sin(pd)) < 1e-12, "difference azimuth");
    double y[3] = {th, td, pd}; params::convert(y, params::RUSIN_TH_TD_PD, params::CARTESIAN, q);
    double c = cos(ph), s = sin(ph); double e[6] = {c * q[0] - s * q[1], s * q[0] + c * q[1], q[2], c * q[3] - s * q[4], s * q[3] + c * q[4], q[5]};
    for (int k = 0; k < 6; ++k) CHECK(fabs(e[k] - o[k]) < 1e-12, "isotropic half frame is the full one rotated by phi_h");
}

// ---- P07 ----
PROPERTY(names_bijection) {
    const PIn& p = g.pick(inputs()); const POut& o = g.pick(outputs()); g.note("in", p.name); g.note("out", o.name); g.nontrivial();
    CHECK(params::get_name(p.p) == p.name, "name of input is " << params::get_name(p.p));
    CHECK(params::parse_input(p.name) == p.p, "parse_input(" << p.name << ")");
    CHECK(params::dimension(p.p) == p.dim, "dimension of " << p.name << " is " << params::dimension(p.p));
    CHECK(params::get_name(o.p) == o.name, "name of output is " << params::get_name(o.p));
    CHECK(params::parse_output(o.name) == o.p, "parse_output(" << o.name << ")");
    if (o.p != params::INV_STERADIAN_COSINE_FACTOR) CHECK(params::dimension(o.p) == ((o.p == params::RGB_COLOR || o.p == params::XYZ_COLOR) ? 3 : 1), "dimension of " << o.name);
    CHECK(params::is_cosine_weighted(o.p) == (o.p == params::INV_STERADIAN_COSINE_FACTOR), "cosine weighting of " << o.name);
    for (auto& q : inputs()) if (q.p != p.p) CHECK(params::get_name(q.p) != p.name, "two parametrizations print " << p.name);
    CHECK(params::get_name(params::UNKNOWN_INPUT) == "UNKNOWN_INPUT" && params::parse_input("UNKNOWN_INPUT") == params::UNKNOWN_INPUT, "unknown input");
    CHECK(params::get_name(params::UNKNOWN_OUTPUT) == "UNKNOWN_OUTPUT" && params::parse_output("UNKNOWN_OUTPUT") == params::UNKNOWN_OUTPUT, "unknown output");
    // the documented conversion of this name is the one that runs
    double cart[6] = {0.3, -0.2, sqrt(1 - 0.13), 0.5, 0.4, sqrt(1 - 0.41)}, a[6], b[6]; Dir v = {cart[0], cart[1], cart[2]}, l = {cart[3], cart[4], cart[5]};
    params::convert(cart, params::CARTESIAN, params::parse_input(p.name), a); V r = reference(p.p, v, l); std::string why; CHECK(near(p.p, r, a, 1e-9, why), p.name << " " << why); (void)b;
}
PROPERTY(unknown_names) {
    // near-miss strings: edits of real names, prefixes, case changes
    bool in = g.flip(); std::string s = in ? g.pick(inputs()).name : g.pick(outputs()).name; int edits = g.range(1, 3);
    for (int k = 0; k < edits; ++k) { int op = g.below(6); size_t i = s.empty() ? 0 : g.below(s.size());
        if (op == 0 && !s.empty()) s.erase(i, 1); else if (op == 1) s.insert(i, 1, (char)g.range('A', 'Z')); else if (op == 2 && !s.empty()) s[i] = tolower(s[i]);
        else if (op == 3) s = s.substr(0, i); else if (op == 4) s += g.pick(std::vector<std::string>{" ", "_", "D", "_PD", "X"}); else if (!s.empty()) s[i] = '_'; }
    g.note("text", s); bool isin = false, isout = false; for (auto& p : inputs()) if (s == p.name) isin = true; for (auto& p : outputs()) if (s == p.name) isout = true;
    if (s == "RUSIN_TH_PH_TD" || s == "SCHLICK_VK") pbt::discard();   // names of parametrizations the table may also list
    g.nontrivial(!isin && !isout);
    if (!isin) CHECK(params::parse_input(s) == params::UNKNOWN_INPUT, "'" << s << "' parsed as input " << params::get_name(params::parse_input(s)));
    else CHECK(params::get_name(params::parse_input(s)) == s, "known input name");
    if (!isout) CHECK(params::parse_output(s) == params::UNKNOWN_OUTPUT, "'" << s << "' parsed as output " << params::get_name(params::parse_output(s)));
    else CHECK(params::get_name(params::parse_output(s)) == s, "known output name");
}
PROPERTY(names_through_files) {
    const PIn& p = g.pick(inputs()); const POut& o = g.pick(outputs()); bool bin = g.flip(); bool badin = g.chance(1, 4), badout = g.chance(1, 4);
    int ny = (o.p == params::RGB_COLOR || o.p == params::XYZ_COLOR) ? 3 : 1; std::string in = badin ? std::string(p.name) + "X" : p.name, out = badout ? std::string(o.name) + "X" : o.name;
    g.note("in", in); g.note("out", out); g.note("binary", bin); g.nontrivial();
    std::ostringstream f; f << "#DIM " << p.dim << " " << ny << "\n#PARAM_IN " << in << "\n#PARAM_OUT " << out << "\n";
    if (bin) { f << "#FORMAT binary\n#VERSION 0\n#PRECISION ieee754-double\n#SAMPLE_COUNT 1\n#ENDIAN little\n#BEGIN_STREAM\n"; V z(p.dim + ny, 0.5); f.write((char*)z.data(), z.size() * 8); f << "\n#END_STREAM\n"; }
    else { for (int k = 0; k < p.dim + ny; ++k) f << "0.5 "; f << "\n"; }
    std::istringstream s(f.str()); ptr<data> d = plugins_manager::load_data("vertical_segment", s); CHECK(d && d->size() == 1, "not loaded");
    CHECK(d->parametrization().input_parametrization() == (badin ? params::UNKNOWN_INPUT : p.p), "input read as " << params::get_name(d->parametrization().input_parametrization()));
    CHECK(d->parametrization().output_parametrization() == (badout ? params::UNKNOWN_OUTPUT : o.p), "output read as " << params::get_name(d->parametrization().output_parametrization()));
}

// ---- P08 ----
PROPERTY(output_convert) {
    std::vector<POut> os = outputs(); const POut a = g.pick(os), b = g.pick(os);
    auto dim = [](params::output o) { return (o == params::RGB_COLOR || o == params::XYZ_COLOR) ? 3 : 1; };
    int n = dim(a.p), m = dim(b.p); if (g.chance(1, 4)) { n = g.range(1, 6); m = g.chance(1, 2) ? 1 : n; }
    V in(n), out(m + 2); for (double& x : in) { x = g.chance(1, 3) ? g.wild() : g.uniform(-5, 5); if (fabs(x) > 1e300) x = 1; } for (double& x : out) x = g.pick(V{0.0, 1.0, -7.5, 1e9, NAN});
    V junk = out; g.note("from", a.name); g.note("to", b.name); g.notev("in", in); g.notev("dest", out); g.nontrivial(n != m); g.label(std::to_string(n) + "to" + std::to_string(m));
    V in0 = in; params::convert(in.data(), a.p, n, b.p, m, out.data());
    double sum = 0, mag = 0; for (double x : in) { sum += x; mag += fabs(x); }
    for (int k = 0; k < m; ++k) { double want = n == m ? in[k] : n == 1 ? in[0] : sum / n; CHECK(fabs(out[k] - want) <= 1e-13 * (mag + 1e-300) || out[k] == want, "channel " << k << " is " << fmt(out[k]) << " expected " << fmt(want)); }
    for (int k = m; k < m + 2; ++k) CHECK(same_bits(out[k], junk[k]), "wrote past the destination");
    CHECK(in == in0, "input modified");
    if (n == 1 && m > 1) { V back(1, 123.0); params::convert(out.data(), b.p, m, a.p, 1, back.data()); CHECK(fabs(back[0] - in[0]) <= 1e-14 * fabs(in[0]) || fabs(in[0]) < 1e-300, "scalar -> colour -> scalar gives " << fmt(back[0])); }
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
