// Random functions (single lobes, products with Fresnel or masking terms, sums) with reference formulas.
#pragma once
#include "alta_gen.h"
#include <core/function.h>
#include <core/rational_function.h>
namespace fg {
using namespace ag;
typedef std::vector<double> V;
static const double PI = 3.14159265358979323846;
inline double az(double y, double x) { return (x == 0 && y == 0) ? 0.0 : atan2(y, x); }
inline double cl01(double x) { return std::max(0.0, std::min(1.0, x)); }

enum Kind { ABC, BECKMANN, BLINN, DIFFUSE, LAFORTUNE, SGD, SG, WARD, RBECKMANN, RBLINN, YOO, F_SCHLICK, F_NSCHLICK, F_RSCHLICK, S_SCHLICK, S_SMITH, S_WALTER, NKIND };
inline const char* plugin(Kind k) {
    static const char* n[] = {"nonlinear_function_abc", "nonlinear_function_beckmann", "nonlinear_function_blinn", "nonlinear_function_diffuse", "nonlinear_function_lafortune", "nonlinear_function_sgd",
        "nonlinear_function_spherical_gaussian", "nonlinear_function_ward", "nonlinear_function_retrobeckmann", "nonlinear_function_retroblinn", "nonlinear_function_retroyoo",
        "nonlinear_fresnel_schlick", "nonlinear_fresnel_normalized_schlick", "nonlinear_fresnel_retroschlick", "nonlinear_shadowing_schlick", "nonlinear_shadowing_smith", "nonlinear_shadowing_walter_smith"};
    return n[k];
}
inline const std::vector<Kind>& lobes() { static const std::vector<Kind> v = {BECKMANN, DIFFUSE, LAFORTUNE, SG, WARD, RBECKMANN, ABC, BLINN, YOO, SGD}; return v; }
inline const std::vector<Kind>& factors() { static const std::vector<Kind> v = {F_SCHLICK, F_NSCHLICK, F_RSCHLICK, S_SCHLICK, S_SMITH, S_WALTER}; return v; }

struct Part {
    Kind k; int nY; int lobes; int sgtype; bool retro; params::input in1;  // in1: coordinate of the one-dimensional lobes
    std::string opts; V pars; V kd; bool fixed;
    int np() const {
        switch (k) { case DIFFUSE: return 0; case LAFORTUNE: return 4 * lobes * nY; case SGD: return 11 * nY; case WARD: case ABC: return 3 * nY; case SG: return 2 * nY + (sgtype == 4); case F_SCHLICK: case F_NSCHLICK: case F_RSCHLICK: case S_SCHLICK: case S_SMITH: case S_WALTER: return nY; default: return 2 * nY; }
    }
};
inline double coord1(params::input in, const double* c) {   // c = view, light
    double h[3] = {c[0] + c[3], c[1] + c[4], c[2] + c[5]}, b[3] = {c[3] - c[0], c[4] - c[1], c[2] + c[5]};
    double hn = sqrt(h[0]*h[0] + h[1]*h[1] + h[2]*h[2]), bn = sqrt(b[0]*b[0] + b[1]*b[1] + b[2]*b[2]);
    switch (in) { case params::COS_TH: return h[2] / hn; case params::COS_TK: return b[2] / bn; case params::COS_TLV: return c[0]*c[3] + c[1]*c[4] + c[2]*c[5];
        case params::COS_TLR: return c[2]*c[5] - c[0]*c[3] - c[1]*c[4]; default: return NAN; }
}
// parameters in the documented order, in the range where the model is meaningful
inline V gen_pars(G& g, const Part& p) {
    V r; int nY = p.nY;
    auto pos = [&](double a, double b) { return g.chance(1, 8) ? (double)g.range((long)std::ceil(a), std::max((long)std::ceil(a), (long)b)) : g.uniform(a, b); };
    switch (p.k) {
    case ABC: for (int i = 0; i < nY; ++i) { r.push_back(pos(0, 10)); r.push_back(pos(0, 200)); r.push_back(pos(0.1, 4)); } break;
    case BECKMANN: case RBECKMANN: for (int i = 0; i < nY; ++i) { r.push_back(pos(0, 5)); r.push_back(g.uniform(0.05, 1.5)); } break;
    case BLINN: case RBLINN: for (int i = 0; i < nY; ++i) { r.push_back(pos(0, 5)); r.push_back(pos(0, 100)); } break;
    case DIFFUSE: break;
    case LAFORTUNE: for (int n = 0; n < p.lobes * nY; ++n) { r.push_back(g.uniform(-1.2, 1.2)); r.push_back(g.uniform(-1.2, 1.2)); r.push_back(g.uniform(-1.2, 1.2)); r.push_back(pos(0.5, 40)); } break;
    case SG: for (int i = 0; i < nY; ++i) { r.push_back(pos(0, 5)); r.push_back(pos(0, 100)); } if (p.sgtype == 4) r.push_back(g.uniform(0, 1.5)); break;
    case WARD: for (int i = 0; i < nY; ++i) { r.push_back(pos(0, 5)); r.push_back(g.uniform(0.05, 1.5)); r.push_back(g.uniform(0.05, 1.5)); } break;
    case YOO: for (int i = 0; i < nY; ++i) { r.push_back(pos(0, 5)); r.push_back(g.uniform(1, 2000)); } break;
    case SGD: { double lo[] = {0, 0, 0.2, 0, 0, 0, -0.2, 0.1, 0, 0, 0.05}, hi[] = {3, 1.2, 3, 0.8, 2, 1, 0.5, 5, 1, 2, 1.5};
        for (int q = 0; q < 11; ++q) for (int i = 0; i < nY; ++i) r.push_back(g.uniform(lo[q], hi[q])); break; }
    case F_NSCHLICK: for (int i = 0; i < nY; ++i) r.push_back(g.uniform(0.02, 1)); break;
    case F_SCHLICK: case F_RSCHLICK: for (int i = 0; i < nY; ++i) r.push_back(pos(0, 1)); break;
    case S_SCHLICK: for (int i = 0; i < nY; ++i) r.push_back(pos(0, 2)); break;
    case S_SMITH: case S_WALTER: for (int i = 0; i < nY; ++i) r.push_back(g.uniform(0.05, 2)); break;
    default: break;
    }
    return r;
}
// Closed form of a model, per channel.  c: view, light; u: coordinate of one-dimensional lobes
inline V reference(const Part& p, const V& q, const double* c, double u) {
    int nY = p.nY; V r(nY, 0.0);
    double h[3] = {c[0] + c[3], c[1] + c[4], c[2] + c[5]}, hn = sqrt(h[0]*h[0] + h[1]*h[1] + h[2]*h[2]); for (double& t : h) t /= hn;
    double b[3] = {c[3] - c[0], c[4] - c[1], c[2] + c[5]}, bn = sqrt(b[0]*b[0] + b[1]*b[1] + b[2]*b[2]); for (double& t : b) t /= bn;   // back vector
    double lv = c[0]*c[3] + c[1]*c[4] + c[2]*c[5], vh = c[0]*h[0] + c[1]*h[1] + c[2]*h[2];
    for (int i = 0; i < nY; ++i) switch (p.k) {
    case ABC: { double x = 1 - u; r[i] = (x >= 0 && x <= 1) ? q[3*i] / pow(1 + q[3*i+1] * x, q[3*i+2]) : 0; break; }
    case BECKMANN: case RBECKMANN: { double z = p.k == BECKMANN ? h[2] : p.retro ? std::max(lv, 0.0) : b[2], a = q[2*i+1];
        if (z > 0 && (p.k == RBECKMANN || (c[2] > 0 && c[5] > 0))) { double t2 = (1 - z*z) / (z*z); r[i] = q[2*i] / (4 * PI * a*a * z*z*z*z) * exp(-t2 / (a*a)); } break; }
    case BLINN: r[i] = u > 0 ? q[2*i] * pow(u, q[2*i+1]) : 0; break;
    case RBLINN: r[i] = u >= 0 ? q[2*i] * pow(u, q[2*i+1]) : 0; break;
    case DIFFUSE: r[i] = p.kd[i]; break;
    case LAFORTUNE: r[i] = p.kd[i]; for (int n = 0; n < p.lobes; ++n) { const double* C = &q[4 * (n * nY + i)]; double d = C[0]*c[0]*c[3] + C[1]*c[1]*c[4] + C[2]*c[2]*c[5]; if (d > 0) r[i] += pow(d, C[3]); } break;
    case SG: { double d;
        switch (p.sgtype) { case 0: d = c[2]*c[5] - c[0]*c[3] - c[1]*c[4]; break; case 1: d = h[2]; break; case 2: d = lv; break; case 3: d = b[2]; break;
            default: { double pl = az(c[4], c[3]), s = hypot(c[3], c[4]), f = pl * q[2*nY] + PI; d = c[0] * s * cos(f) + c[1] * s * sin(f) + c[2]*c[5]; } }
        r[i] = q[2*i] * exp(q[2*i+1] * (d - 1)); break; }
    case WARD: if (c[2] * c[5] > 0) { double X = h[0] / q[3*i+1], Y = h[1] / q[3*i+2]; r[i] = q[3*i] / (4 * PI * q[3*i+1] * q[3*i+2] * sqrt(c[2]*c[5])) * exp(-(X*X + Y*Y) / (h[2]*h[2])); } break;
    case YOO: { double l = q[2*i+1], w = 2 * PI * c[0] / 633.0; r[i] = q[2*i] * 3 / (16 * PI) * (2.4 + 1 / (1 + w*l*l)) * (1 + (1 - exp(-1.4 * w * l) / (w*l))); break; }
    case SGD: { auto P = [&](int k) { return q[k * nY + i]; };
        auto G1 = [&](double z) { return 1 + P(3) * (1 - exp(P(0) * pow(std::max(acos(z) - P(1), 0.0), P(2)))); };
        double c2 = h[2]*h[2], t2 = (1 - c2) / c2, ax = P(10) + t2 / P(10), D = P(7) * exp(-ax) / pow(ax, P(4)) / (PI * c2 * c2);
        double F = P(5) - vh * P(6) + (1 - P(5)) * pow(1 - vh, 5);
        r[i] = (P(8) + P(9) * D * G1(c[2]) * G1(c[5]) * F) / PI; break; }
    case F_SCHLICK: r[i] = q[i] + (1 - q[i]) * pow(1 - cl01(vh), 5); break;
    case F_NSCHLICK: r[i] = 1 + (1 / q[i] - 1) * pow(1 - cl01(vh), 5); break;
    case F_RSCHLICK: { double d = b[2]*c[2] - b[0]*c[0] - b[1]*c[1]; r[i] = q[i] + (1 - q[i]) * pow(1 - d, 5); break; }
    case S_SCHLICK: r[i] = c[5] / (c[5] + q[i] * (1 - c[5])) * c[2] / (c[2] + q[i] * (1 - c[2])); break;
    case S_SMITH: { double s = hypot(c[3], c[4]); if (s == 0) r[i] = 1; else { double t = c[5] / s / q[i]; r[i] = 1 / (1 + exp(-t*t/2) / sqrt(2*PI) / t - 0.5 * erfc(t / sqrt(2.0))); } break; }
    case S_WALTER: { auto S = [&](double z) { double a = 1 / (q[i] * sqrt(1 - z*z) / z); return a >= 1.6 ? 1.0 : (3.535*a + 2.181*a*a) / (1 + 2.276*a + 2.577*a*a); }; r[i] = S(c[2]) * S(c[5]); break; }
    default: break;
    }
    return r;
}
}
