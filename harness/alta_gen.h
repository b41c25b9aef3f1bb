// Generators shared by the core harnesses.
#pragma once
#include "pbt.h"
#include <core/common.h>
#include <core/args.h>
#include <core/params.h>
#include <core/data.h>
#include <core/data_storage.h>
#include <core/vertical_segment.h>
#include <core/plugins_manager.h>
namespace ag {
using namespace alta;
using pbt::discard; using pbt::G; using pbt::fmt; using pbt::fmtv; using pbt::close; using pbt::fail;

inline void noop_delete(double* p) { delete[] p; }

// input parametrizations that have a name, with their documented dimension
struct PIn { params::input p; const char* name; int dim; };
inline const std::vector<PIn>& inputs() {
    static const std::vector<PIn> v = {
        {params::COS_TH, "COS_TH", 1}, {params::COS_TK, "COS_TK", 1}, {params::COS_TLV, "COS_TLV", 1}, {params::COS_TLR, "COS_TLR", 1},
        {params::RUSIN_TH_TD, "RUSIN_TH_TD", 2}, {params::COS_TH_TD, "COS_TH_TD", 2}, {params::ISOTROPIC_TV_PROJ_DPHI, "ISOTROPIC_TV_PROJ_DPHI", 2},
        {params::STARK_2D, "STARK_2D", 2}, {params::NEUMANN_2D, "NEUMANN_2D", 2},
        {params::RUSIN_TH_PH_TD, "RUSIN_TH_PH_TD", 3}, {params::RUSIN_TH_TD_PD, "RUSIN_TH_TD_PD", 3}, {params::ISOTROPIC_TV_TL_DPHI, "ISOTROPIC_TV_TL_DPHI", 3}, {params::RUSIN_VH, "RUSIN_VH", 3},
        {params::SCHLICK_VK, "SCHLICK_VH", 3}, {params::ISOTROPIC_TL_TV_PROJ_DPHI, "ISOTROPIC_TL_TV_PROJ_DPHI", 3},
        {params::SCHLICK_TL_TK_PROJ_DPHI, "SCHLICK_TL_TK_PROJ_DPHI", 3}, {params::RETRO_TL_TVL_PROJ_DPHI, "RETRO_TL_TVL_PROJ_DPHI", 3},
        {params::STARK_3D, "STARK_3D", 3}, {params::NEUMANN_3D, "NEUMANN_3D", 3},
        {params::RUSIN_TH_PH_TD_PD, "RUSIN_TH_PH_TD_PD", 4}, {params::SPHERICAL_TL_PL_TV_PV, "SPHERICAL_TL_PL_TV_PV", 4}, {params::STEREOGRAPHIC, "STEREOGRAPHIC", 4},
        {params::CARTESIAN, "CARTESIAN", 6}};
    return v;
}
struct POut { params::output p; const char* name; };
inline const std::vector<POut>& outputs() {
    static const std::vector<POut> v = {{params::INV_STERADIAN, "INV_STERADIAN"}, {params::INV_STERADIAN_COSINE_FACTOR, "INV_STERADIAN_COSINE_FACTOR"},
        {params::ENERGY, "ENERGY"}, {params::RGB_COLOR, "RGB_COLOR"}, {params::XYZ_COLOR, "XYZ_COLOR"}};
    return v;
}

// A data set as plain numbers: the model the library is compared with.
struct Model {
    int nx, ny, kind;                // kind: 0 none, 1 symmetric, 2 asymmetric bounds
    params::input in; params::output out;
    std::vector<std::vector<double>> rows;     // nx + ny + kind*ny numbers
    int cols() const { return nx + ny + kind * ny; }
};
inline void gen_params(G& g, Model& m, int maxdim = 6) {
    if (g.chance(2, 3)) { const PIn& p = g.pick(inputs()); m.in = p.p; m.nx = p.dim; }
    else { m.in = params::UNKNOWN_INPUT; m.nx = g.range(1, maxdim); }
    if (g.chance(2, 3)) { const POut& p = g.pick(outputs()); m.out = p.p; m.ny = (p.p == params::RGB_COLOR || p.p == params::XYZ_COLOR) ? 3 : p.p == params::INV_STERADIAN_COSINE_FACTOR ? (int)g.range(1, 3) : 1; }
    else { m.out = params::UNKNOWN_OUTPUT; m.ny = g.range(1, 5); }
}
inline ptr<vertical_segment> build(const Model& m) {
    size_t n = m.rows.size();
    double* c = new double[std::max<size_t>(1, n * m.cols())];
    for (size_t i = 0; i < n; ++i) for (int j = 0; j < m.cols(); ++j) c[i * m.cols() + j] = m.rows[i][j];
    return ptr<vertical_segment>(new vertical_segment(parameters(m.nx, m.ny, m.in, m.out), n, std::shared_ptr<double>(c, noop_delete),
        m.kind == 2 ? vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL : m.kind == 1 ? vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL : vertical_segment::NO_CONFIDENCE_INTERVAL));
}
inline std::string rows_str(const Model& m, size_t maxr = 4) { std::string s; for (size_t i = 0; i < m.rows.size() && i < maxr; ++i) s += fmtv(m.rows[i]); return s; }
inline bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
}
