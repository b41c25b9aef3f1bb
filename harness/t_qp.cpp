// P19 quadratic programs: feasibility and optimality of the bundled solver against exhaustive and certificate oracles
#include "pbt.h"
#include <QuadProg++.hh>
#include <Eigen/Dense>
using namespace Eigen;
using pbt::G; using pbt::fmt; using pbt::fail; using pbt::close; using pbt::discard;

struct QP { int n, p, m; MatrixXd Q, CE, CI; VectorXd g0, ce, ci; };
static double coef(pbt::G& g) { int k = g.below(4); if (k == 0) return g.range(-2, 2); return g.uniform(-1, 1); }
static void gen_objective(pbt::G& g, QP& q) {
    int n = q.n; MatrixXd L = MatrixXd::Zero(n, n); bool id = g.chance(1, 4);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) L(i, j) = i == j ? (id ? 1.0 : g.uniform(0.5, 2)) : id ? 0.0 : g.uniform(-0.6, 0.6);
    q.Q = L * L.transpose(); q.g0.resize(n); bool zero = g.chance(1, 4); for (int i = 0; i < n; ++i) q.g0[i] = zero ? 0.0 : 3 * coef(g);
}
static VectorXd column(pbt::G& g, int n) { VectorXd c(n); do { for (int i = 0; i < n; ++i) c[i] = coef(g); if (g.chance(1, 5)) { c.setZero(); c[g.below(n)] = g.flip() ? 1 : -1; } } while (c.norm() < 0.2 && (c[0] += 1, false)); if (c.norm() < 0.2) c[0] += 1; return c; }
static bool independent(const MatrixXd& A) { if (!A.cols()) return true; if (A.cols() > A.rows()) return false; JacobiSVD<MatrixXd> s(A); return s.singularValues()(A.cols() - 1) > 0.05; }
static QP gen(pbt::G& g, int maxn, int maxm, int feas /*0 any 1 feasible 2 infeasible*/) {
    QP q; q.n = g.range(1, maxn); q.p = g.chance(1, 2) ? 0 : (int)g.range(0, q.n - 1); q.m = g.range(feas == 2 ? 2 : 0, maxm);
    gen_objective(g, q);
    q.CE.resize(q.n, q.p); q.CI.resize(q.n, q.m); q.ce.resize(q.p); q.ci.resize(q.m);
    for (int i = 0; i < q.p; ++i) q.CE.col(i) = column(g, q.n);
    if (!independent(q.CE)) discard();
    for (int i = 0; i < q.m; ++i) {
        int k = g.below(10);
        if (k == 0 && i) q.CI.col(i) = q.CI.col(g.below(i)) * (g.flip() ? 1.0 : 2.0); else if (k == 1 && i) q.CI.col(i) = -q.CI.col(g.below(i)); else q.CI.col(i) = column(g, q.n);
    }
    VectorXd x0(q.n); for (int i = 0; i < q.n; ++i) x0[i] = 2 * coef(g);
    if (feas == 0) { for (int i = 0; i < q.p; ++i) q.ce[i] = coef(g); for (int i = 0; i < q.m; ++i) q.ci[i] = 2 * coef(g); }
    else { q.ce = -(q.CE.transpose() * x0); for (int i = 0; i < q.m; ++i) q.ci[i] = -q.CI.col(i).dot(x0) + (g.chance(1, 3) ? g.uniform(0.01, 0.1) : g.uniform(0.01, 2)) * q.CI.col(i).norm(); }   // x0 is strictly inside
    if (feas == 2) {   // a non-negative combination of some constraints contradicts another one by a clear gap
        int k = g.range(1, std::min(3, q.m - 1)); VectorXd c = VectorXd::Zero(q.n); double d = 0;
        for (int i = 0; i < k; ++i) { double w = g.uniform(0.3, 1.5); c += w * q.CI.col(i); d += w * q.ci[i]; }
        if (c.norm() < 0.3) discard();
        int at = g.range(k, q.m - 1); q.CI.col(at) = -c; q.ci[at] = -d - g.uniform(0.05, 2) * c.norm();
    }
    return q;
}
static void note(pbt::G& g, const QP& q) {
    std::ostringstream o; o.precision(17); IOFormat f(FullPrecision, DontAlignCols, ",", ";");
    o << "n=" << q.n << " p=" << q.p << " m=" << q.m << " G=" << q.Q.format(f) << " g0=" << q.g0.transpose().format(f) << " CE=" << q.CE.format(f) << " ce0=" << q.ce.transpose().format(f) << " CI=" << q.CI.format(f) << " ci0=" << q.ci.transpose().format(f);
    g.note("qp", o.str());
}
static double objective(const QP& q, const VectorXd& x) { return 0.5 * x.dot(q.Q * x) + q.g0.dot(x); }
static double violation(const QP& q, const VectorXd& x) {
    double v = 0; for (int i = 0; i < q.p; ++i) v = std::max(v, fabs(q.CE.col(i).dot(x) + q.ce[i])); for (int i = 0; i < q.m; ++i) v = std::max(v, -(q.CI.col(i).dot(x) + q.ci[i])); return v;
}
// exhaustive reference: the optimum is the KKT point of some independent set of at most n - p active inequalities
static bool brute(const QP& q, VectorXd& best, double& worst_margin) {
    bool found = false; double bc = 1e300; worst_margin = 1e300;
    for (int mask = 0; mask < (1 << q.m); ++mask) {
        std::vector<int> s; for (int i = 0; i < q.m; ++i) if (mask >> i & 1) s.push_back(i);
        int k = q.p + s.size(); if (k > q.n) continue;
        MatrixXd A(q.n, k); VectorXd b(k); for (int i = 0; i < q.p; ++i) { A.col(i) = q.CE.col(i); b[i] = -q.ce[i]; } for (size_t i = 0; i < s.size(); ++i) { A.col(q.p + i) = q.CI.col(s[i]); b[q.p + i] = -q.ci[s[i]]; }
        if (k) { JacobiSVD<MatrixXd> sv(A); if (sv.singularValues()(k - 1) < 1e-7) continue; }
        MatrixXd K = MatrixXd::Zero(q.n + k, q.n + k); K.topLeftCorner(q.n, q.n) = q.Q; K.topRightCorner(q.n, k) = -A; K.bottomLeftCorner(k, q.n) = A.transpose(); VectorXd r(q.n + k); r.head(q.n) = -q.g0; r.tail(k) = b;
        VectorXd z = K.fullPivLu().solve(r); VectorXd x = z.head(q.n); double v = violation(q, x);
        worst_margin = std::min(worst_margin, v); if (v > 1e-8) continue;
        double c = objective(q, x); if (!found || c < bc) { bc = c; best = x; found = true; }   // least cost over feasible faces = optimum
    }
    return found;
}
// Lawson-Hanson non-negative least squares: distance of b to the cone of A's columns (nfree first columns unrestricted)
static double cone_distance(const MatrixXd& A0, int nfree, const VectorXd& b) {
    MatrixXd A(A0.rows(), A0.cols() + nfree); A << A0, -A0.leftCols(nfree); int n = A.cols(); std::vector<bool> P(n, false); VectorXd x = VectorXd::Zero(n);
    for (int it = 0; it < 30 * n + 30; ++it) {
        VectorXd w = A.transpose() * (b - A * x); int j = -1; double bw = 1e-11 * (1 + b.norm()); for (int i = 0; i < n; ++i) if (!P[i] && w[i] > bw) { bw = w[i]; j = i; }
        if (j < 0) break; P[j] = true;
        for (int in = 0; in < 3 * n + 3; ++in) {
            std::vector<int> id; for (int i = 0; i < n; ++i) if (P[i]) id.push_back(i);
            if (id.empty()) break;
            MatrixXd B(A.rows(), id.size()); for (size_t i = 0; i < id.size(); ++i) B.col(i) = A.col(id[i]);
            VectorXd s = B.colPivHouseholderQr().solve(b); bool ok = true; double al = 1; 
            for (size_t i = 0; i < id.size(); ++i) if (s[i] <= 0) { ok = false; double d = x[id[i]] - s[i]; if (d > 0) al = std::min(al, x[id[i]] / d); else al = 0; }
            if (ok) { x.setZero(); for (size_t i = 0; i < id.size(); ++i) x[id[i]] = s[i]; break; }
            for (size_t i = 0; i < id.size(); ++i) { x[id[i]] += al * (s[i] - x[id[i]]); if (x[id[i]] <= 1e-14) { x[id[i]] = 0; P[id[i]] = false; } }
        }
    }
    return (A * x - b).norm();
}
static double solve(pbt::G& g, const QP& q, VectorXd& x, int mode) {
    x = VectorXd::Constant(q.n, g.pick(std::vector<double>{0.0, 7.0})); MatrixXd L = q.Q;
    if (mode == 0) return QuadProgPP::solve_quadprog(L, q.g0, q.CE, q.ce, q.CI, q.ci, x);
    QuadProgPP::Scheduling s; VectorXi active; bool as = g.flip(); QuadProgPP::init_qp(L);
    x = -(q.Q.llt().solve(q.g0));
    if (mode == 1) { s.initSlidingWindows(q.n, q.m); int k = g.below(3); if (k == 1) s.grow_factor = g.pick(std::vector<double>{1.5, 2.0}); if (k == 2) s.initial_chunk_size = g.range(1, q.m); }
    if (mode == 2) s.initWorstSetFirst(q.n, q.m);
    std::ostringstream d; d << "mode=" << mode << " chunk=" << s.initial_chunk_size << " grow=" << s.grow_factor; g.note("scheduling", d.str());
    return QuadProgPP::solve_quadprog_with_guess(L, q.g0, q.CE, q.ce, q.CI, q.ci, x, s, as ? &active : nullptr);
}
static void certify(const QP& q, const VectorXd& x, double cost) {
    double s = 1 + x.cwiseAbs().maxCoeff();
    CHECK(x.allFinite(), "solution is not finite");
    CHECK(violation(q, x) <= 1e-8 * s, "solution violates a constraint by " << fmt(violation(q, x)));
    double o = objective(q, x); CHECK(close(cost, o, 1e-8, 1e-8 * s * s), "cost reported " << fmt(cost) << " but the objective there is " << fmt(o));
    std::vector<int> act; for (int i = 0; i < q.m; ++i) if (fabs(q.CI.col(i).dot(x) + q.ci[i]) <= 1e-7 * s) act.push_back(i);
    MatrixXd A(q.n, q.p + act.size()); if (q.p) A.leftCols(q.p) = q.CE; for (size_t i = 0; i < act.size(); ++i) A.col(q.p + i) = q.CI.col(act[i]);
    VectorXd grad = q.Q * x + q.g0; double d = A.cols() ? cone_distance(A, q.p, grad) : grad.norm();
    CHECK(d <= 1e-6 * s, "gradient is " << fmt(d) << " away from the cone of active constraints: not optimal");
}
static bool infeasible(double c) { return !(c < 1e308); }

PROPERTY(qp_exhaustive) {
    QP q = gen(g, 4, 7, g.below(3)); note(g, q); VectorXd x, ref; double margin; bool f = brute(q, ref, margin);
    if (!f && margin < 1e-5) discard();   // feasible only by a hair: either answer is right
    if (f) { QP in = q; for (int i = 0; i < q.m; ++i) in.ci[i] -= 1e-3 * q.CI.col(i).norm(); VectorXd y; double z; if (!brute(in, y, z)) discard(); }
    g.nontrivial(q.m > 0); g.label(f ? "feasible" : "infeasible"); double c = solve(g, q, x, 0);
    CHECK(infeasible(c) == !f, (f ? "a feasible program is reported infeasible" : "an infeasible program is reported solved") << ", cost " << fmt(c));
    if (f) { certify(q, x, c); double s = 1 + ref.cwiseAbs().maxCoeff(); CHECK((x - ref).norm() <= 1e-6 * s, "solution is " << fmt((x - ref).norm()) << " away from the optimum"); }
}
PROPERTY(qp_certificate) {
    QP q = gen(g, 14, 60, 1); note(g, q); VectorXd x; g.nontrivial(q.m > 0); g.label(q.p ? "equalities" : "inequalities");
    double c = solve(g, q, x, 0); CHECK(!infeasible(c), "a feasible program is reported infeasible, cost " << fmt(c)); certify(q, x, c);
}
PROPERTY(qp_infeasible) {
    QP q = gen(g, 10, 30, 2); note(g, q); VectorXd x; g.nontrivial(); double c = solve(g, q, x, 0); CHECK(infeasible(c), "an infeasible program is reported solved, cost " << fmt(c) << " violation " << fmt(violation(q, x)));
}
PROPERTY(qp_scheduling) {
    int f = g.range(1, 2); QP q = gen(g, 10, 50, f); int mode = g.range(1, 2); if (q.m < 1) discard(); if (mode == 2) { q.p = 0; q.CE.resize(q.n, 0); q.ce.resize(0); } note(g, q); VectorXd x; g.nontrivial(); g.label((mode == 1 ? "sliding_" : "worstset_") + std::string(f == 1 ? "feasible" : "infeasible"));
    double c = solve(g, q, x, mode); CHECK(infeasible(c) == (f == 2), (f == 1 ? "a feasible program is reported infeasible" : "an infeasible program is reported solved") << ", cost " << fmt(c)); if (f == 1) certify(q, x, c);
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
