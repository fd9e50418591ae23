#pragma once
#include "qp_common.hpp"
namespace {
using namespace qp;
/** |x - x*| bound implied by an approximate KKT point of a problem with H >= mu I (x* with multipliers y*) */
inline double error_bound(const QP& q, const Res& r, double tp) {
    int n = q.H.rows(), m = q.A.rows();
    double rd = (q.H * r.x + q.h + q.A.transpose() * r.y.head(m) + r.y.tail(n)).norm();
    double w = (r.y - q.ys).lpNorm<1>() * tp;
    return rd / q.mu + std::sqrt(w / q.mu);
}
template <class Solver, class Sc, int N, int M, bool Sp> void prop(pbt::Src& s, pbt::Ctx& c) {
    bool flt = sizeof(Sc) == 4;
    QP q = gen_cond(s, N, M, STRICT, !flt);
    Cfg k = gen_cfg(s);
    k.rho = s.flag(0.5) ? s.logreal(0.05, 5) : 0.1; k.alpha = s.flag(0.6) ? s.real(0.6, 1.7) : 1.0;
    k.eps_abs = flt ? std::max(4e-3, 4e-3 * k.rho) :   // equality rows carry 1000 rho: the float rounding floor of the dual residual
         s.pick({1e-5, 1e-6, 1e-4, 1e-3}); k.eps_rel = s.flag(0.3) ? 0.0 : k.eps_abs;
    k.max_iter = 2000000;
    // adapting the penalty every few iterations may cycle (a limitation of the heuristic, not of the result): success
    // is demanded when the penalty is kept for a few hundred iterations; the answer is checked in every case
    bool maycycle = false;
    if (k.adaptive) { maycycle = s.flag(0.2) || flt; k.arint = maycycle ? s.pick({0, 1, 10, 25}) : s.range(300, 1000); k.rho = flt ? k.rho : s.logreal(1e-3, 1e3); if (maycycle) k.max_iter = 20000; }
    Solver sv; apply(sv.settings(), k);
    bool guess = s.flag(0.4); Vec xg, yg; if (guess) { double a = s.pick({1.0, 10.0}); xg = rvec(s, N, a); yg = rvec(s, N + M, a); }
    describe(c, q); describe(c, k);
    Res r = Call<Solver, Sc, N, M, Sp>::run(sv, q, guess ? &xg : nullptr, guess ? &yg : nullptr);
    if (maycycle) { c.label("may cycle, unsolved", r.status != SOLVED); if (r.status == MAX_ITER_EXCEEDED) return; }
    CHECK(r.status == SOLVED, "feasible strictly convex problem not solved: status " << r.status << " after " << r.iter << " iterations, residuals " << r.rp << " " << r.rd);
    Vec ax = q.A * r.x; double fp = flt ? 1e-4 : 1e-9;
    double tp = (k.eps_abs + k.eps_rel * std::max(linf(ax), linf(r.x))) / (1 - k.eps_rel) + fp * (1 + linf(r.x) + linf(ax));
    double eb = error_bound(q, r, tp) + fp * (1 + linf(r.x)) / q.mu, e = (r.x - q.xs).norm();
    CHECK(e <= eb, "distance to the unique minimiser " << e << " exceeds the bound " << eb << " implied by the tolerances");
    c.label("alpha!=1", k.alpha != 1); c.label("adaptive", k.adaptive); c.label("equalities", q.equal > 0); c.label("iter>1000", r.iter > 1000); c.label("iter>20000", r.iter > 20000);
    c.nt(q.active > 0);
}
/** a start from the exact optimal pair is recognised and kept */
template <class Solver, class Sc, int N, int M, bool Sp> void fixed_point(pbt::Src& s, pbt::Ctx& c) {
    bool flt = sizeof(Sc) == 4;
    Kind kind = flt ? STRICT : s.pick({STRICT, SEMI, LP});
    QP q = flt ? gen_cond(s, N, M, kind, false) : gen_solved(s, N, M, kind);
    Cfg k = gen_cfg(s);
    k.rho = s.logreal(0.05, 5); k.adaptive = s.flag(0.3);
    double eps = flt ? 1e-2 : 1e-5; k.eps_abs = eps; k.eps_rel = 0; k.check = 1; k.max_iter = 100;
    Solver sv; apply(sv.settings(), k); describe(c, q); describe(c, k);
    Res r = Call<Solver, Sc, N, M, Sp>::run(sv, q, &q.xs, &q.ys);
    CHECK(r.status == SOLVED && r.iter == 1, "exact optimal pair not recognised at once: status " << r.status << " iterations " << r.iter << " residuals " << r.rp << " " << r.rd);
    double tol = flt ? 2e-2 : 1e-5;
    CHECK(linf(r.x - q.xs) <= tol && linf(r.y - q.ys) <= tol * (1 + k.rho * 1000), "moved away from the optimal pair by " << linf(r.x - q.xs) << " / " << linf(r.y - q.ys));
    k.check = 0; k.max_iter = s.range(1, 60); k.adaptive = false; apply(sv.settings(), k);
    if (kind == STRICT && !flt) {
        r = Call<Solver, Sc, N, M, Sp>::run(sv, q, &q.xs, &q.ys);
        CHECK(linf(r.x - q.xs) <= tol * 10, "left the optimum after " << k.max_iter << " iterations: distance " << linf(r.x - q.xs));
    }
    c.nt(q.active + q.equal > 0);
}
}
#define ADD(S, Sc, N, M, Sp, NAME, Q) static pbt::Reg r_##NAME("solve_" #NAME, prop<S, Sc, N, M, Sp>, Q, Q * 20); static pbt::Reg f_##NAME("fixed_point_" #NAME, fixed_point<S, Sc, N, M, Sp>, Q, Q * 20);
#define DENSE_A(N, M, Q) using DA_##N##_##M = ADMM<N, M, double>; ADD(DA_##N##_##M, double, N, M, false, admm_dense_##N##x##M, Q)
#define DENSE_B(N, M, Q) using DB_##N##_##M = boxADMM<N, M, double>; ADD(DB_##N##_##M, double, N, M, false, box_dense_##N##x##M, Q)
#define SPARSE_A(N, M, Q) using SA_##N##_##M = ADMM<N, M, double, SPARSE, linear_solver_traits<SPARSE>::default_solver>; ADD(SA_##N##_##M, double, N, M, true, admm_sparse_##N##x##M, Q)
#define SPARSE_B(N, M, Q) using SB_##N##_##M = boxADMM<N, M, double, SPARSE, linear_solver_traits<SPARSE>::default_solver>; ADD(SB_##N##_##M, double, N, M, true, box_sparse_##N##x##M, Q)
