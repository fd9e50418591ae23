#pragma once
#include "qp_common.hpp"
namespace {
using namespace qp;
template <class Solver, class Sc, int N, int M, bool Sp> void prop(pbt::Src& s, pbt::Ctx& c) {
    Kind kind = sizeof(Sc) == 4 ? STRICT : s.pick({STRICT, SEMI, LP, STRICT});   // in single precision the regularisation (1e-6) of singular Hessians is below rounding
    QP q = gen_any(s, N, M, kind);
    Cfg k = gen_cfg(s);
    // a Hessian with directions of negative curvature: SOLVED still means the optimality conditions, also when the iterates diverge
    bool nonconvex = s.flag(0.12);
    if (nonconvex) for (int j = s.range(1, 2); j > 0; j--) { int i = s.range(0, N - 1); q.H(i, i) -= q.H(i, i) + s.logreal(0.01, 30); q.Hpat(i, i) = 1; }
    double fp = 1e-9;
    if (sizeof(Sc) == 4) { k.eps_abs = std::max(k.eps_abs, 1e-3); fp = 2e-5; q.H = q.H.cast<float>().template cast<double>(); q.h = q.h.cast<float>().template cast<double>(); q.A = q.A.cast<float>().template cast<double>(); }
    if (sizeof(Sc) == 4 && Sp) { k.adaptive = false; k.rho = std::min(k.rho, 1.0); }   // the sparse factorisation does not pivot: penalties up to 1e9 exhaust single precision
    k.max_iter = s.pick({1000, 200, 4000});
    Solver sv; apply(sv.settings(), k);
    bool guess = s.flag(0.3);
    Vec xg, yg; double far = 1; if (guess) { if (sizeof(Sc) == 8 && s.flag(0.4)) far = s.logreal(1e-3, 1e4); xg = rvec(s, N, 5.0 * far); yg = rvec(s, N + M, s.flag() ? 5.0 : 5.0 * std::min(far, 100.0)); c.say("guess", far); }
    describe(c, q); describe(c, k);
    Res r = Call<Solver, Sc, N, M, Sp>::run(sv, q, guess ? &xg : nullptr, guess ? &yg : nullptr);
    CHECK(r.status == SOLVED || r.status == MAX_ITER_EXCEEDED, "status " << r.status);
    bool solved = r.status == SOLVED;
    c.label("solved", solved); c.label("not solved", !solved); c.label("guess", guess && solved); c.label("nonconvex solved", nonconvex && solved); c.label("diverged", nonconvex && !solved && !(r.x.norm() < 1e30)); c.label("far guess", guess && solved && far > 30); c.label("alpha!=1 solved", solved && k.alpha != 1);
    c.nt(solved && (q.active + q.equal > 0));
    if (solved) check_kkt(q, r, k, fp, c);
}
}
#define ADD(kind, S, Sc, N, M, Sp, NAME) static pbt::Reg r_##NAME(#NAME, prop<S, Sc, N, M, Sp>, 1500, 30000);
#define FLT(S, N, M, Sp, NAME) using F_##NAME = S; ADD(0, F_##NAME, float, N, M, Sp, NAME)
#define COMMA ,
#define DENSE_A(N, M) using DA_##N##_##M = ADMM<N, M, double>; ADD(0, DA_##N##_##M, double, N, M, false, admm_dense_##N##x##M)
#define DENSE_B(N, M) using DB_##N##_##M = boxADMM<N, M, double>; ADD(0, DB_##N##_##M, double, N, M, false, box_dense_##N##x##M)
#define SPARSE_A(N, M) using SA_##N##_##M = ADMM<N, M, double, SPARSE, linear_solver_traits<SPARSE>::default_solver>; ADD(0, SA_##N##_##M, double, N, M, true, admm_sparse_##N##x##M)
#define SPARSE_B(N, M) using SB_##N##_##M = boxADMM<N, M, double, SPARSE, linear_solver_traits<SPARSE>::default_solver>; ADD(0, SB_##N##_##M, double, N, M, true, box_sparse_##N##x##M)
