#pragma once
#include "qp_common.hpp"
#include <Eigen/SparseLU>
namespace {
using namespace qp;
// linear solvers that use the whole KKT matrix, whatever triangle they are told to use
template <typename T, int U, typename...> struct FullLU : Eigen::PartialPivLU<T> { Eigen::ComputationInfo info() const { return Eigen::Success; } };
template <typename T, int U, typename...> struct FullSparseLU : Eigen::SparseLU<T, Eigen::COLAMDOrdering<int>> {};

template <template <int, int, typename, int, template <typename, int, typename...> class, int, typename...> class S, int N, int M> struct T {
    using D = S<N, M, double, DENSE, linear_solver_traits<DENSE>::default_solver, Eigen::Lower>;
    using DL = S<N, M, double, DENSE, FullLU, Eigen::Lower | Eigen::Upper>;
    using P = S<N, M, double, SPARSE, linear_solver_traits<SPARSE>::default_solver, Eigen::Lower>;
    using PL = S<N, M, double, SPARSE, FullSparseLU, Eigen::Lower | Eigen::Upper>;
    template <class V, bool Sp> static Out once(V& v, const QP& q, const Cfg& k, const Vec* xg, const Vec* yg, bool reuse = false) {
        apply(v.settings(), k); v.settings().reuse_pattern = reuse;
        Out o; o.r = Call<V, double, N, M, Sp>::run(v, q, xg, yg); o.est = v.info().rho_estimate; return o;
    }
    static void setup(pbt::Src& s, pbt::Ctx& c, QP& q, Cfg& k, bool& guess, Vec& xg, Vec& yg) {
        Kind kind = s.pick({STRICT, SEMI, LP, STRICT}); q = gen_any(s, N, M, kind);
        if (s.flag(0.5)) { for (int i = 0; i < N; i++) if (q.H(i, i) == 0 && s.flag(0.7)) q.Hpat(i, i) = 0; }   // no explicit diagonal
        k = gen_cfg(s); k.check = 0; k.max_iter = s.range(1, 30); k.sigma = std::max(k.sigma, 1e-6);
        if (kind != STRICT) { k.adaptive = false; k.sigma = s.logreal(1e-3, 1e-1); }   // the adapted iteration of a singular problem is too badly conditioned to compare
        k.arint = std::max(1, s.range(k.max_iter / 2 + 1, k.max_iter));
        guess = s.flag(0.5); if (guess) { xg = rvec(s, N, 5.0); yg = rvec(s, N + M, 5.0); }
        describe(c, q); describe(c, k);
        if (c.want_text) { c.mat("Hpat", q.Hpat).mat("Apat", q.Apat); if (guess) c.mat("x0", xg.transpose()).mat("y0", yg.transpose()); }
    }
    /** dense LDLT against: sparse with stored zeros, full pattern, LU of both triangles */
    static void storage(pbt::Src& s, pbt::Ctx& c) {
        QP q; Cfg k; bool guess; Vec xg, yg; setup(s, c, q, k, guess, xg, yg);
        const Vec *px = guess ? &xg : nullptr, *py = guess ? &yg : nullptr;
        D d; Out ref = once<D, false>(d, q, k, px, py); double mag = guess ? 50 : linf(q.h);
        P p; DL dl; PL pl; QP f = q; f.Hpat.setOnes(); f.Apat.setOnes();
        bool ok = true;
        ok &= same("dense/sparse", ref, once<P, true>(p, q, k, px, py), k, true, mag);
        ok &= same("dense LDLT/dense LU with both triangles", ref, once<DL, false>(dl, q, k, px, py), k, true, mag);
        ok &= same("dense/sparse LU with both triangles", ref, once<PL, true>(pl, q, k, px, py), k, true, mag);
        P p2; ok &= same("dense/sparse with explicit zeros", ref, once<P, true>(p2, f, k, px, py), k, true, mag);
        c.label("undecided", !ok); c.label("adaptive", k.adaptive); c.label("diag missing", q.Hpat.diagonal().sum() < N);
        c.nt(ok && q.active + q.equal > 0);
    }
    /** reused pattern analysis against a fresh object */
    static void reuse(pbt::Src& s, pbt::Ctx& c) {
        QP q; Cfg k; bool guess; Vec xg, yg; setup(s, c, q, k, guess, xg, yg);
        const Vec *px = guess ? &xg : nullptr, *py = guess ? &yg : nullptr; double mag = guess ? 50 : linf(q.h);
        Cfg k0 = k; if (s.flag(0.5)) { k0.rho *= s.logreal(0.1, 10); k0.sigma = 1e-3; k0.alpha = 1.3; }
        QP q0 = vary(s, q, s.range(0, 2)); int extra = s.range(0, 2);
        P fresh, used; Out ref = once<P, true>(fresh, q, k, px, py);
        once<P, true>(used, q0, k0, nullptr, nullptr);
        for (int i = 0; i < extra; i++) once<P, true>(used, vary(s, q, 1), k0, nullptr, nullptr, true);
        bool ok = same("sparse fresh/reused", ref, once<P, true>(used, q, k, px, py, true), k, true, mag);
        PL l; once<PL, true>(l, q0, k0, nullptr, nullptr);
        for (int i = 0; i < extra; i++) once<PL, true>(l, vary(s, q, 1), k0, nullptr, nullptr, true);
        ok &= same("sparse LU both triangles, reused", ref, once<PL, true>(l, q, k, px, py, true), k, true, mag);
        // back to a fresh analysis with another pattern on the same object
        QP f = q; f.Hpat.setOnes(); f.Apat.setOnes();
        ok &= same("new pattern after reuse", ref, once<P, true>(used, f, k, px, py, false), k, true, mag);
        c.label("undecided", !ok); c.label("diag missing", q.Hpat.diagonal().sum() < N);
        c.nt(ok && q.active + q.equal > 0);
    }
};
/** the two splitting solvers agree on the answer */
template <int N, int M> void agree(pbt::Src& s, pbt::Ctx& c) {
    QP q = gen_cond(s, N, M, STRICT); Cfg k = gen_cfg(s); k.adaptive = false; k.alpha = s.real(0.8, 1.6); k.rho = s.logreal(0.05, 5); k.sigma = 1e-6; k.eps_abs = 1e-8; k.eps_rel = 0; k.max_iter = 1000000;
    describe(c, q); describe(c, k);
    ADMM<N, M, double> a; boxADMM<N, M, double> b; apply(a.settings(), k); apply(b.settings(), k);
    Res ra = Call<ADMM<N, M, double>, double, N, M, false>::run(a, q), rb = Call<boxADMM<N, M, double>, double, N, M, false>::run(b, q);
    CHECK(ra.status == SOLVED && rb.status == SOLVED, "status " << ra.status << " " << rb.status);
    double l1 = q.ys.lpNorm<1>() + ra.y.lpNorm<1>() + rb.y.lpNorm<1>(), bound = 2e-6 / q.mu + 2 * std::sqrt(1e-7 * l1 / q.mu);
    CHECK((ra.x - rb.x).norm() <= bound, "answers of the two solvers differ by " << (ra.x - rb.x).norm() << " bound " << bound);
    c.nt(q.active + q.equal > 0);
}
}
#define ADD(S, N, M) static pbt::Reg rs_##S##N##M("storage_" #S "_" #N "x" #M, T<S, N, M>::storage, 3000, 60000); static pbt::Reg rr_##S##N##M("reuse_" #S "_" #N "x" #M, T<S, N, M>::reuse, 3000, 60000);
#define AGREE(N, M) static pbt::Reg ra_##N##M("agree_" #N "x" #M, agree<N, M>, 2000, 40000);
