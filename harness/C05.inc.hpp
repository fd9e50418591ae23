#pragma once
#include "qp_common.hpp"
#include "solvers/qp_preconditioners.hpp"
namespace {
using namespace qp;
static bool close(double a, double b, double rel) { return a == b || (std::isinf(a) && a == b) || std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) || (std::abs(a) < 1e-280 && std::abs(b) < 1e-280); }
template <class V, class W> void expect(const char* what, const V& got, const W& want, double rel) {
    for (int i = 0; i < want.rows(); i++) for (int j = 0; j < want.cols(); j++) CHECK(close(got(i, j), want(i, j), rel), what << "(" << i << "," << j << ") is " << got(i, j) << " expected " << want(i, j));
}
template <class Sc, int N, int M> struct Data {
    using VN = Eigen::Matrix<Sc, N, 1>; using VM = Eigen::Matrix<Sc, M, 1>;
    VN h, l, u; VM al, au;
    Data(const QP& q) : h(q.h.cast<Sc>()), l(q.xlb.cast<Sc>()), u(q.xub.cast<Sc>()), al(q.Alb.cast<Sc>()), au(q.Aub.cast<Sc>()) {}
};
template <class Sc, int N, int M, bool Sp> struct T {
    using Pre = polympc::RuizEquilibration<Sc, N, M, Sp ? SPARSE : DENSE>;
    using HM = typename std::conditional<Sp, Eigen::SparseMatrix<Sc>, Eigen::Matrix<Sc, N, N>>::type;
    using AM = typename std::conditional<Sp, Eigen::SparseMatrix<Sc>, Eigen::Matrix<Sc, M, N>>::type;
    static Mat full(const Eigen::SparseMatrix<Sc>& m) { return Eigen::Matrix<Sc, -1, -1>(m).template cast<double>(); }
    template <class D> static Mat full(const Eigen::MatrixBase<D>& m) { return m.template cast<double>(); }
    static void make(const QP& q, Eigen::Matrix<Sc, N, N>& H, Eigen::Matrix<Sc, M, N>& A) { H = q.H.cast<Sc>(); A = q.A.cast<Sc>(); }
    static void make(const QP& q, Eigen::SparseMatrix<Sc>& H, Eigen::SparseMatrix<Sc>& A) { H = sparse<Sc>(q.H, q.Hpat); A = sparse<Sc>(q.A, q.Apat); }
    static bool same_pattern(const Eigen::SparseMatrix<Sc>& a, const Eigen::SparseMatrix<Sc>& b) {
        if (a.nonZeros() != b.nonZeros() || a.isCompressed()) return false;
        for (int k = 0; k < a.outerSize(); k++) { typename Eigen::SparseMatrix<Sc>::InnerIterator i(a, k), j(b, k); for (; i && j; ++i, ++j) if (i.row() != j.row()) return false; if (bool(i) != bool(j)) return false; }
        return true;
    }
    template <class D> static bool same_pattern(const Eigen::MatrixBase<D>&, const Eigen::MatrixBase<D>&) { return true; }
    static QP gen(pbt::Src& s) {
        QP q = gen_solved(s, N, M, s.pick({STRICT, SEMI, LP, STRICT}), s.flag(0.7));
        bool flt = sizeof(Sc) == 4; double lo = flt ? 1e-2 : 1e-5, hi = flt ? 1e2 : 1e5;
        if (s.flag(0.5)) { for (int i = 0; i < N; i++) { double d = s.logreal(lo, hi); q.H.row(i) *= d; q.H.col(i) *= d; q.h(i) *= d; q.A.col(i) *= d; q.xlb(i) /= d; q.xub(i) /= d; q.xs(i) /= d; q.ys(M + i) *= d; } q.mu = 0; }
        if (s.flag(0.4)) for (int i = 0; i < M; i++) { double e = s.logreal(lo, hi); q.A.row(i) *= e; q.Alb(i) *= e; q.Aub(i) *= e; q.ys(i) /= e; }
        if (s.flag(0.3)) { double c = s.logreal(lo, hi); q.H *= c; q.h *= c; q.ys *= c; q.mu *= c; }
        if (M > 0 && s.flag(0.2)) { int i = s.range(0, M - 1); q.A.row(i).setZero(); q.xs.resize(0); }
        if (s.flag(0.2)) { int i = s.range(0, N - 1); q.A.col(i).setZero(); q.xs.resize(0); }
        if (s.flag(0.2)) { int i = s.range(0, N - 1); q.H.row(i).setZero(); q.H.col(i).setZero(); q.xs.resize(0); }
        if (s.flag(0.2)) { q.h.setZero(); q.xs.resize(0); }
        if (s.flag(0.1)) { q.h *= 1e-9; q.xs.resize(0); }
        if (s.flag(0.05)) { q.H.setZero(); q.h.setZero(); q.xs.resize(0); }
        if (s.flag(0.1)) { for (int j = 0; j < N; j++) for (int i = 0; i < j; i++) { q.H(i, j) = 0; if (s.flag(0.8)) q.Hpat(i, j) = 0; } q.xs.resize(0); }   // one triangle only
        // keep patterns minimal for rows / columns that vanished (empty columns of sparse data), sometimes
        if (s.flag(0.5)) for (int j = 0; j < N; j++) { if (q.A.col(j).isZero(0)) q.Apat.col(j).setZero(); if (q.H.col(j).isZero(0)) { q.Hpat.col(j).setZero(); q.Hpat.row(j).setZero(); } }
        if (s.flag(0.5)) for (int i = 0; i < M; i++) if (q.A.row(i).isZero(0)) q.Apat.row(i).setZero();
        return q;
    }
    static double kkt(const Mat& H, const Mat& A, const Vec& h, const Vec& al, const Vec& au, const Vec& l, const Vec& u, const Vec& x, const Vec& y, std::string& why) {
        // largest scaled KKT violation
        double w = 0; Vec ax = A * x; Vec g = H * x + h + A.transpose() * y.head(M) + y.tail(N);
        auto up = [&](double v, const char* n) { if (v > w) { w = v; why = n; } };
        for (int i = 0; i < N; i++) { double sc = std::abs(h(i)) + std::abs(y(M + i)) + (H.row(i).cwiseAbs() * x.cwiseAbs())(0) + (A.col(i).cwiseAbs().transpose() * y.head(M).cwiseAbs())(0); if (sc > 0) up(std::abs(g(i)) / sc, "stationarity"); }
        for (int i = 0; i < M + N; i++) {
            double v = i < M ? ax(i) : x(i - M), lb = i < M ? al(i) : l(i - M), ub = i < M ? au(i) : u(i - M), sc = i < M ? (A.row(i).cwiseAbs() * x.cwiseAbs())(0) : std::abs(x(i - M));
            double bs = sc + std::abs(std::isfinite(lb) && y(i) < 0 ? lb : 0) + std::abs(std::isfinite(ub) && y(i) > 0 ? ub : 0); if (bs == 0) bs = 1;
            up((lb - v) / bs, "lower bound"); up((v - ub) / bs, "upper bound");
            if (y(i) > 0) up((ub - v) / bs, "upper complementarity"); if (y(i) < 0) up((v - lb) / bs, "lower complementarity");
        }
        return w;
    }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        QP q = gen(s); double rel = sizeof(Sc) == 4 ? 2e-5 : 1e-11; describe(c, q);
        Pre pre; 
        if (s.flag(0.3)) { QP o = gen(s); Data<Sc, N, M> d(o); HM H; AM A; make(o, H, A); pre.compute(H, d.h, A, d.al, d.au, d.l, d.u); }   // used object
        Data<Sc, N, M> d(q); HM H; AM A; make(q, H, A); const HM H0 = H; const AM A0 = A; const Data<Sc, N, M> d0(q);
        pre.compute(H, d.h, A, d.al, d.au, d.l, d.u);
        Vec D = pre.D.template cast<double>(), E = pre.E.template cast<double>(); double cc = pre.c();
        c.mat("D", D.transpose()).mat("E", E.transpose()).say("c", cc);
        CHECK(D.allFinite() && E.allFinite() && std::isfinite(cc) && D.minCoeff() > 0 && (M == 0 || E.minCoeff() > 0) && cc > 0, "scalings not finite and positive: c=" << cc << " D=" << D.transpose() << " E=" << E.transpose());
        Mat Hs = cc * D.asDiagonal() * full(H0) * D.asDiagonal(), As = E.asDiagonal() * full(A0) * D.asDiagonal();
        Vec hs = cc * D.cwiseProduct(d0.h.template cast<double>());
        auto bounds = [&](const char* w, const Data<Sc, N, M>& g) {
            expect(w, g.al, Vec(E.cwiseProduct(d0.al.template cast<double>())), rel); expect(w, g.au, Vec(E.cwiseProduct(d0.au.template cast<double>())), rel);
            expect(w, g.l, Vec(d0.l.template cast<double>().cwiseQuotient(D)), rel); expect(w, g.u, Vec(d0.u.template cast<double>().cwiseQuotient(D)), rel);
        };
        expect("scaled Hessian", full(H), Hs, rel); expect("scaled Jacobian", full(A), As, rel); expect("scaled gradient", d.h, hs, rel); bounds("scaled bounds", d);
        CHECK(same_pattern(H, H0) && same_pattern(A, A0), "sparsity pattern or storage mode changed by compute");
        // equilibrated: no constraint coefficient exceeds one, nor do the linear term and the mean column norm of the Hessian
        if (M > 0) CHECK(full(A).cwiseAbs().maxCoeff() <= 1 + 100 * rel, "a coefficient of the scaled constraints is " << full(A).cwiseAbs().maxCoeff());
        double hn = full(H).cwiseAbs().colwise().maxCoeff().mean(), gn = d.h.template cast<double>().cwiseAbs().maxCoeff();
        CHECK(hn <= 1 + 100 * rel && gn <= 1 + 100 * rel, "scaled cost: mean column norm of the Hessian " << hn << ", linear term " << gn);
        const HM H1 = H; const AM A1 = A; const Data<Sc, N, M> d1 = d;
        // the same scaling applied to the original data is the same problem
        { HM H2 = H0; AM A2 = A0; Data<Sc, N, M> d2 = d0; pre.scale(H2, d2.h, A2, d2.al, d2.au, d2.l, d2.u);
          expect("scale(Hessian)", full(H2), Hs, rel); expect("scale(Jacobian)", full(A2), As, rel); expect("scale(gradient)", d2.h, hs, rel); bounds("scale(bounds)", d2);
          CHECK(same_pattern(H2, H0) && same_pattern(A2, A0), "sparsity pattern or storage mode changed by scale"); }
        { HM H2 = H; pre.unscale_hessian(H2); expect("unscale_hessian", full(H2), full(H0), rel); CHECK(same_pattern(H2, H0), "sparsity pattern or storage mode changed by unscale_hessian"); }
        pre.unscale(H, d.h, A, d.al, d.au, d.l, d.u);
        expect("unscaled Hessian", full(H), full(H0), rel); expect("unscaled Jacobian", full(A), full(A0), rel); expect("unscaled gradient", d.h, d0.h, rel);
        expect("unscaled bounds", d.al, d0.al, rel); expect("unscaled bounds", d.au, d0.au, rel); expect("unscaled bounds", d.l, d0.l, rel); expect("unscaled bounds", d.u, d0.u, rel);
        CHECK(same_pattern(H, H0) && same_pattern(A, A0), "sparsity pattern or storage mode changed by unscale");
        // primal-dual pairs
        Eigen::Matrix<Sc, N, 1> x = rvec(s, N, 3).cast<Sc>(); Eigen::Matrix<Sc, N + M, 1> y = rvec(s, N + M, 3).cast<Sc>(); auto x0 = x; auto y0 = y;
        pre.scale(x, y);
        expect("scaled point", x, Vec(x0.template cast<double>().cwiseQuotient(D)), rel);
        expect("scaled multipliers of the general constraints", y.template head<M>(), Vec(cc * y0.template head<M>().template cast<double>().cwiseQuotient(E)), rel);
        expect("scaled multipliers of the simple bounds", y.template tail<N>(), Vec(cc * y0.template tail<N>().template cast<double>().cwiseProduct(D)), rel);
        pre.unscale(x, y); expect("restored point", x, x0, rel); expect("restored multipliers", y, y0, rel);
        if (q.xs.size()) {   // a KKT point maps to a KKT point, both ways
            x = q.xs.cast<Sc>(); y = q.ys.cast<Sc>(); pre.scale(x, y); std::string why;
            double w = kkt(full(H1), full(A1), d1.h.template cast<double>(), d1.al.template cast<double>(), d1.au.template cast<double>(), d1.l.template cast<double>(), d1.u.template cast<double>(), x.template cast<double>(), y.template cast<double>(), why);
            CHECK(w <= (sizeof(Sc) == 4 ? 1e-4 : 1e-9), "KKT point of the original problem is not a KKT point of the scaled one: " << why << " violated by " << w << " (relative)");
            c.label("KKT mapped");
        }
        c.label("h = 0", q.h.isZero(0)); c.label("H = 0", q.H.isZero(0));
        c.nt((D.array() != 1).any() || (E.array() != 1).any());
    }
    /** solve the scaled problem, map the solution back */
    static void solve(pbt::Src& s, pbt::Ctx& c) {
        using SV = typename std::conditional<Sp, boxADMM<N, M, Sc, SPARSE, linear_solver_traits<SPARSE>::default_solver>, boxADMM<N, M, Sc>>::type;
        QP q = gen_cond(s, N, M, STRICT);
        if (s.flag(0.5)) for (int i = 0; i < M; i++) { double e = s.logreal(0.1, 10); q.A.row(i) *= e; q.Alb(i) *= e; q.Aub(i) *= e; q.ys(i) /= e; }
        describe(c, q); Pre pre; Data<Sc, N, M> d(q); HM H; AM A; make(q, H, A); pre.compute(H, d.h, A, d.al, d.au, d.l, d.u);
        SV sv; Cfg k = gen_cfg(s); k.rho = 0.1; k.alpha = 1; k.sigma = 1e-6; k.adaptive = false; k.check = 10; k.eps_abs = 1e-7; k.eps_rel = 0; k.max_iter = 500000; apply(sv.settings(), k);
        int st = sv.solve(H, d.h, A, d.al, d.au, d.l, d.u);
        CHECK(st == SOLVED, "scaled problem not solved: status " << st);
        Eigen::Matrix<Sc, N, 1> x = sv.primal_solution(); Eigen::Matrix<Sc, N + M, 1> y = sv.dual_solution(); pre.unscale(x, y);
        Vec D = pre.D.template cast<double>(), E = pre.E.template cast<double>(); double cc = pre.c();
        double tp = 2e-7 * std::max(D.maxCoeff(), M ? 1 / E.minCoeff() : 0.), td = 2e-7 / cc / D.minCoeff() * std::sqrt(N);
        Vec X = x.template cast<double>(), Y = y.template cast<double>();
        double rd = (q.H * X + q.h + q.A.transpose() * Y.head(M) + Y.tail(N)).norm();
        CHECK(rd <= td + 1e-9, "gradient of the original Lagrangian at the mapped-back point is " << rd << " allowed " << td);
        double bound = rd / q.mu + std::sqrt((Y - q.ys).lpNorm<1>() * tp / q.mu) + 1e-8;
        CHECK((X - q.xs).norm() <= bound, "mapped-back solution is " << (X - q.xs).norm() << " away from the optimum, allowed " << bound);
        c.nt(q.active + q.equal > 0);
    }
};
}
#define ADD(NAME, Q, ...) static pbt::Reg rp_##NAME("equivalence_" #NAME, T<__VA_ARGS__>::prop, Q, Q * 20);
#define SOLVE(NAME, Q, ...) static pbt::Reg rs_##NAME("solve_" #NAME, T<__VA_ARGS__>::solve, Q, Q * 20);
