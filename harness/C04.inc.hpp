#pragma once
#include "qp_common.hpp"
namespace {
using namespace qp;
static bool same_bits(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0 || a == b); }
template <class Solver, class Sc, int N, int M, bool Sp> struct T {
    using C = Call<Solver, Sc, N, M, Sp>;
    static Res run(Solver& v, const QP& q, const Cfg& k, const Vec* xg, const Vec* yg) { apply(v.settings(), k); return C::run(v, q, xg, yg); }
    static void identical(const char* what, const Res& a, const Res& b, bool res) {
        CHECK(a.status == b.status && a.iter == b.iter, what << ": status/iterations " << a.status << "/" << a.iter << " vs " << b.status << "/" << b.iter);
        CHECK(same_bits(a.x, b.x) && same_bits(a.y, b.y), what << ": solutions differ by " << linf(a.x - b.x) << " / " << linf(a.y - b.y));
        if (res) CHECK(a.rp == b.rp && a.rd == b.rd, what << ": residuals " << a.rp << " " << a.rd << " vs " << b.rp << " " << b.rd);
    }
    static Cfg cfg(pbt::Src& s) {
        Cfg k = gen_cfg(s); k.max_iter = s.pick({30, 100, 400, 7, 1}); k.check = s.flag(0.2) ? 0 : s.flag(0.5) ? s.range(1, 12) : 25; k.arint = s.range(1, 60);
        k.eps_abs = s.logreal(1e-5, 3e-2); k.eps_rel = s.flag(0.3) ? 0 : s.logreal(1e-5, 3e-2);
        k.warm = s.flag(0.4);
        if (sizeof(Sc) == 4) { k.adaptive = false; k.sigma = std::max(k.sigma, 1e-4); }   // single precision: keep the KKT matrix well conditioned
        return k;
    }
    static QP gen(pbt::Src& s) {
        if (sizeof(Sc) == 4) return gen_cond(s, N, M, STRICT, false);
        QP q = M > 0 ? gen_any(s, N, M, s.pick({STRICT, SEMI, LP, STRICT})) : gen_any(s, N, 0, STRICT);
        return q;
    }
    static bool checked(const Cfg& k, const Res& r) { int it = std::min(r.iter, k.max_iter); return (k.check && it >= k.check) || (k.adaptive && it >= k.arint); }
    static bool checked_at_end(const Cfg& k, const Res& r) { int it = std::min(r.iter, k.max_iter); return (k.check && it % k.check == 0) || (k.adaptive && it % k.arint == 0); }
    /** status, iterations and residuals describe the returned point */
    static void consistent(const QP& q, const Cfg& k, const Res& r) {
        CHECK(r.status == SOLVED || r.status == MAX_ITER_EXCEEDED, "status " << r.status);
        if (r.status == SOLVED) CHECK(k.check > 0 && r.iter % k.check == 0 && r.iter >= 1 && r.iter <= k.max_iter, "SOLVED after " << r.iter << " iterations with check interval " << k.check << " and limit " << k.max_iter);
        else CHECK(r.iter >= k.max_iter && r.iter <= k.max_iter + 1, "limit " << k.max_iter << " reported exceeded after " << r.iter);
        if (!checked_at_end(k, r) || sizeof(Sc) == 4 || !r.x.allFinite()) return;
        Vec ax = q.A * r.x, hx = q.H * r.x, ay = q.A.transpose() * r.y.head(M); double viol = 0;
        for (int i = 0; i < M; i++) viol = std::max(viol, std::max(q.Alb(i) - ax(i), ax(i) - q.Aub(i)));
        for (int i = 0; i < N; i++) viol = std::max(viol, std::max(q.xlb(i) - r.x(i), r.x(i) - q.xub(i)));
        double sp = std::max(linf(ax), linf(r.x)), sd = std::max(std::max(linf(hx), linf(ay)), std::max(linf(q.h), linf(r.y.tail(N))));
        double rd = linf(hx + q.h + ay + r.y.tail(N)), fp = 1e-11;
        CHECK(std::abs(rd - r.rd) <= fp * (1 + sd + linf(r.y) + linf(r.x)), "reported dual residual " << r.rd << " is not that of the returned point " << rd);
        CHECK(viol <= r.rp + fp * (1 + sp), "constraint violation " << viol << " of the returned point above the reported primal residual " << r.rp);
        bool last_check = k.check && std::min(r.iter, k.max_iter) % k.check == 0;
        if (r.status == SOLVED) CHECK(r.rp <= (k.eps_abs + k.eps_rel * sp) / (1 - k.eps_rel) * (1 + 1e-9) + fp * (1 + sp) && r.rd <= k.eps_abs + k.eps_rel * sd + fp * (1 + sd + linf(r.y)), "SOLVED with residuals " << r.rp << " " << r.rd);
        else if (last_check) CHECK(r.rp > (k.eps_abs + k.eps_rel * sp) - fp * (1 + sp) || r.rd > k.eps_abs + k.eps_rel * sd - fp * (1 + sd + linf(r.y)), "termination conditions met at the last check (residuals " << r.rp << " " << r.rd << ") but not reported");
    }
    static void history(pbt::Src& s, pbt::Ctx& c) {
        Solver used; int n = s.range(2, 5); bool act = false;
        for (int i = 0; i < n; i++) {
            QP q = gen(s); Cfg k = cfg(s); if (s.flag(0.05)) k.arint = 0;
            bool guess = s.flag(0.4); Vec xg, yg; if (guess) { xg = rvec(s, N, 5); yg = rvec(s, N + M, 5); }
            if (k.arint == 0 && k.check == 0) k.check = 3;
            describe(c, q); describe(c, k);
            Res a = run(used, q, k, guess ? &xg : nullptr, guess ? &yg : nullptr);
            Solver fresh; Res b = run(fresh, q, k, guess ? &xg : nullptr, guess ? &yg : nullptr);
            Cfg kk = k; if (kk.arint == 0) kk.arint = kk.check;
            identical("used object / new object", a, b, checked(kk, b));
            consistent(q, kk, a);
            act |= q.active + q.equal > 0 && i > 0;
            c.label("solved", a.status == SOLVED); c.label("exceeded", a.status != SOLVED);
        }
        c.nt(act);
    }
    /** solves with a declared, unchanged sparsity pattern: equal to those of a new object up to the rounding of the assembly */
    static void reuse_history(pbt::Src& s, pbt::Ctx& c) {
        QP q = gen(s); Solver used; int n = s.range(2, 5); bool act = false;
        for (int i = 0; i < n; i++) {
            QP r = i ? vary(s, q, s.range(0, 2)) : q; Cfg k = gen_cfg(s); k.check = 0; k.max_iter = s.range(1, 30); k.sigma = s.logreal(1e-3, 1e-1); k.adaptive = false;
            bool guess = s.flag(0.5), reuse = i > 0 && s.flag(0.8); Vec xg, yg; if (guess) { xg = rvec(s, N, 5.0); yg = rvec(s, N + M, 5.0); }
            if (c.want_text) { describe(c, r); describe(c, k); c.say("reuse", reuse); }
            used.settings().reuse_pattern = reuse; Out a, b; a.r = run(used, r, k, guess ? &xg : nullptr, guess ? &yg : nullptr); a.est = b.est = k.rho;
            Solver fresh; b.r = run(fresh, r, k, guess ? &xg : nullptr, guess ? &yg : nullptr);
            same("used object with a reused pattern / new object", a, b, k, false, guess ? 50 : linf(r.h));
            act |= reuse; c.label("pattern reused", reuse);
        }
        c.nt(act);
    }
    static void relations(pbt::Src& s, pbt::Ctx& c) {
        QP q = gen(s); Cfg k = cfg(s); if (k.check == 0) k.check = 5; k.max_iter = 400;
        bool guess = s.flag(0.4); Vec xg = Vec::Zero(N), yg = Vec::Zero(N + M); if (guess) { xg = rvec(s, N, 5); yg = rvec(s, N + M, 5); }
        describe(c, q); describe(c, k);
        Solver v; Res r = run(v, q, k, &xg, &yg); consistent(q, k, r);
        if (!guess) { Res z = run(v, q, k, nullptr, nullptr); identical("no guess / zero guess", z, r, true); }
        Cfg n = k; n.check = 0; n.max_iter = std::min(r.iter, k.max_iter);
        Res p = run(v, q, n, &xg, &yg);
        CHECK(p.status == MAX_ITER_EXCEEDED, "termination check disabled but status " << p.status);
        CHECK(same_bits(p.x, r.x) && same_bits(p.y, r.y), "checking the termination changes the iterates by " << linf(p.x - r.x));
        if (r.status == SOLVED) {
            n = k; n.max_iter = r.iter; p = run(v, q, n, &xg, &yg); identical("limit = needed iterations", p, r, true);
            n.max_iter = r.iter + s.range(0, 50); p = run(v, q, n, &xg, &yg); identical("larger limit", p, r, true);
            if (r.iter > 1) { n.max_iter = s.range(1, r.iter - 1); p = run(v, q, n, &xg, &yg); CHECK(p.status == MAX_ITER_EXCEEDED, "solved before iteration " << r.iter << " when limited to " << n.max_iter); }
            // the first multiple of the interval that satisfies the criteria is the one reported
            for (int t = k.check, i = 0; t <= r.iter && i < 6; t += k.check * std::max(1, r.iter / k.check / 5), i++) {
                n = k; n.check = t; n.max_iter = t; p = run(v, q, n, &xg, &yg);
                CHECK((p.status == SOLVED) == (t == r.iter), "tested at iteration " << t << " only: status " << p.status << ", but with interval " << k.check << " it stops at " << r.iter);
            }
            c.nt(q.active + q.equal > 0);
        }
        c.label("solved", r.status == SOLVED);
    }
};
}
#define ADD_REUSE(NAME, Q, ...) static pbt::Reg ru_##NAME("reuse_" #NAME, T<__VA_ARGS__>::reuse_history, Q, Q * 20);
#define ADD(NAME, Q, ...) static pbt::Reg rh_##NAME("history_" #NAME, T<__VA_ARGS__>::history, Q, Q * 20); static pbt::Reg rr_##NAME("relations_" #NAME, T<__VA_ARGS__>::relations, Q, Q * 20);
template <int N, int M, class Sc = double> using DA = ADMM<N, M, Sc>;
template <int N, int M, class Sc = double> using DB = boxADMM<N, M, Sc>;
template <int N, int M, class Sc = double> using SA = ADMM<N, M, Sc, SPARSE, linear_solver_traits<SPARSE>::default_solver>;
template <int N, int M, class Sc = double> using SB = boxADMM<N, M, Sc, SPARSE, linear_solver_traits<SPARSE>::default_solver>;
