#include "sqp_common.hpp"
namespace c15 {
using namespace sq;
/** strongly convex program with linear constraints whose unique minimiser and multipliers are chosen in advance */
inline void plant(pbt::Src& s, Data& d, const VD& par, int n, int ne, int ni, bool active, VD& x, VD& lam, Bounds& b, int& nact) {
    x = gvec(s, n, 2); lam = VD::Zero(ne + ni + n); b.xl = VD::Constant(n, -INF); b.xu = VD::Constant(n, INF); b.gl = VD::Constant(ni, -INF); b.gu = VD::Constant(ni, INF);
    const VL xl = x.cast<L>(); auto mul = [&] { return s.real(0.2, 3); };
    std::vector<VD> act; nact = ne; MD J(ne + ni + n, n); for (int i = 0; i < ne + ni; i++) J.row(i) = (i < ne ? d.c[i] : d.g[i - ne]).grad(xl, par).cast<double>().transpose(); J.bottomRows(n).setIdentity();
    auto ok = [&](const VD& r) { MD A(act.size() + 1, n); for (size_t k = 0; k < act.size(); k++) A.row(k) = act[k].transpose(); A.row(act.size()) = r.transpose(); return int(A.rows()) <= n && A.bdcSvd().singularValues().minCoeff() > 0.25; };
    for (int i = 0; i < ne; i++) { if (!ok(J.row(i).transpose())) throw pbt::Discard(); act.push_back(J.row(i).transpose()); lam(i) = s.sym(3); d.c[i].r -= double(d.c[i].value(xl, par)); }
    for (int i = 0; i < ni + n; i++) {
        double v = i < ni ? double(d.g[i].value(xl, par)) : x(i - ni); double& lo = i < ni ? b.gl(i) : b.xl(i - ni); double& up = i < ni ? b.gu(i) : b.xu(i - ni); VD r = J.row(ne + i).transpose();
        int k = s.range(0, 7); if (!active) { if (s.flag()) { lo = -1e3; up = 1e3; } continue; } if (k >= 5 && !ok(r)) k -= 4;
        switch (k) { case 0: break; case 1: up = v + s.real(0.1, 3); break; case 2: lo = v - s.real(0.1, 3); break; case 3: case 4: lo = v - s.real(0.1, 3); up = v + s.real(0.1, 3); break;
            case 5: up = v; lam(ne + i) = mul(); if (s.flag()) lo = v - s.real(0.5, 4); break; case 6: lo = v; lam(ne + i) = -mul(); if (s.flag()) up = v + s.real(0.5, 4); break; case 7: lo = up = v; lam(ne + i) = s.sym(3); }
        if (k >= 5) { act.push_back(r); nact++; }
    }
    VL g = d.f.grad(xl, par) + J.transpose().cast<L>() * lam.cast<L>(); d.f.q -= g.cast<double>();
}
template <int N, int NE, int NI, int FMT, int HESS, class QP, class Pre> struct T {
    using P = Nlp<N, NE, NI, FMT>; using S = Sol<P, HESS, QP, Pre>;
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        auto o = std::allocate_shared<S>(Eigen::aligned_allocator<S>()); Data d = gen_data(s, N, NE, NI, true, 0.5);
        auto& st = o->settings(); st.eps_prim = st.eps_dual = s.pick({1e-4, 1e-3, 1e-5}); st.max_iter = 300; auto& q = o->qp_settings(); q.eps_abs = q.eps_rel = s.pick({1e-8, 1e-9}); q.max_iter = 20000; q.check_termination = s.pick({10, 1, 25}); if (s.flag(0.3)) q.alpha = s.real(1, 1.6); if (s.flag(0.7)) { q.adaptive_rho = false; q.rho = s.pick({0.1, 0.5, 1.0}); } else q.adaptive_rho_interval = s.pick({50, 100, 200});
        if (s.flag(0.3)) st.tau = s.real(0.3, 0.8); if (s.flag(0.3)) st.eta = s.real(0.01, 0.45);
        o->full_small = s.flag(0.6); o->small_tol = 2e-3; const int rounds = s.range(1, 3); bool act = false; c.say("eps", st.eps_prim).say("qp eps", q.eps_abs).say("alpha", q.alpha).say("tau", st.tau).say("eta", st.eta).say("full small steps", o->full_small);
        for (int k = 0; k < rounds; k++) {
            VD par = gvec(s, ND, 1), x, lam; Bounds b; int na; plant(s, d, par, N, NE, NI, HESS != 0, x, lam, b, na); act |= na > 0;
            o->get_problem().d = d; if (FMT == SPARSE) reset(o->get_problem()); o->parameters() = par; o->lower_bound_x() = b.xl; o->upper_bound_x() = b.xu; if (NI) { o->lower_bound_g() = b.gl; o->upper_bound_g() = b.gu; }
            VD x0 = gvec(s, N, 4), l0 = VD::Zero(NE + NI + N); if (HESS != 0 && s.flag(0.3)) l0 = gvec(s, NE + NI + N, 3); int how = s.range(0, k ? 2 : 1);
            if (c.want_text) { c.say("problem", k); say(c, d); c.mat("p", par.transpose()).mat("xl", b.xl.transpose()).mat("xu", b.xu.transpose()).mat("gl", b.gl.transpose()).mat("gu", b.gu.transpose()).mat("x*", x.transpose()).mat("lam*", lam.transpose()).say("start", how).mat("x0", x0.transpose()).mat("l0", l0.transpose()); }
            if (std::is_same<Pre, Ide>::value) o->m_qp_solver.on_fail = [&o, x](const MD& A, const VD& al, const VD& au, const VD& xl, const VD& xu) { const VD e = x - o->m_x, Ae = A * e; const double tol = 1e-6 * (1 + e.cwiseAbs().sum());   // linear constraints: every subproblem admits the step to the minimiser
                for (int i = 0; i < Ae.size(); i++) if (!(Ae(i) >= al(i) - tol && Ae(i) <= au(i) + tol)) return true; for (int i = 0; i < e.size(); i++) if (!(e(i) >= xl(i) - tol && e(i) <= xu(i) + tol)) return true; return false; };
            o->stalls = 0; if (how == 0) o->solve(x0, l0); else { if (how == 1) { o->primal_solution() = x0; o->dual_solution() = l0; } o->solve(); }   // how 2: warm start from the previous solution
            NO_NAN_BOUNDS(o->m_qp_solver); CHECK(!o->m_qp_solver.bad, "the quadratic subproblems of a strongly convex program grow without bound");
            CHECK(!o->m_qp_solver.excluded, "a quadratic subproblem excludes the step to the minimiser although the constraints are linear");
            if (getenv("SHOW")) fprintf(stderr, "R %d %d it %d la %g ex %g el %g\n", HESS, int(o->info().status.value), o->info().iter, o->last_alpha, (o->primal_solution() - x).cwiseAbs().maxCoeff(), (o->dual_solution() - lam).cwiseAbs().maxCoeff());
            for (int v : o->m_qp_solver.status) if (v != int(SOLVED)) { c.label("inner solver failed"); c.nt(false); return; }
            const double ex = (o->primal_solution() - x).cwiseAbs().maxCoeff(), el = (o->dual_solution() - lam).cwiseAbs().maxCoeff(); const bool solved = o->info().status.value == sqp_status_t::SOLVED, stalled = o->stalls > 0;
            // a last step that the line search shortened is compared with the tolerance after the shortening (finding collapsed_step of C14): the run may end a little earlier
            const double tx = o->last_alpha < 1 ? std::max(12 * st.eps_prim, std::min(1e-3, 6 * st.eps_prim / o->last_alpha)) : 12 * st.eps_prim;
            CHECK(ex <= tx, "round " << k << ": x differs from the minimiser by " << ex << ": " << o->primal_solution().transpose() << " after " << o->info().iter << " iterations");
            if (stalled && (!solved || el > 40 * st.eps_prim)) { c.label("line search stalled at the minimiser (finding)"); continue; }
            CHECK(solved, "not solved in " << o->info().iter << " iterations; x = " << o->primal_solution().transpose() << ", inner status " << o->m_qp_solver.status.back() << ", last step size " << o->last_alpha);
            CHECK(el <= 40 * st.eps_prim, "round " << k << ": multipliers differ by " << el << ": " << o->dual_solution().transpose());
        }
        c.label("several problems on one object", rounds > 1); c.nt(act || HESS == 0);
    }
    template <class Q> static auto reset(Q& p) -> decltype(p.tw.reset()) { p.tw.reset(); }  static void reset(...) {}
};
}
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define NLP(Q, N, NE, NI, FMT, HESS, QP, PRE) static pbt::Reg PBT_CAT(r_, __LINE__)("n" #N "_e" #NE "_i" #NI "_" #FMT "_h" #HESS "_" #QP "_" #PRE, c15::T<N, NE, NI, FMT, HESS, sq::QP<N, NE + NI, FMT>, PRE>::prop, Q * 8, Q * 300);
#define IDE sq::Ide
#define RUI(N, M, FMT) sq::Rui<N, M, FMT>
