#include "sqp_common.hpp"
namespace c14 {
using namespace sq;
template <int N, int NE, int NI, int FMT, int HESS, class QP, class Pre> struct T {
    using P = Nlp<N, NE, NI, FMT>; using S = Sol<P, HESS, QP, Pre>;
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        auto o = std::allocate_shared<S>(Eigen::aligned_allocator<S>()); bool convex = s.flag(0.3); Data d = gen_data(s, N, NE, NI, convex, 0.05); VD par = gvec(s, ND, 1), xf = gvec(s, N, 1.5);
        // bounds around a feasible point
        Bounds b; b.xl = VD::Constant(N, -INF); b.xu = VD::Constant(N, INF); b.gl = VD::Constant(NI, -INF); b.gu = VD::Constant(NI, INF); VL xfl = xf.cast<L>();
        for (auto& f : d.c) f.r -= double(f.value(xfl, par));
        for (int i = 0; i < N; i++) { int k = s.range(0, 5); if (k == 1 || k == 3) b.xl(i) = xf(i) - (s.flag(0.3) ? 0 : s.real(0, 2)); if (k == 2 || k == 3) b.xu(i) = xf(i) + (s.flag(0.3) ? 0 : s.real(0, 2)); if (k == 4 && NE + i < N - 1) b.xl(i) = b.xu(i) = xf(i); }
        for (int i = 0; i < NI; i++) { double g = double(d.g[i].value(xfl, par)); int k = s.range(0, 4); if (k == 0 || k == 2) b.gu(i) = g + (s.flag(0.3) ? 0 : s.real(0, 1)); if (k == 1 || k == 2) b.gl(i) = g - (s.flag(0.3) ? 0 : s.real(0, 1)); if (k == 3) b.gl(i) = b.gu(i) = g; }
        o->get_problem().d = d; o->parameters() = par; o->lower_bound_x() = b.xl; o->upper_bound_x() = b.xu; if (NI) { o->lower_bound_g() = b.gl; o->upper_bound_g() = b.gu; }
        auto& st = o->settings(); st.eps_prim = s.pick({1e-3, 1e-2, 1e-4, 1e-6}); st.eps_dual = s.pick({1e-3, 1e-2, 1e-4, 1e-6}); st.max_iter = s.pick({100, 30, 5, 1, 200}); st.line_search_max_iter = s.pick({100, 5, 20, 2, 1, 50}); if (s.flag(0.3)) st.tau = s.real(0.1, 0.9); if (s.flag(0.3)) st.eta = s.real(0.01, 0.9);
        auto& q = o->qp_settings(); double qe = s.pick({1e-4, 1e-6, 1e-8}); q.eps_abs = q.eps_rel = qe; q.max_iter = s.pick({100, 1000, 5000}); if (s.flag(0.3)) q.alpha = s.real(0.8, 1.7); if (s.flag(0.3)) q.check_termination = s.pick({1, 5, 25}); if (s.flag(0.2)) q.adaptive_rho = false;
        VD x0 = s.flag(0.15) ? xf : gvec(s, N, 2); VD l0 = VD::Zero(NE + NI + N); if (s.flag(0.3)) l0 = gvec(s, NE + NI + N, 1);
        say(c, d); c.mat("p", par.transpose()).mat("xl", b.xl.transpose()).mat("xu", b.xu.transpose()).mat("gl", b.gl.transpose()).mat("gu", b.gu.transpose()).mat("x0", x0.transpose()).mat("l0", l0.transpose()).say("eps_prim", st.eps_prim).say("eps_dual", st.eps_dual).say("max_iter", st.max_iter).say("ls", st.line_search_max_iter).say("tau", st.tau).say("eta", st.eta).say("qp eps", qe).say("qp max_iter", q.max_iter).say("qp alpha", q.alpha);
        if (s.flag(0.5)) { o->primal_solution() = x0; o->dual_solution() = l0; o->solve(); } else o->solve(x0, l0);
        NO_NAN_BOUNDS(o->m_qp_solver); if (o->m_qp_solver.bad) throw pbt::Discard();
        const VD x = o->primal_solution(), lam = o->dual_solution(); VL xl = x.cast<L>(); const double eps = 2.3e-16;
        if (!x.allFinite()) { CHECK(o->info().status.value != sqp_status_t::SOLVED, "success reported for a non-finite point"); c.label("diverged"); return; }
        if (o->info().status.value != sqp_status_t::SOLVED && x.cwiseAbs().maxCoeff() > 1e3) { c.label("diverged"); return; }
        // violation of the returned point
        L viol = 0, vt = 0, mg; for (auto& f : d.c) { L v = f.value(xl, par, &mg); viol = std::max(viol, std::abs(v)); vt = std::max(vt, mg); }
        for (int i = 0; i < NI; i++) { L v = d.g[i].value(xl, par, &mg); viol = std::max(viol, std::max(L(b.gl(i)) - v, v - L(b.gu(i)))); vt = std::max(vt, mg); for (double u : {b.gl(i), b.gu(i)}) if (std::isfinite(u)) vt = std::max(vt, L(std::abs(u))); }
        for (int i = 0; i < N; i++) { viol = std::max(viol, std::max(b.xl(i) - xl(i), xl(i) - b.xu(i))); vt = std::max(vt, std::abs(xl(i))); } vt *= 300 * eps;
        CHECK(std::abs(o->constr_violation() - viol) <= vt, "constr_violation() is " << o->constr_violation() << ", the violation of the returned point is " << double(viol));
        L fm, fv = d.f.value(xl, par, &fm); CHECK(std::abs(o->cost() - fv) <= 300 * eps * fm, "cost() is " << o->cost() << ", the cost of the returned point is " << double(fv));
        if (o->info().status.value != sqp_status_t::SOLVED) { c.label("not solved"); return; }
        c.label("solved"); CHECK(viol <= st.eps_prim + vt, "solved, but the violation is " << double(viol) << " > " << st.eps_prim);
        CHECK(o->primal_norm() <= st.eps_prim && o->dual_norm() <= st.eps_dual, "solved with norms " << o->primal_norm() << ", " << o->dual_norm());
        bool qp_ok = o->m_qp_solver.status.back() == int(SOLVED); c.label("inner solver stopped early", !qp_ok); c.label("shortened last step", o->last_alpha < 1); if (!qp_ok) return;
        VL g = d.f.grad(xl, par); ML A(NE + NI, N); for (int i = 0; i < NE + NI; i++) { VL r = (i < NE ? d.c[i] : d.g[i - NE]).grad(xl, par); A.row(i) = r.transpose(); g += L(lam(i)) * r; } g += lam.tail(N).cast<L>();
        ML H = MD(o->m_H).cast<L>(), Hx = d.f.hess(xl); for (int i = 0; i < NE + NI; i++) Hx += L(lam(i)) * (i < NE ? d.c[i] : d.g[i - NE]).hess(xl);
        L hn = H.cwiseAbs().maxCoeff() + Hx.cwiseAbs().maxCoeff(), an = 1 + (NE + NI ? A.cwiseAbs().maxCoeff() : 0), gm = d.f.grad(xl, par).cwiseAbs().maxCoeff(), ln = lam.cwiseAbs().maxCoeff();
        const double al = o->last_alpha; L tol = 2 * N * (1 + hn) * st.eps_prim / al + (NE + NI + 1) * an * st.eps_dual / al + 20 * qe * (1 + gm + hn + an * ln); L res = g.cwiseAbs().maxCoeff();
        if (getenv("SHOW")) fprintf(stderr, "R %g %g %g\n", double(res / tol), o->last_alpha, st.eps_prim);
        CHECK(res <= tol, "solved, but the gradient of the Lagrangian is " << double(res) << " > " << double(tol) << " (last step size " << o->last_alpha << ")");
        // signs
        for (int i = 0; i < NI + N; i++) { bool ga = i < NI; L v = ga ? d.g[i].value(xl, par) : xl(i - NI); double lo = ga ? b.gl(i) : b.xl(i - NI), up = ga ? b.gu(i) : b.xu(i - NI); double y = lam(NE + i); double mt = 4 * st.eps_dual / al + 40 * qe * (1 + double(ln + gm)), dt = 20 * (1 + double(an)) * (st.eps_prim / al + qe * (1 + std::abs(double(v)))) ;
            if (up - v > dt) CHECK(y <= mt, "multiplier " << NE + i << " is " << y << " while the upper bound is inactive: " << double(v) << " < " << up);
            if (v - lo > dt) CHECK(y >= -mt, "multiplier " << NE + i << " is " << y << " while the lower bound is inactive: " << double(v) << " > " << lo); }
        c.nt(N > 1 && (o->info().iter > 1));
    }
};
}
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define NLP(Q, N, NE, NI, FMT, HESS, QP, PRE) static pbt::Reg PBT_CAT(r_, __LINE__)("n" #N "_e" #NE "_i" #NI "_" #FMT "_h" #HESS "_" #QP "_" #PRE, c14::T<N, NE, NI, FMT, HESS, sq::QP<N, NE + NI, FMT>, PRE>::prop, Q * 4, Q * 100);
#define IDE sq::Ide
#define RUI(N, M, FMT) sq::Rui<N, M, FMT>
