#include "sqp_common.hpp"
namespace c16 {
using namespace sq;
template <int N, int NE, int NI, int FMT, int HESS, class QP, class Pre> struct T {
    using P = Nlp<N, NE, NI, FMT>; using S = Sol<P, HESS, QP, Pre>; using SP = std::shared_ptr<S>;
    static SP make() { return std::allocate_shared<S>(Eigen::aligned_allocator<S>()); }
    /** everything a user sets */
    struct Conf { Data d; VD par; Bounds b; double ep, ed, tau, eta, qe, rho, alpha; int mi, ls, qmi, ct; bool ar; VD x, l; };
    static void put(S& o, const Conf& k) {
        o.parameters() = k.par; o.lower_bound_x() = k.b.xl; o.upper_bound_x() = k.b.xu; if (NI) { o.lower_bound_g() = k.b.gl; o.upper_bound_g() = k.b.gu; }
        auto& s = o.settings(); s.eps_prim = k.ep; s.eps_dual = k.ed; s.tau = k.tau; s.eta = k.eta; s.max_iter = k.mi; s.line_search_max_iter = k.ls;
        auto& q = o.qp_settings(); q.eps_abs = q.eps_rel = k.qe; q.rho = k.rho; q.alpha = k.alpha; q.max_iter = k.qmi; q.check_termination = k.ct; q.adaptive_rho = k.ar;
    }
    static void bounds(pbt::Src& s, Conf& k, const VD& xf) {
        Bounds& b = k.b; VL xl = xf.cast<L>(); b.xl = VD::Constant(N, -INF); b.xu = VD::Constant(N, INF); b.gl = VD::Constant(NI, -INF); b.gu = VD::Constant(NI, INF);
        for (int i = 0; i < N; i++) { int t = s.range(0, 4); if (t == 1 || t == 3) b.xl(i) = xf(i) - s.real(0, 2); if (t == 2 || t == 3) b.xu(i) = xf(i) + s.real(0, 2); if (t == 4 && i == 0) b.xl(i) = b.xu(i) = xf(i); }
        for (int i = 0; i < NI; i++) { double g = double(k.d.g[i].value(xl, k.par)); int t = s.range(0, 3); if (t == 0 || t == 2) b.gu(i) = g + s.real(0, 1); if (t == 1 || t == 2) b.gl(i) = g - s.real(0, 1); if (t == 3) b.gl(i) = b.gu(i) = g; }
    }
    static void settings(pbt::Src& s, Conf& k) { k.ep = s.pick({1e-3, 1e-2, 1e-5}); k.ed = s.pick({1e-3, 1e-2, 1e-5}); k.tau = s.pick({0.5, 0.3, 0.8}); k.eta = s.pick({0.25, 0.1, 0.6}); k.mi = s.pick({10, 1, 2, 3, 5, 30}); k.ls = s.pick({100, 5, 10, 2}); k.qe = s.pick({1e-4, 1e-6, 1e-3}); k.rho = s.pick({0.1, 1.0}); k.alpha = s.pick({1.0, 1.5}); k.qmi = s.pick({100, 20, 500}); k.ct = s.pick({10, 1, 7}); k.ar = s.flag(0.7); }
    template <int T> static typename std::enable_if<T == DENSE, SP>::type copy(const S& o) { return std::allocate_shared<S>(Eigen::aligned_allocator<S>(), o); }
    template <int T> static typename std::enable_if<T != DENSE, SP>::type copy(const S&) { return SP(); }
    static bool same(const VD& a, const VD& b) { for (int i = 0; i < a.size(); i++) if (!(a(i) == b(i) || (a(i) != a(i) && b(i) != b(i)))) return false; return true; }
    static bool same(double a, double b) { return a == b || (a != a && b != b); }
    struct Seen { int n = 0; VD x; void* who = nullptr; };
    static Seen& seen() { static Seen v; return v; }
    static void watch(void* p) { Seen& v = seen(); v.n++; v.x = static_cast<S*>(p)->m_x; v.who = p; }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        SP o = make(); const bool exact = FMT == DENSE || s.flag(0.6); o->m_qp_solver.fresh_pattern = exact; Conf k; k.d = gen_data(s, N, NE, NI, s.flag(), 0.2); k.par = gvec(s, ND, 1); VD xf = gvec(s, N, 1.5); for (auto& f : k.d.c) f.r -= double(f.value(xf.cast<L>(), k.par)); bounds(s, k, xf); settings(s, k); k.x = VD::Zero(N); k.l = VD::Zero(NE + NI + N);
        o->get_problem().d = k.d; put(*o, k); say(c, k.d); const int ops = s.range(2, 7); int solves = 0, changes = 0; bool ex = false, cg = false;
        for (int i = 0; i < ops; i++) {
            int op = s.range(0, 5); bool run = op <= 2 || i == ops - 1;
            if (op == 3) { k.par = gvec(s, ND, 1); c.say("op", "parameters").mat("p", k.par.transpose()); changes++; }
            if (op == 4) { bounds(s, k, gvec(s, N, 1.5)); c.say("op", "bounds"); changes++; }
            if (op == 5) { settings(s, k); c.say("op", "settings"); changes++; }
            if (op >= 3) { put(*o, k); if (!run) continue; }
            const bool start = s.flag(0.6); if (start) { k.x = gvec(s, N, 2); k.l = s.flag() ? gvec(s, NE + NI + N, 1) : VD::Zero(NE + NI + N); } else { k.x = o->primal_solution(); k.l = o->dual_solution(); }
            c.say("op", start ? "solve from" : "continue from").mat("p", k.par.transpose()).mat("xl", k.b.xl.transpose()).mat("xu", k.b.xu.transpose()).mat("gl", k.b.gl.transpose()).mat("gu", k.b.gu.transpose()).mat("x0", k.x.transpose()).mat("l0", k.l.transpose()).say("max_iter", k.mi).say("ls", k.ls).say("eps", k.ep).say("qp eps", k.qe).say("qp max", k.qmi).say("rho", k.rho).say("alpha", k.alpha);
            SP g; if (FMT == DENSE && s.flag(0.2)) g = copy<FMT>(*o);
            const bool cb = s.flag(0.3); o->settings().iteration_callback = cb ? &T::watch : nullptr; seen() = Seen();
            o->m_qp_solver.clear(); o->alphas.clear(); if (start) { if (s.flag()) { o->primal_solution() = k.x; o->dual_solution() = k.l; o->solve(); } else o->solve(k.x, k.l); } else o->solve();
            solves++; const auto& in = o->info(); int sum = 0; for (int v : o->m_qp_solver.iters) sum += v;
            CHECK(in.iter >= 1 && in.iter <= k.mi, in.iter << " iterations, limit " << k.mi); CHECK(in.status.value == sqp_status_t::SOLVED || in.status.value == sqp_status_t::MAX_ITER_EXCEEDED, "status " << int(in.status.value)); if (in.status.value != sqp_status_t::SOLVED) { CHECK(in.iter == k.mi, "gave up after " << in.iter << " of " << k.mi << " iterations"); ex = true; }
            CHECK(int(o->m_qp_solver.iters.size()) == in.iter, o->m_qp_solver.iters.size() << " inner solves in " << in.iter << " iterations"); CHECK(in.qp_solver_iter == sum, "qp_solver_iter is " << in.qp_solver_iter << ", the inner solver made " << sum << " iterations");
            if (!exact) for (size_t j = 1; j < o->m_qp_solver.flags.size(); j++) CHECK(o->m_qp_solver.flags[j][1], "pattern not reused from the second inner solve on");
            // the observer (not called for the first iteration) sees every further iterate of this object, the last one is returned
            if (cb) { CHECK(seen().n == in.iter - 1 || seen().n == in.iter, "the callback was called " << seen().n << " times in " << in.iter << " iterations"); if (seen().n) { CHECK(seen().who == static_cast<void*>(o.get()), "the callback was given another object"); CHECK(same(seen().x, VD(o->primal_solution())), "the last iterate shown to the callback is not the returned one"); c.label("observed"); } }
            else CHECK(seen().n == 0, "a removed callback was called");
            // an object that never solved anything
            SP f = make(); f->m_qp_solver.fresh_pattern = exact; f->get_problem().d = k.d; put(*f, k); f->solve(k.x, k.l);
            NO_NAN_BOUNDS(o->m_qp_solver); NO_NAN_BOUNDS(f->m_qp_solver); if (o->m_qp_solver.bad || f->m_qp_solver.bad) { c.label("diverged"); break; }
            if (!exact) { bool all = true; for (int v : o->m_qp_solver.status) all &= v == int(SOLVED); if (!all) c.label("pattern reuse, inner solver failed"); else if (f->alphas == o->alphas && f->m_qp_solver.iters == o->m_qp_solver.iters) { const double df = (f->primal_solution() - o->primal_solution()).cwiseAbs().maxCoeff(), dl = (f->dual_solution() - o->dual_solution()).cwiseAbs().maxCoeff(), sc = 1 + o->primal_solution().cwiseAbs().maxCoeff() + o->dual_solution().cwiseAbs().maxCoeff();
                CHECK(df + dl <= 1e-6 * sc, "solve " << solves << " with pattern reuse: a new object differs by " << df << " and " << dl); c.label("pattern reuse, same branch"); } else c.label("pattern reuse, rounding changed the branch"); continue; }
            CHECK(same(f->primal_solution(), o->primal_solution()) && same(f->dual_solution(), o->dual_solution()), "solve " << solves << ": a new object gives x = " << f->primal_solution().transpose() << ", the used one " << o->primal_solution().transpose() << "; multipliers " << f->dual_solution().transpose() << " and " << o->dual_solution().transpose());
            if (g) { c.label("copied object"); g->solve(k.x, k.l); CHECK(same(f->primal_solution(), g->primal_solution()) && same(f->dual_solution(), g->dual_solution()) && g->info().iter == in.iter, "solve " << solves << " on a copy of the object: x = " << g->primal_solution().transpose() << " instead of " << f->primal_solution().transpose()); }
            CHECK(f->info().iter == in.iter && f->info().status.value == in.status.value && f->info().qp_solver_iter == in.qp_solver_iter, "solve " << solves << ": different reports: " << f->info().iter << "/" << f->info().qp_solver_iter << " and " << in.iter << "/" << in.qp_solver_iter);
            CHECK(same(f->cost(), o->cost()) && same(f->constr_violation(), o->constr_violation()) && same(f->primal_norm(), o->primal_norm()) && same(f->dual_norm(), o->dual_norm()), "solve " << solves << ": new and used object differ: cost " << f->cost() << ", " << o->cost() << "; violation " << f->constr_violation() << ", " << o->constr_violation() << "; norms " << f->primal_norm() << ", " << o->primal_norm() << "; " << f->dual_norm() << ", " << o->dual_norm());
            CHECK(same(VD(o->parameters()), k.par) && same(VD(o->lower_bound_x()), k.b.xl) && same(VD(o->upper_bound_x()), k.b.xu), "solve changed parameters or bounds"); cg |= solves > 1 && changes > 0;
        }
        c.label("limit exhausted", ex); c.label("changed between solves", cg); c.nt(solves > 1);
    }
};
}
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define NLP(Q, N, NE, NI, FMT, HESS, QP, PRE) static pbt::Reg PBT_CAT(r_, __LINE__)("n" #N "_e" #NE "_i" #NI "_" #FMT "_h" #HESS "_" #QP "_" #PRE, c16::T<N, NE, NI, FMT, HESS, sq::QP<N, NE + NI, FMT>, PRE>::prop, Q * 12, Q * 300);
#define IDE sq::Ide
#define RUI(N, M, FMT) sq::Rui<N, M, FMT>
