// Histories of setter and getter calls against a model that keeps every variable by (node in forward time, component).
#include "mpc_common.hpp"
namespace {
using namespace mp; using pbt::Src; using pbt::Ctx;
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT, class Sc> struct H23 {
    using C = Ctl<NX, NU, NP, ND, NG, P, S, FMT, Sc>; static constexpr int N = P * S + 1;
    /** one quantity per variable: states and controls by node in forward time, parameters */
    struct Vars { MD x, u; VD p; Vars() : x(NX, N), u(NU, N), p(NP) {} };
    static void read(const Vars& v, VD& flat) { flat.resize(NX * N + NU * N + NP); for (int k = 0; k < N; k++) { for (int i = 0; i < NX; i++) flat((N - 1 - k) * NX + i) = v.x(i, k); for (int i = 0; i < NU; i++) flat(N * NX + (N - 1 - k) * NU + i) = v.u(i, k); } for (int i = 0; i < NP; i++) flat(N * (NX + NU) + i) = v.p(i); }
    template <class V> static Vars from(const V& f) { Vars v; for (int k = 0; k < N; k++) { for (int i = 0; i < NX; i++) v.x(i, k) = f((N - 1 - k) * NX + i); for (int i = 0; i < NU; i++) v.u(i, k) = f(N * NX + (N - 1 - k) * NU + i); } for (int i = 0; i < NP; i++) v.p(i) = f(N * (NX + NU) + i); return v; }
    static bool eq(double a, double b) { return a == b || (a != a && b != b); }
    template <class V> static void cmp(const char* w, const V& got, const VD& e, const char* op) { CHECK(got.size() == e.size(), w << " has the wrong size"); for (int i = 0; i < e.size(); i++) CHECK(eq(double(got(i)), e(i)), "after " << op << ": " << w << "(" << i << ") is " << double(got(i)) << ", expected " << e(i)); }
    /** trajectories given to the controller are in the order in which it returns them */
    static VD flat(const MD& m) { VD f(m.size()); for (int k = 0; k < m.cols(); k++) for (int i = 0; i < m.rows(); i++) f((m.cols() - 1 - k) * m.rows() + i) = m(i, k); return f; }
    template <class V> static V rnd(Src& s, int n, bool inf = true) { VD d(n); d = vec(s, n, 20, inf); V v = d.cast<Sc>(); return v; }
    template <class V> static VD D(const V& v) { return v.template cast<double>(); }
    static void prop(Src& s, Ctx& c) {
        auto o = make<C>(); auto& m = *o; using state_t = typename C::state_t; using control_t = typename C::control_t; using tx = typename C::traj_state_t; using tu = typename C::traj_control_t; using par = typename C::parameter_t; using sp_t = typename C::static_param; using con = typename C::constraint_t; using cons = typename C::constraints_t;
        Vars lo = from(m.solver().lower_bound_x()), hi = from(m.solver().upper_bound_x()), z; VD gl = D(m.solver().lower_bound_g()), gu = D(m.solver().upper_bound_g()), d(ND), lam; double t0 = 0, tf = 1;
        { tx x = tx::Zero(); tu u = tu::Zero(); par p = par::Zero(); sp_t q = sp_t::Zero(); typename C::dual_var_t l; l.setZero(); m.x_guess(x); m.u_guess(u); if (NP) m.p_guess(p); m.lam_guess(l); m.set_static_parameters(q); z.x.setZero(); z.u.setZero(); z.p.setZero(); d.setZero(); lam = D(l); }
        int n = s.range(3, 14); std::set<int> kinds; double ep = double(m.settings().eps_prim); int mi = m.settings().max_iter; double rho = double(m.qp_settings().rho);
        for (int step = 0; step < n; step++) {
            int op = s.range(0, 27); const char* w = "nothing"; kinds.insert(op);
            switch (op) {
            case 0: { w = "initial_conditions(x0)"; state_t v = rnd<state_t>(s, NX); m.initial_conditions(v); lo.x.col(0) = hi.x.col(0) = D(v); break; }
            case 1: { w = "initial_conditions(lb,ub)"; state_t a = rnd<state_t>(s, NX), b = rnd<state_t>(s, NX); m.initial_conditions(a, b); lo.x.col(0) = D(a); hi.x.col(0) = D(b); break; }
            case 2: { w = "x_lower_bound"; state_t a = rnd<state_t>(s, NX); m.x_lower_bound(a); lo.x.rightCols(N - 1) = D(a).replicate(1, N - 1); break; }
            case 3: { w = "x_upper_bound"; state_t a = rnd<state_t>(s, NX); m.x_upper_bound(a); hi.x.rightCols(N - 1) = D(a).replicate(1, N - 1); break; }
            case 4: { w = "state_bounds"; state_t a = rnd<state_t>(s, NX), b = rnd<state_t>(s, NX); m.state_bounds(a, b); lo.x.rightCols(N - 1) = D(a).replicate(1, N - 1); hi.x.rightCols(N - 1) = D(b).replicate(1, N - 1); break; }
            case 5: { w = "state_trajectory_bounds"; tx a = rnd<tx>(s, NX * N), b = rnd<tx>(s, NX * N); m.state_trajectory_bounds(a, b); for (int k = 0; k < N; k++) { lo.x.col(k) = D(a).segment((N - 1 - k) * NX, NX); hi.x.col(k) = D(b).segment((N - 1 - k) * NX, NX); } break; }
            case 6: { w = "x_final_lower_bound"; state_t a = rnd<state_t>(s, NX); m.x_final_lower_bound(a); lo.x.col(N - 1) = D(a); break; }
            case 7: { w = "x_final_upper_bound"; state_t a = rnd<state_t>(s, NX); m.x_final_upper_bound(a); hi.x.col(N - 1) = D(a); break; }
            case 8: { w = "final_state_bounds"; state_t a = rnd<state_t>(s, NX), b = rnd<state_t>(s, NX); m.final_state_bounds(a, b); lo.x.col(N - 1) = D(a); hi.x.col(N - 1) = D(b); break; }
            case 9: { w = "u_lower_bound"; control_t a = rnd<control_t>(s, NU); m.u_lower_bound(a); lo.u = D(a).replicate(1, N); break; }
            case 10: { w = "u_upper_bound"; control_t a = rnd<control_t>(s, NU); m.u_upper_bound(a); hi.u = D(a).replicate(1, N); break; }
            case 11: { w = "control_bounds"; control_t a = rnd<control_t>(s, NU), b = rnd<control_t>(s, NU); m.control_bounds(a, b); lo.u = D(a).replicate(1, N); hi.u = D(b).replicate(1, N); break; }
            case 12: { w = "control trajectory bounds"; tu a = rnd<tu>(s, NU * N), b = rnd<tu>(s, NU * N); m.control_trajecotry_bounds(a, b); for (int k = 0; k < N; k++) { lo.u.col(k) = D(a).segment((N - 1 - k) * NU, NU); hi.u.col(k) = D(b).segment((N - 1 - k) * NU, NU); } break; }
            case 13: if (NG) { w = "constraints_trajectory_bounds"; cons a = rnd<cons>(s, NG * N), b = rnd<cons>(s, NG * N); m.constraints_trajectory_bounds(a, b); gl = D(a); gu = D(b); } break;
            case 14: if (NG) { w = "constraints_bounds"; con a = rnd<con>(s, NG), b = rnd<con>(s, NG); m.constraints_bounds(a, b); gl = D(a).replicate(N, 1); gu = D(b).replicate(N, 1); } break;
            case 15: if (NP) { w = "parameters_bounds"; par a = rnd<par>(s, NP), b = rnd<par>(s, NP); m.parameters_bounds(a, b); lo.p = D(a); hi.p = D(b); } break;
            case 16: if (ND) { w = "set_static_parameters"; sp_t a = rnd<sp_t>(s, ND); m.set_static_parameters(a); d = D(a); } break;
            case 17: { w = "x_guess"; tx a = rnd<tx>(s, NX * N); m.x_guess(a); for (int k = 0; k < N; k++) z.x.col(k) = D(a).segment((N - 1 - k) * NX, NX); break; }
            case 18: { w = "u_guess"; tu a = rnd<tu>(s, NU * N); m.u_guess(a); for (int k = 0; k < N; k++) z.u.col(k) = D(a).segment((N - 1 - k) * NU, NU); break; }
            case 19: if (NP) { w = "p_guess"; par a = rnd<par>(s, NP); m.p_guess(a); z.p = D(a); } break;
            case 20: { w = "lam_guess"; typename C::dual_var_t a = rnd<typename C::dual_var_t>(s, int(C::dual_size)); m.lam_guess(a); lam = D(a); break; }
            case 21: { w = "x_guess(solution_x), u_guess(solution_u)"; m.x_guess(m.solution_x()); m.u_guess(m.solution_u()); break; }   // warm start with the own solution
            case 22: case 23: { w = "set_time_limits"; oc::gen_horizon(s, t0, tf); if (tf < t0) std::swap(t0, tf); t0 = double(Sc(t0)); tf = double(Sc(tf)); m.set_time_limits(Sc(t0), Sc(tf)); break; }
            case 24: { w = "settings"; ep = double(Sc(s.real(0, 1))); mi = s.range(1, 50); m.settings().eps_prim = Sc(ep); m.settings().max_iter = mi; break; }
            case 25: { w = "qp_settings"; rho = double(Sc(s.real(0, 1))); m.qp_settings().rho = Sc(rho); break; }
            default: w = "reads only"; break;
            }
            c.say("op", w); const C& k = m; VD e;
            read(lo, e); cmp("lower bound", k.solver().lower_bound_x(), e, w); read(hi, e); cmp("upper bound", k.solver().upper_bound_x(), e, w); cmp("constraint lower bound", k.solver().lower_bound_g(), gl, w); cmp("constraint upper bound", k.solver().upper_bound_g(), gu, w);
            cmp("static parameters", k.solver().parameters(), d, w); read(z, e); cmp("primal variables", k.solver().primal_solution(), e, w); cmp("dual variables", k.solution_dual(), lam, w); cmp("dual variables of the solver", k.solver().dual_solution(), lam, w);
            cmp("solution_x", k.solution_x(), flat(z.x), w); cmp("solution_u", k.solution_u(), flat(z.u), w); if (NP) cmp("solution_p", k.solution_p(), z.p, w);
            auto xr = k.solution_x_reshaped(); auto ur = k.solution_u_reshaped(); CHECK(xr.rows() == NX && xr.cols() == N && ur.rows() == NU && ur.cols() == N, "shape of the reshaped trajectory");
            for (int j = 0; j < N; j++) { cmp("column of solution_x_reshaped", xr.col(j), z.x.col(j), w); cmp("column of solution_u_reshaped", ur.col(j), z.u.col(j), w); cmp("solution_x_at(node)", k.solution_x_at(j), z.x.col(j), w); cmp("solution_u_at(node)", k.solution_u_at(j), z.u.col(j), w); }
            CHECK(double(k.settings().eps_prim) == ep && k.settings().max_iter == mi && double(k.solver().settings().eps_prim) == ep && k.solver().settings().max_iter == mi, "settings do not reach the solver"); CHECK(double(k.qp_settings().rho) == rho && double(k.solver().m_qp_solver.settings().rho) == rho, "QP settings do not reach the QP solver");
            CHECK(&k.ocp() == &k.solver().get_problem() && double(k.ocp().t_start) == t0 && double(k.ocp().t_stop) == tf, "time limits of the problem are " << double(k.ocp().t_start) << ", " << double(k.ocp().t_stop));
            oc::Coll<P> co; const long double sg = (tf - (long double)t0) / S, eps = std::numeric_limits<Sc>::epsilon();
            for (int j = 0; j < N; j++) { int q = std::min(j / P, S - 1); long double t = t0 + sg * (q + 0.5L - 0.5L * co.c[j - q * P]); CHECK(std::abs(k.time_grid(j) - t) <= 16 * eps * (std::abs((long double)t0) + std::abs((long double)tf)), "time of node " << j << " is " << double(k.time_grid(j)) << ", expected " << double(t)); }
            CHECK(k.primal_norm() == k.solver().primal_norm() && k.dual_norm() == k.solver().dual_norm() && &k.info() == &k.solver().info(), "reports");
        }
        c.label("horizon changed", kinds.count(22) || kinds.count(23)); c.nt(kinds.size() >= 3);
    }
};
}
#define HIST(Q, NX, NU, NP, ND, NG, P, S, FMT, SC) static pbt::Reg PBT_CAT(r_, __LINE__)("x" #NX "_u" #NU "_p" #NP "_d" #ND "_g" #NG "_o" #P "_s" #S "_" #FMT "_" #SC, H23<NX, NU, NP, ND, NG, P, S, FMT, SC>::prop, Q, Q * 10);
