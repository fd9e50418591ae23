// The OSQP adapter, on a stand-in osqp-eigen (stubs/OsqpEigen): what OSQP is given and what is returned.
#include "pbt.hpp"
#include "solvers/osqp_interface.hpp"
namespace {
template <int N, int M> struct H30 {
    using Q = polympc::OSQP<N, M, double, SPARSE>; using SM = Eigen::SparseMatrix<double>; using V = Eigen::Matrix<double, N, 1>; using W = Eigen::Matrix<double, M, 1>; using Y = Eigen::Matrix<double, N + M, 1>;
    using Mask = std::vector<std::vector<char>>;
    /** uncompressed storage with a little room, as the library builds its own matrices */
    static SM store(const Eigen::MatrixXd& d, const Mask& k, int room) {
        SM r(d.rows(), d.cols()); Eigen::VectorXi nz = Eigen::VectorXi::Zero(int(d.cols())); for (int j = 0; j < d.cols(); j++) for (int i = 0; i < d.rows(); i++) nz(j) += k[i][j];
        const Eigen::VectorXi used = nz; nz.array() += room; r.reserve(nz); for (int j = 0; j < d.cols(); j++) for (int i = 0; i < d.rows(); i++) if (k[i][j]) r.insert(i, j) = d(i, j);
        if (room) for (int j = 0; j < d.cols(); j++) for (int q = r.outerIndexPtr()[j] + used(j); q < r.outerIndexPtr()[j + 1]; q++) r.valuePtr()[q] = 1e33; // room for later insertions holds no entries
        return r;
    }
    static Mask mask(pbt::Src& s, int r, int c, bool sym) { Mask k(r, std::vector<char>(c)); double p = s.pick({0.3, 0.6, 1.0}); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) k[i][j] = s.flag(p); if (sym) for (int i = 0; i < r; i++) { k[i][i] = 1; for (int j = 0; j < i; j++) k[i][j] = k[j][i]; } return k; }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        Q qp; const double INF = 1e30; int n = s.range(1, 5), warms = 0, colds = 0; bool moved = false; Mask mh, ma; std::vector<double> last;
        for (int k = 0; k < n; k++) {
            bool fresh = k == 0 || s.flag(0.4);                              // a new pattern: the pattern may only be reused afterwards
            if (fresh) { mh = mask(s, N, N, true); ma = mask(s, M, N, false); }
            Eigen::MatrixXd H = Eigen::MatrixXd::Zero(N, N), A = Eigen::MatrixXd::Zero(M, N); V h, xl, xu, xg; W al, au; Y yg;
            for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) if (mh[i][j]) H(i, j) = H(j, i) = s.flag(0.1) ? 0 : s.sym(5); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) if (ma[i][j]) A(i, j) = s.flag(0.1) ? 0 : s.sym(5);
            for (int i = 0; i < N; i++) { h(i) = s.sym(5); xl(i) = s.flag(0.2) ? -INF : s.sym(3); xu(i) = s.flag(0.2) ? INF : s.flag(0.2) && xl(i) > -INF ? xl(i) : xl(i) > -INF ? xl(i) + s.real(0, 3) : s.sym(3); xg(i) = s.sym(3); }
            for (int i = 0; i < M; i++) { al(i) = s.flag(0.2) ? -INF : s.sym(3); au(i) = s.flag(0.2) ? INF : s.flag(0.2) && al(i) > -INF ? al(i) : al(i) > -INF ? al(i) + s.real(0, 3) : s.sym(3); } for (int i = 0; i < N + M; i++) yg(i) = s.sym(3);
            auto& t = qp.settings(); if (s.flag(0.5)) { t.rho = s.real(0.01, 2); t.sigma = s.real(1e-7, 1e-3); t.alpha = s.real(0.1, 1.9); t.verbose = s.flag(); t.adaptive_rho = s.flag(); t.max_iter = s.range(1, 5000); t.check_termination = s.range(0, 50); t.eps_abs = s.real(1e-8, 1e-2); t.eps_rel = s.real(1e-8, 1e-2);
                t.adaptive_rho_interval = s.range(1, 60); t.adaptive_rho_tolerance = s.real(1.1, 9); t.delta = s.real(1e-8, 1e-4); t.polish = s.flag(); t.scaling = s.range(0, 20); t.time_limit = s.real(0, 5); t.polish_refine_iter = s.range(0, 9); t.scaled_termination = s.flag(); t.adaptive_rho_fraction = s.real(0.1, 0.9); t.eps_prim_inf = s.real(1e-7, 1e-3); t.eps_dual_inf = s.real(1e-7, 1e-3); t.osqp_linear_solver = s.range(0, 1); }
            t.warm_start = s.flag(k ? 0.6 : 0.15); t.reuse_pattern = !fresh && s.flag(0.6); bool guess = s.flag(); int st = s.pick({1, 1, 2, -3, -4, -2, -10, -6, 3, 4});
            int calls = 0; OSQPWorkspace seen; V x; Y y; for (int i = 0; i < N; i++) x(i) = s.sym(4); for (int i = 0; i < N + M; i++) y(i) = s.sym(4); OSQPInfo o; o.iter = s.range(1, 900); o.status_val = st; o.pri_res = s.real(0, 1); o.dua_res = s.real(1, 2); o.rho_updates = s.range(0, 9); o.rho_estimate = s.real(0.1, 5);
            OsqpEigen::Solver::driver() = [&](OSQPWorkspace& w) { calls++; seen.P = w.P; seen.A = w.A; seen.q = w.q; seen.l = w.l; seen.u = w.u; seen.x = w.x; seen.y = w.y; seen.settings = w.settings; w.x = x; w.y = y; w.info_ = o; };
            c.say("warm", t.warm_start).say("reuse", t.reuse_pattern).say("guess", guess).mat("H", H).mat("A", A);
            int room = s.flag(0.4) ? s.range(1, 3) : 0; SM Hs = store(H, mh, room), As = store(A, ma, room); c.say("room", room); status_t r = guess ? qp.solve(Hs, h, As, al, au, xl, xu, xg, yg) : qp.solve(Hs, h, As, al, au, xl, xu);
            CHECK(calls == 1, "solve " << k << ": OSQP was run " << calls << " times");
            for (int i = 0; i < N; i++) for (int j = i; j < N; j++) CHECK(seen.P(i, j) == H(i, j), "solve " << k << ": OSQP was given the Hessian entry (" << i << "," << j << ") = " << seen.P(i, j) << " instead of " << H(i, j));
            for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) CHECK(seen.A(i, j) == A(i, j), "solve " << k << ": OSQP was given the constraint entry (" << i << "," << j << ") = " << seen.A(i, j) << " instead of " << A(i, j));
            for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) CHECK(seen.A(M + i, j) == (i == j), "solve " << k << ": the rows of the bounds are not the identity: (" << i << "," << j << ") = " << seen.A(M + i, j));
            for (int i = 0; i < N; i++) { CHECK(seen.q(i) == h(i), "solve " << k << ": linear term " << i << " is " << seen.q(i) << " instead of " << h(i)); CHECK(seen.l(M + i) == xl(i) && seen.u(M + i) == xu(i), "solve " << k << ": bounds of variable " << i); }
            for (int i = 0; i < M; i++) CHECK(seen.l(i) == al(i) && seen.u(i) == au(i), "solve " << k << ": bounds of constraint " << i);
            if (guess) { CHECK(seen.x == xg, "solve " << k << ": OSQP does not start from the given point"); CHECK(seen.y == yg, "solve " << k << ": OSQP does not start from the given multipliers"); }
            if (!t.warm_start || k == 0) { const auto& z = seen.settings;       // OSQP copies its settings when it is set up
                CHECK(z.rho == t.rho && z.sigma == t.sigma && z.alpha == t.alpha && z.max_iter == t.max_iter && z.eps_abs == t.eps_abs && z.eps_rel == t.eps_rel && z.check_termination == t.check_termination, "solve " << k << ": basic settings differ");
                CHECK(z.verbose == t.verbose && z.adaptive_rho == t.adaptive_rho && z.adaptive_rho_interval == t.adaptive_rho_interval && z.adaptive_rho_tolerance == t.adaptive_rho_tolerance && z.adaptive_rho_fraction == t.adaptive_rho_fraction, "solve " << k << ": penalty settings differ");
                CHECK(z.delta == t.delta && z.polish == t.polish && z.polish_refine_iter == t.polish_refine_iter && z.scaling == t.scaling && z.scaled_termination == t.scaled_termination && z.time_limit == t.time_limit && z.linsys_solver == t.osqp_linear_solver && z.eps_prim_inf == t.eps_prim_inf && z.eps_dual_inf == t.eps_dual_inf, "solve " << k << ": further settings differ"); colds++; }
            else warms++;
            CHECK(qp.primal_solution() == x && qp.dual_solution() == y, "solve " << k << ": the solution is not the one that OSQP returned");
            CHECK(qp.info().iter == o.iter && qp.info().rho_updates == o.rho_updates && qp.info().rho_estimate == o.rho_estimate, "solve " << k << ": iterations or penalty updates"); CHECK(qp.info().res_prim == o.pri_res, "solve " << k << ": primal residual " << qp.info().res_prim << ", OSQP reports " << o.pri_res); CHECK(qp.info().res_dual == o.dua_res, "solve " << k << ": dual residual " << qp.info().res_dual << ", OSQP reports " << o.dua_res);
            CHECK(r == qp.info().status, "solve " << k << ": returned and stored status differ"); bool ok = st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE; CHECK((r == SOLVED) == ok, "solve " << k << ": status " << r << " for OSQP status " << st); if (st == OSQP_MAX_ITER_REACHED) CHECK(r == MAX_ITER_EXCEEDED, "status " << r << " for the iteration limit"); if (st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE) CHECK(r == INFEASIBLE, "status " << r << " for an infeasible problem"); if (!ok && st != OSQP_PRIMAL_INFEASIBLE && st != OSQP_DUAL_INFEASIBLE && st != OSQP_PRIMAL_INFEASIBLE_INACCURATE && st != OSQP_DUAL_INFEASIBLE_INACCURATE) CHECK(r != INFEASIBLE, "infeasible for OSQP status " << st);
        }
        c.nt(colds + warms > 1); c.label("warm", warms > 0); c.label("several cold", colds > 1); c.label("warm then cold", warms > 0 && colds > 1);
    }
};
}
#define R30(N, M) static pbt::Reg r_##N##_##M("osqp_" #N "_" #M, H30<N, M>::prop, 10000, 100000);
R30(2, 1)
R30(3, 0)
R30(4, 3)
R30(7, 9)
R30(12, 5)
