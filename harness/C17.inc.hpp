// The sparsity-preserving quasi-Newton update of a sparse optimal control problem against the dense update restricted to the stored pattern.
#include "ocp_common.hpp"
#include "solvers/bfgs.hpp"
#include <memory>
namespace {
using namespace oc;
template <int NX, int NU, int NP, int P, int S> struct H17 {
    using B = Dut<NX, NU, NP, 0, 0, P, S, SPARSE>; using DB = Dut<NX, NU, NP, 0, 0, P, S, DENSE>; using O = typename B::O; using V = typename B::V; using SM = Eigen::SparseMatrix<double>;
    static constexpr int NV = B::NV, NXX = NX * (P * S + 1), NUU = NU * (P * S + 1);
    static std::shared_ptr<B> obj() { return std::allocate_shared<B>(Eigen::aligned_allocator<B>()); }
    static int node(int i) { return i < NXX ? i / NX : i < NXX + NUU ? (i - NXX) / NU : -1; }
    static bool stored(int i, int j) { int a = node(i), b = node(j); return a < 0 || b < 0 || a == b; }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        static std::shared_ptr<DB> dn = std::allocate_shared<DB>(Eigen::aligned_allocator<DB>());
        auto b = obj(); b->o.sp = gen_spec(s, c, NX, NU, NP, 0, 0);
        V var = V::Zero(NV), lg = V::Zero(), cg = lg; typename B::Y lam; lam.setZero(); typename O::nlp_constraints_t cc; typename B::D d; double f = 0;
        for (int i = 0; i < NV; i++) var(i) = s.sym(1); b->h = SM(int(NV), int(NV)); b->jc = SM(int(B::NC), int(NV));
        if (s.flag(0.5)) b->o.lagrangian_gradient_hessian(var, d, lam, f, lg, b->h, cg, cc, b->jc); else b->o.cost_gradient_hessian(var, d, f, cg, b->h);
        // positive definite values on the stored pattern
        Eigen::MatrixXd H = Eigen::MatrixXd::Zero(NV, NV); double scale = s.flag(0.3) ? s.logreal(1e-2, 1e2) : 1; bool ident = s.flag(0.2);
        for (int i = 0; i < NV; i++) for (int j = 0; j < i; j++) if (!ident && stored(i, j)) H(i, j) = H(j, i) = s.sym(1);
        for (int i = 0; i < NV; i++) H(i, i) = ident ? 1 : H.row(i).cwiseAbs().sum() + s.pick({1.0, 0.1, 0.5});
        H *= scale; int cnt = 0;
        for (int k = 0; k < NV; k++) for (SM::InnerIterator it(b->h, k); it; ++it) { it.valueRef() = H(it.row(), k); cnt++; CHECK(stored(it.row(), k), "an entry outside the block pattern is stored: " << it.row() << "," << k); }
        for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) if (stored(i, j)) cnt--;
        CHECK(cnt == 0, "the block pattern is not completely stored (difference " << cnt << ")");
        c.mat("H", H); int steps = s.range(1, 4); bool damped = false, plain = false, neg = false, zero = false; const long double eps = 2.3e-16L;
        for (int k = 0; k < steps; k++) {
            V st = V::Zero(), y = st; double a = s.pick({1.0, 1e-2, 10.0}); int kind = s.range(0, 6); bool sparse_s = s.flag(0.2);
            for (int i = 0; i < NV; i++) st(i) = sparse_s && s.flag(0.7) ? 0 : s.sym(a);
            Eigen::MatrixXd cur = b->h; V Bs = cur * st;
            switch (kind) {
            case 0: for (int i = 0; i < NV; i++) y(i) = s.sym(3); break;
            case 1: y = Bs * s.real(0.05, 3.0); break;
            case 2: y = -Bs * s.real(0.1, 3.0); break;
            case 3: y = Bs; for (int i = 0; i < NV; i++) y(i) += s.sym(0.3); break;
            case 4: y = Bs * 0.2; for (int i = 0; i < NV; i++) y(i) += s.sym(0.02); break;
            case 5: y.setZero(); break;
            default: y = 2 * Bs; st = s.flag(0.5) ? V(V::Zero(NV)) : V(st * 1e-11); y = s.flag(0.5) ? V(V::Zero(NV)) : y; break;
            }
            c.mat("s", st.transpose()).mat("y", y.transpose());
            SM before = b->h; V s0 = st, y0 = y; b->o.hessian_update_impl(b->h, st, y);
            CHECK(st == s0 && y == y0, "the update modified its arguments");
            CHECK(B::same_pattern(before, b->h), "the pattern changed");
            Eigen::MatrixXd got = b->h;
            LM_ Bl = cur.template cast<long double>(); LV_ sl = st.template cast<long double>(), yl = y.template cast<long double>();
            LV_ bs = Bl * sl; long double sBs = sl.dot(bs), sy = sl.dot(yl); LV_ r = yl; bool dm = sy < 0.2L * sBs;
            CHECK(got.allFinite(), "non-finite Hessian after an update with s'Hs=" << (double)sBs << ", s'y=" << (double)sy);
            if (sl.norm() == 0) { CHECK(got == cur, "a zero step changed the matrix"); zero = true; continue; }
            if (dm) { long double th = 0.8L * sBs / (sBs - sy); r = th * yl + (1 - th) * bs; }
            long double sr = sl.dot(r), cond = (1 + bs.norm() * sl.norm() / std::max(std::abs(sBs), 1e-300L)) * 20;
            if (sr < 4 * eps + 1e3L * eps * cond * (std::abs(sy) + sBs)) { if (got == cur) { c.label("skipped tiny step"); continue; } }
            if (sBs < 1e-9L * bs.norm() * sl.norm()) { c.label("lost definiteness by the restriction"); break; }
            LM_ E = Bl - bs * bs.transpose() / sBs + r * r.transpose() / sr; (dm ? damped : plain) = true; neg |= sy < 0;
            long double big = Bl.cwiseAbs().maxCoeff() + bs.squaredNorm() / sBs + r.squaredNorm() / sr;
            long double tol = 200 * eps * cond * (big + (dm ? yl.squaredNorm() / sr : 0) * (1 + sBs / std::max(std::abs(sBs - sy), 1e-300L)));
            Eigen::MatrixXd D = cur; BFGS_update(D, st, y);
            typename DB::O::nlp_hessian_t Dd = cur; dn->o.hessian_update_impl(Dd, st, y);   // a dense transcription uses the plain update
            CHECK(Eigen::MatrixXd(Dd) == D, "the update of a dense optimal control problem differs from the plain one");
            for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) if (stored(i, j)) {
                CHECK(std::abs(got(i, j) - E(i, j)) <= tol, "entry (" << i << "," << j << ") is " << got(i, j) << ", the damped BFGS formula gives " << (double)E(i, j) << " (before " << cur(i, j) << ", s'y=" << (double)sy << ", s'Hs=" << (double)sBs << ") tol " << (double)tol);
                CHECK(std::abs(got(i, j) - D(i, j)) <= 2 * tol, "entry (" << i << "," << j << ") differs from the dense update");
                CHECK(std::abs(got(i, j) - got(j, i)) <= 20 * eps * big, "not symmetric");
            }
            if (got.cwiseAbs().maxCoeff() > 1e6) break;
        }
        c.label("damped", damped); c.label("undamped", plain); c.label("negative curvature", neg); c.label("zero step", zero); c.nt(damped || plain || zero);
    }
    using LM_ = Eigen::Matrix<long double, -1, -1>; using LV_ = Eigen::Matrix<long double, -1, 1>;
};
}
#define BF(Q, NX, NU, NP, P, S) static pbt::Reg PBT_CAT(r_, __LINE__)("sparse_x" #NX "_u" #NU "_p" #NP "_o" #P "_s" #S, H17<NX, NU, NP, P, S>::prop, Q, Q * 10);
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
