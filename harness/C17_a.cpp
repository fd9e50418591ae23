// Dense BFGS / SR1 updates against the textbook formulas in extended precision.
#include "pbt.hpp"
#include <Eigen/Dense>
#include "solvers/bfgs.hpp"
#include "solvers/sr1.hpp"
namespace {
using pbt::Src; using pbt::Ctx;
using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>; using LV = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
template <class Sc, int N> Eigen::Matrix<Sc, N, N> spd(Src& s, int n) {
    Eigen::MatrixXd L(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) L(i, j) = s.sym(1.5);
    Eigen::MatrixXd B = L * L.transpose() + s.pick({1.0, 0.1, 0.5}) * Eigen::MatrixXd::Identity(n, n);
    B *= s.flag(0.3) ? s.logreal(1e-2, 1e2) : 1.0;
    return B.cast<Sc>();
}
template <class Sc, int N> Eigen::Matrix<Sc, N, 1> vec(Src& s, int n, double a) { Eigen::Matrix<Sc, N, 1> v(n); for (int i = 0; i < n; i++) v(i) = Sc(s.sym(a)); return v; }

template <class Sc, int N> void bfgs(Src& s, Ctx& c) {
    int n = N == Eigen::Dynamic ? s.range(1, 6) : N;
    using V = Eigen::Matrix<Sc, N, 1>; using M = Eigen::Matrix<Sc, N, N>;
    const long double eps = std::numeric_limits<Sc>::epsilon();
    M B = spd<Sc, N>(s, n); c.mat("B0", B);
    int steps = s.range(1, 8); bool damped = false, plain = false, neg = false;
    for (int k = 0; k < steps; k++) {
        V st = vec<Sc, N>(s, n, s.pick({1.0, 1e-2, 10.0}));
        V y;
        V Bs = B * st;
        switch (s.range(0, 5)) {
        case 0: y = vec<Sc, N>(s, n, 3); break;
        case 1: y = Bs * Sc(s.real(0.05, 3.0)); break;                       // around the damping threshold
        case 2: y = -Bs * Sc(s.real(0.1, 3.0)); break;                       // negative curvature
        case 3: y = Bs + vec<Sc, N>(s, n, 0.3); break;
        case 4: y = Bs * Sc(0.2) + vec<Sc, N>(s, n, 0.02); break;
        default: y = V::Zero(n); break;
        }
        if (s.flag(0.05)) st.setZero();
        c.mat("s", st.transpose()).mat("y", y.transpose());
        LM Bl = B.template cast<long double>(); LV sl = st.template cast<long double>(), yl = y.template cast<long double>();
        LV bs = Bl * sl; long double sBs = sl.dot(bs), sy = sl.dot(yl);
        M Bn = B; V s0 = st, y0 = y; BFGS_update(Bn, st, y);
        CHECK(st == s0 && y == y0, "the update modified its arguments");
        LV r = yl; bool dm = sy < 0.2L * sBs;
        if (dm) { long double th = 0.8L * sBs / (sBs - sy); r = th * yl + (1 - th) * bs; }
        long double sr = sl.dot(r), scale = Bl.cwiseAbs().maxCoeff();
        long double cond = (1 + bs.norm() * sl.norm() / std::max(sBs, 1e-300L)) * n;
        long double gap = std::abs(sy - 0.2L * sBs) / (std::abs(sy) + std::abs(sBs) + 1e-300L);
        bool tiny = sr < 4 * eps + 1e3L * eps * cond * (std::abs(sy) + sBs);
        if (sl.norm() == 0) { CHECK(Bn == B, "a zero step changed the matrix"); continue; }
        if (tiny && Bn == B) { c.label("skipped tiny step"); continue; }
        LM E = Bl - bs * bs.transpose() / sBs + r * r.transpose() / sr;
        long double big = scale + bs.squaredNorm() / sBs + r.squaredNorm() / sr;
        if (dm) { damped = true; neg = neg || sy < 0; } else plain = true;
        long double tol = 200 * eps * cond * (big + (dm ? yl.squaredNorm() / sr : 0) * (1 + sBs / std::max(std::abs(sBs - sy), 1e-300L)));
        (void)gap;   // the two branches agree at the threshold (theta = 1), so no case is excluded
        long double err = (Bn.template cast<long double>() - E).cwiseAbs().maxCoeff();
        CHECK(std::isfinite((double)err) && err <= tol, "updated matrix differs from the damped BFGS formula by " << (double)err << " tol " << (double)tol << " (s'y=" << (double)sy << ", s'Bs=" << (double)sBs << ")");
        CHECK((Bn - Bn.transpose()).cwiseAbs().maxCoeff() <= Sc(10) * Sc(eps) * Sc(big), "not symmetric");
        LV sec = Bn.template cast<long double>() * sl - r;
        CHECK(sec.cwiseAbs().maxCoeff() <= tol * n * sl.cwiseAbs().maxCoeff() * 2 + 1e-300L, "secant equation violated by " << (double)sec.cwiseAbs().maxCoeff());
        Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Bn.template cast<double>());
        CHECK(es.eigenvalues().minCoeff() > -double(tol) * n, "lost positive definiteness: " << es.eigenvalues().minCoeff());
        if (es.eigenvalues().minCoeff() < 1e3 * double(eps) * es.eigenvalues().maxCoeff()) break;   // numerically singular: stop the history
        B = Bn;
    }
    c.label("damped", damped); c.label("undamped", plain); c.label("negative curvature", neg);
    c.nt(damped || plain);
}

template <class Sc, int N> void sr1(Src& s, Ctx& c) {
    int n = N == Eigen::Dynamic ? s.range(1, 6) : N;
    using V = Eigen::Matrix<Sc, N, 1>; using M = Eigen::Matrix<Sc, N, N>;
    const long double eps = std::numeric_limits<Sc>::epsilon();
    M B = spd<Sc, N>(s, n); if (s.flag(0.3)) B -= M::Identity(n, n) * Sc(s.real(0, 3)); c.mat("B0", B);
    int steps = s.range(1, 6); bool applied = false, skipped = false;
    for (int k = 0; k < steps; k++) {
        V st = vec<Sc, N>(s, n, 1.5), y;
        V Bs = B * st;
        switch (s.range(0, 3)) {
        case 0: y = vec<Sc, N>(s, n, 3); break;
        case 1: y = Bs; break;                                                        // already exact
        case 2: { V w = vec<Sc, N>(s, n, 1); Sc d = st.squaredNorm(); if (d > 0) w -= st * (st.dot(w) / d); y = Bs + w; break; }   // y-Bs orthogonal to s
        default: y = Bs * Sc(s.real(-1, 3)); break;
        }
        if (s.flag(0.05)) st.setZero();
        c.mat("s", st.transpose()).mat("y", y.transpose());
        LM Bl = B.template cast<long double>(); LV sl = st.template cast<long double>(), yl = y.template cast<long double>();
        LV v = yl - Bl * sl; long double vs = v.dot(sl);
        M Bn = B; SR1_update(Bn, st, y);
        long double verr = 10 * n * eps * (yl.cwiseAbs().maxCoeff() + Bl.cwiseAbs().maxCoeff() * sl.cwiseAbs().maxCoeff());   // rounding of y - Bs
        long double thr = 1e-6L * sl.norm() * v.norm();
        CHECK(Bn.allFinite(), "non-finite matrix after an update with s'(y-Bs)=" << (double)vs);
        CHECK((Bn - Bn.transpose()).cwiseAbs().maxCoeff() <= Sc(100) * Sc(eps) * Bn.cwiseAbs().maxCoeff(), "not symmetric");
        if (sl.norm() == 0) { CHECK(Bn == B, "a zero step changed the matrix"); continue; }
        if (v.norm() == 0) { CHECK((Bn - B).cwiseAbs().maxCoeff() <= 10 * Sc(eps) * B.cwiseAbs().maxCoeff() , "secant equation already holds but the matrix changed"); skipped = true; continue; }
        if (v.norm() < 1e3L * verr || std::abs(std::abs(vs) - thr) < 10 * verr * sl.norm() * n) {   // decided by rounding: the matrix must still map s close to y
            c.label("rounding-decided"); continue; }
        if (std::abs(vs) < thr) { CHECK(Bn == B, "negligible denominator but the matrix changed"); skipped = true; continue; }
        LM E = Bl + v * v.transpose() / vs; applied = true;
        long double amp = v.squaredNorm() / std::abs(vs);
        long double tol = 100 * eps * n * (Bl.cwiseAbs().maxCoeff() + amp) + amp * (verr / v.norm()) * (2 + v.norm() * sl.norm() / std::abs(vs)) * 10;
        long double err = (Bn.template cast<long double>() - E).cwiseAbs().maxCoeff();
        CHECK(err <= tol, "differs from the SR1 formula by " << (double)err << " tol " << (double)tol);
        LV sec = Bn.template cast<long double>() * sl - yl;
        CHECK(sec.cwiseAbs().maxCoeff() <= 2 * n * tol * sl.cwiseAbs().maxCoeff() + 2 * verr, "secant equation violated by " << (double)sec.cwiseAbs().maxCoeff());
        if (Bn.cwiseAbs().maxCoeff() > Sc(1e4)) break;
        B = Bn;
    }
    c.label("applied", applied); c.label("skipped", skipped); c.nt(applied || skipped);
}
pbt::Reg a("bfgs_fixed3", bfgs<double, 3>, 20000, 500000), b("bfgs_dynamic", bfgs<double, Eigen::Dynamic>, 20000, 500000), d("bfgs_float", bfgs<float, 4>, 20000, 300000);
pbt::Reg e("sr1_fixed3", sr1<double, 3>, 20000, 500000), f("sr1_dynamic", sr1<double, Eigen::Dynamic>, 20000, 500000), g("sr1_float", sr1<float, 2>, 10000, 300000);
}
