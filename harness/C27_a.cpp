// Linear-quadratic design tools against solutions computed in extended precision.
#include "pbt.hpp"
#include <cmath>
#include <iostream>
#include <limits>
#include <sstream>
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
#include "control/lqr.hpp"
using L = long double; using M = Eigen::MatrixXd; using ML = Eigen::Matrix<L, -1, -1>; using Eigen::Index;
static const double EPS = std::numeric_limits<double>::epsilon();
/** the routines of the library may report on the standard streams */
struct Quiet { std::ostringstream o; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static M rnd(pbt::Src& s, int r, int c, double k) { M m(r, c); bool sparse = s.flag(0.4); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = sparse && s.flag(0.5) ? 0 : s.flag(0.3) ? s.range(-2, 2) : s.sym(k); return m; }
static M orth(pbt::Src& s, int n) { M a(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = s.sym(1) + (i == j); return Eigen::HouseholderQR<M>(a).householderQ(); }
static M spd(pbt::Src& s, int n, double lo, double hi) { M q = orth(s, n); Eigen::VectorXd d(n); for (int i = 0; i < n; i++) d(i) = s.logreal(lo, hi); M r = q * d.asDiagonal() * q.transpose(); return (r + r.transpose()) / 2; }
static double nrm(const M& a) { return a.size() ? a.norm() : 0; }
static double worst(const ML& a) { return a.size() ? double(a.cwiseAbs().maxCoeff()) : 0; }

/** inverse by Gauss-Jordan elimination with full pivoting of columns by row exchange; false if (numerically) singular */
static bool invert(ML a, ML& r) {
    int n = a.rows(); r = ML::Identity(n, n);
    for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (std::abs(a(i, k)) > std::abs(a(p, k))) p = i; if (!(std::abs(a(p, k)) > 1e-30L)) return false; if (p != k) { a.row(k).swap(a.row(p)); r.row(k).swap(r.row(p)); }
        L d = a(k, k); a.row(k) /= d; r.row(k) /= d; for (int i = 0; i < n; i++) if (i != k && a(i, k) != 0) { L f = a(i, k); a.row(i) -= f * a.row(k); r.row(i) -= f * r.row(k); } }
    return true;
}
static M inv_d(const M& a) { ML r; if (!invert(a.cast<L>(), r)) throw pbt::Discard{}; return r.cast<double>(); }
/** solution of A X + X A' = Q by the Kronecker form in extended precision; cond: norm of the inverse operator */
static ML lyap_ref(const ML& A, const ML& Q, double& invnorm) {
    int n = A.rows(); ML K = ML::Zero(n * n, n * n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { K(j * n + i, j * n + k) += A(i, k); K(j * n + i, k * n + i) += A(j, k); }
    ML I; if (!invert(K, I)) throw pbt::Discard{}; invnorm = double(I.norm()); ML x = I * Eigen::Map<const Eigen::Matrix<L, -1, 1>>(ML(Q).data(), n * n); return Eigen::Map<ML>(x.data(), n, n);
}
static pbt::Reg r_pinv("pinv", [](pbt::Src& s, pbt::Ctx& c) {
    int m = s.range(1, 6), n = s.flag(0.4) ? m : s.range(1, 6), k = std::min(m, n), r = s.range(0, k); M U = orth(s, m), V = orth(s, n), D = M::Zero(m, n); double lo = s.pick({0.1, 1.0, 1e-3}); for (int i = 0; i < r; i++) D(i, i) = s.logreal(lo, 10);
    M A = U * D * V.transpose(); double sc = s.flag(0.3) ? s.logreal(1e-6, 1e6) : 1; if (s.flag(0.3)) { A = rnd(s, m, n, 3); Eigen::JacobiSVD<M> z(A); for (int i = 0; i < k; i++) { double v = z.singularValues()(i); if (v > 0 && v < 1e-4) throw pbt::Discard{}; } }
    A *= sc; c.mat("A", A); M P = pinv(A); CHECK(P.rows() == n && P.cols() == m, "size " << P.rows() << "x" << P.cols());
    double a = nrm(A), p = nrm(P), cond = 1 + a * p, tol = 500 * EPS * cond * cond; c.nt(m != n || r < k || k > 1); c.label(m > n ? "tall" : m < n ? "wide" : "square"); if (r < k) c.label("rank deficient");
    CHECK((A * P * A - A).norm() <= tol * (a + 1e-300), "A P A != A by " << (A * P * A - A).norm()); CHECK((P * A * P - P).norm() <= tol * (p + 1e-300), "P A P != P by " << (P * A * P - P).norm());
    CHECK((A * P - (A * P).transpose()).norm() <= tol, "A P is not symmetric"); CHECK((P * A - (P * A).transpose()).norm() <= tol, "P A is not symmetric");
}, 20000, 400000);
static M gen_sys(pbt::Src& s, int n) {
    M A; int k = s.range(0, 5);
    if (k == 0) { A = M::Zero(n, n); for (int i = 0; i + 1 < n; i++) A(i, i + 1) = 1; }                                   // chain of integrators
    else if (k == 1) { A = M::Zero(n, n); for (int i = 0; i + 1 < n; i += 2) { double w = s.logreal(0.3, 5), d = s.sym(0.5); A(i, i) = A(i + 1, i + 1) = d; A(i, i + 1) = w; A(i + 1, i) = -w; } if (n % 2) A(n - 1, n - 1) = s.sym(2); if (s.flag()) { M q = orth(s, n); A = q * A * q.transpose(); } }   // oscillators
    else A = rnd(s, n, n, s.pick({1.0, 3.0, 0.3}));
    return A;
}
static pbt::Reg r_lyap("lyapunov", [](pbt::Src& s, pbt::Ctx& c) {
    int n = s.range(1, 6); M A = gen_sys(s, n); if (s.flag(0.7)) A -= s.logreal(0.1, 4) * M::Identity(n, n); bool sym = s.flag(0.8); M Q = rnd(s, n, n, 2); if (sym) Q = (Q + Q.transpose()).eval();
    c.mat("A", A); c.mat("Q", Q); double inv; ML X0 = lyap_ref(A.cast<L>(), Q.cast<L>(), inv); double a = nrm(A), x = double(X0.norm()); if (inv * (1 + a) > 1e8) throw pbt::Discard{};
    Eigen::EigenSolver<M> es(A, false); bool cplx = es.eigenvalues().imag().cwiseAbs().maxCoeff() > 1e-9; c.label(cplx ? "complex eigenvalues" : "real eigenvalues"); c.nt(n > 1 && nrm(Q) > 0);
    Quiet q; M X = lyapunov(A, Q); CHECK(X.rows() == n && X.cols() == n, "size"); double tol = 200 * n * EPS * (a * x + nrm(Q)) + 1e-300;
    CHECK((A * X + X * A.transpose() - Q).norm() <= tol, "residual " << (A * X + X * A.transpose() - Q).norm() << " scale " << a * x + nrm(Q)); CHECK(worst(X.cast<L>() - X0) <= inv * tol, "solution differs by " << worst(X.cast<L>() - X0));
    if (sym) CHECK((X - X.transpose()).norm() <= 2 * inv * tol, "not symmetric");
}, 20000, 400000);
/** stabilising solution of C + X A + A' X - X B X = 0 by Kleinman-free Hamiltonian sign iteration in extended precision */
static bool care_ref(const ML& A, const ML& B, const ML& C, ML& X) {
    int n = A.rows(); ML H(2 * n, 2 * n); H << A, -B, -C, -A.transpose(); ML Z = H;
    for (int k = 0; k < 200; k++) { ML I; if (!invert(Z, I)) return false; L g = std::sqrt(I.norm() / Z.norm()); if (k > 20) g = 1; ML N = (g * Z + I / g) / 2; L d = (N - Z).norm(); Z = N; if (d < 1e-15L * Z.norm() && k > 3) break; }
    if ((Z * Z - ML::Identity(2 * n, 2 * n)).norm() > 1e-9L) return false; ML W(2 * n, n), R(2 * n, n); W << Z.topRightCorner(n, n), Z.bottomRightCorner(n, n) + ML::Identity(n, n); R << -(Z.topLeftCorner(n, n) + ML::Identity(n, n)), -Z.bottomLeftCorner(n, n);
    ML WW = W.transpose() * W, IW; if (!invert(WW, IW)) return false; X = IW * (W.transpose() * R); if (!X.allFinite()) return false; X = ((X + X.transpose()) / 2).eval(); L r = (C + X * A + A.transpose() * X - X * B * X).norm(); return r <= 1e-9L * (1 + X.norm() * X.norm()); 
}
struct Sys { M F, G, Q, R, Mx; ML X; double cond; };
static double decay(const M& A) { return -Eigen::EigenSolver<M>(A, false).eigenvalues().real().maxCoeff(); }
static Sys gen_lq(pbt::Src& s, pbt::Ctx& c, bool cross) {
    Sys z; int n = s.range(1, 5), m = s.range(1, 3); z.F = gen_sys(s, n); z.G = rnd(s, n, m, 2); z.Q = spd(s, n, 0.1, 10); z.R = spd(s, m, 0.1, 10); z.Mx = M::Zero(n, m); M sq = z.Q.llt().matrixL();
    // only some combinations of the states are weighted
    if (s.flag(0.35)) { int r = s.range(1, n); sq = rnd(s, n, r, 2); if (s.flag(0.4)) { sq.setZero(); for (int i = 0; i < r; i++) sq(s.range(0, n - 1), i) = s.pick({1.0, 0.5, 2.0, 3.0}); } z.Q = sq * sq.transpose(); }
    if (cross && s.flag(0.6)) { M J = rnd(s, sq.cols(), m, 1); double k = s.logreal(0.05, 0.8); M sr = z.R.llt().matrixL(); Eigen::JacobiSVD<M> v(J); double t = v.singularValues()(0); if (t > 0) z.Mx = sq * (k / t * J) * sr.transpose(); }
    c.mat("F", z.F); c.mat("G", z.G); c.mat("Q", z.Q); c.mat("R", z.R); c.mat("M", z.Mx);
    ML Ri; if (!invert(z.R.cast<L>(), Ri)) throw pbt::Discard{}; ML Ml = z.Mx.cast<L>(), Gl = z.G.cast<L>(), A = z.F.cast<L>() - Gl * Ri * Ml.transpose(), B = Gl * Ri * Gl.transpose(), C = z.Q.cast<L>() - Ml * Ri * Ml.transpose();
    if (!care_ref(A, B, C, z.X)) throw pbt::Discard{}; M cl = (A - B * z.X).cast<double>(); double inv; ML dummy = lyap_ref(cl.cast<L>(), ML::Identity(n, n), inv); z.cond = inv * (1 + nrm(cl)); if (z.X.norm() > 1e3L || z.cond > 1e4 || decay(cl) < 1e-2) throw pbt::Discard{};
    { double b = std::max(0.0, -Eigen::EigenSolver<M>(A.cast<double>(), false).eigenvalues().real().minCoeff()) + 0.5, i2; ML W = lyap_ref(A + L(b) * ML::Identity(n, n), 2 * B * B.transpose(), i2); Eigen::JacobiSVD<M> v(W.cast<double>()); double r = v.singularValues()(n - 1) / v.singularValues()(0); if (!(r > 1e-3)) throw pbt::Discard{}; }   // weakly controllable
    return z;
}
static pbt::Reg r_care("care", [](pbt::Src& s, pbt::Ctx& c) {
    Sys z = gen_lq(s, c, false); M B = z.G * inv_d(z.R) * z.G.transpose(); Quiet q; M X = care(z.F, B, z.Q); int n = z.F.rows(); CHECK(X.rows() == n && X.cols() == n, "size"); double x = double(z.X.norm());
    M res = z.Q + X * z.F + z.F.transpose() * X - X * B * X; c.nt(n > 1); c.label(decay(z.F) > 0 ? "stable plant" : "unstable plant");
    CHECK(res.norm() <= 2e-5 + 1e-9 * x * x, "Riccati residual " << res.norm()); CHECK(worst(X.cast<L>() - z.X) <= 1e-4 * z.cond * (1 + x), "solution differs by " << worst(X.cast<L>() - z.X)); CHECK((X - X.transpose()).norm() <= 1e-5 * (1 + x), "not symmetric");
}, 10000, 200000);
static pbt::Reg r_lqr("lqr", [](pbt::Src& s, pbt::Ctx& c) {
    Sys z = gen_lq(s, c, true); int n = z.F.rows(), m = z.G.cols(); M S = M::Constant(n, n, 777), K = M::Constant(m, n, 777); bool check = s.flag(); c.say("check", check); double x = double(z.X.norm());
    { Quiet q; lqr(z.F, z.G, z.Q, z.R, z.Mx, S, K, check); } c.nt(n > 1); c.label(z.Mx.norm() > 0 ? "cross weight" : "no cross weight"); c.label(decay(z.F) > 0 ? "stable plant" : "unstable plant");
    M T = S * z.G + z.Mx, res = z.F.transpose() * S + S * z.F - T * inv_d(z.R) * T.transpose() + z.Q; CHECK(res.norm() <= 2e-5 + 1e-9 * x * x, "Riccati residual " << res.norm());
    CHECK(worst(S.cast<L>() - z.X) <= 1e-4 * z.cond * (1 + x), "solution differs by " << worst(S.cast<L>() - z.X)); CHECK((S - S.transpose()).norm() <= 1e-5 * (1 + x), "not symmetric"); M Kr = inv_d(z.R) * T.transpose(); CHECK((K - Kr).norm() <= 1e-9 * (1 + Kr.norm()), "gain differs from R^-1 (G' S + M') by " << (K - Kr).norm());
    CHECK(decay(z.F - z.G * K) > 0, "closed loop is not stable: " << decay(z.F - z.G * K));
}, 10000, 200000);
static pbt::Reg r_reject("rejected weights", [](pbt::Src& s, pbt::Ctx& c) {
    int n = s.range(1, 5), m = s.range(1, 3); M F = gen_sys(s, n), G = rnd(s, n, m, 2), R = spd(s, m, 0.1, 10), Mx = M::Zero(n, m), q = orth(s, n); Eigen::VectorXd d(n); for (int i = 0; i < n; i++) d(i) = s.logreal(0.1, 10) * (s.flag(0.3) ? -1 : 1); d(s.range(0, n - 1)) = -s.logreal(1e-3, 10);
    M Q = q * d.asDiagonal() * q.transpose(); Q = (Q + Q.transpose()).eval() / 2; if (s.flag(0.4)) Mx = rnd(s, n, m, 1); c.mat("F", F); c.mat("G", G); c.mat("Q", Q); c.mat("R", R); c.mat("M", Mx); M S = M::Zero(n, n), K = M::Zero(m, n); Quiet o; c.nt(n > 1);
    lqr(F, G, Q, R, Mx, S, K, true); CHECK(!o.o.str().empty(), "indefinite weights are accepted"); CHECK(!S.allFinite() && !K.allFinite(), "a design is returned for rejected weights");
}, 5000, 100000);
