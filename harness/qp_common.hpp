// Generators and oracles for quadratic programs  min 1/2 x'Hx + h'x  s.t. Alb<=Ax<=Aub, xlb<=x<=xub.
// The oracles are written from the mathematical statement only.
#pragma once
#include "pbt.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "solvers/admm.hpp"
#include "solvers/box_admm.hpp"

namespace qp {
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
static const double INF = std::numeric_limits<double>::infinity();

struct QP {
    Mat H, A; Vec h, Alb, Aub, xlb, xub;
    Vec xs, ys;                 // a known KKT point (x*, y* = [A; box]); empty if none
    double mu = 0;              // known lower bound on the smallest eigenvalue of H
    Eigen::MatrixXi Hpat, Apat; // sparsity patterns (1 = explicit entry)
    int active = 0, equal = 0, onesided = 0, loose = 0;
};

inline double pos(pbt::Src& s, double lo, double hi) { return s.real(lo, hi); }

/** random matrix with given density */
inline Mat rmat(pbt::Src& s, int r, int c, double a, double density = 1.0) {
    Mat m = Mat::Zero(r, c);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (density >= 1 || s.flag(density)) m(i, j) = s.sym(a);
    return m;
}
inline Vec rvec(pbt::Src& s, int n, double a) { Vec v(n); for (int i = 0; i < n; i++) v(i) = s.sym(a); return v; }

enum Kind { STRICT, SEMI, LP };

/** symmetric PSD H with a known lower eigenvalue bound */
inline void gen_hessian(pbt::Src& s, QP& q, int n, Kind k) {
    double dens = s.pick({1.0, 0.5, 0.25});
    if (k == STRICT) {
        Mat L = rmat(s, n, n, 1.5, dens);
        q.mu = s.pick({1.0, 0.1, 0.5});
        q.H = L * L.transpose() + q.mu * Mat::Identity(n, n);
        if (s.flag(0.3)) { for (int i = 0; i < n; i++) { double d = s.logreal(0.3, 3.0); q.H.row(i) *= d; q.H.col(i) *= d; } q.mu *= 0.09; }
    } else if (k == SEMI) {
        int r = n > 1 ? s.range(1, n - 1) : 1;
        Mat L = rmat(s, n, r, 1.5, dens);
        q.H = L * L.transpose(); q.mu = 0;
    } else { q.H = Mat::Zero(n, n); q.mu = 0; }
    q.H = (0.5 * (q.H + q.H.transpose())).eval();
}

inline void gen_pattern(pbt::Src& s, QP& q, bool diag) {
    int n = q.H.rows(), m = q.A.rows();
    q.Hpat = Eigen::MatrixXi::Zero(n, n); q.Apat = Eigen::MatrixXi::Zero(m, n);
    bool full = s.flag(0.3);   // explicit zeros stored
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q.Hpat(i, j) = full || q.H(i, j) != 0 || (diag && i == j);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) q.Apat(i, j) = full || q.A(i, j) != 0;
}

/** feasible QP with a constructed KKT point. Every constraint gets a random role. */
inline QP gen_solved(pbt::Src& s, int n, int m, Kind kind, bool sparse_diag = true) {
    QP q;
    gen_hessian(s, q, n, kind);
    q.A = rmat(s, m, n, 2.0, s.pick({1.0, 0.6}));
    q.xs = rvec(s, n, 3.0);
    q.ys = Vec::Zero(m + n);
    q.Alb.resize(m); q.Aub.resize(m); q.xlb.resize(n); q.xub.resize(n);
    Vec ax = q.A * q.xs;
    for (int i = 0; i < m + n; i++) {
        double v = i < m ? ax(i) : q.xs(i - m), lb, ub, y = 0;
        double gap = pos(s, 0.05, 3.0), mult = s.flag(0.1) ? 0.0 : pos(s, 0.05, 2.0);
        int role = s.range(0, 7);
        bool bounded_box = kind == LP && i >= m;     // keep LPs bounded
        if (bounded_box && role != 0 && role != 2 && role != 4 && role != 6) role = 2;
        switch (role) {
        case 0: lb = v - gap; ub = v + pos(s, 0.05, 3.0); break;                          // inactive, two-sided
        case 1: lb = -INF; ub = INF; q.loose++; break;
        case 2: lb = v; ub = v + gap; y = -mult; q.active++; break;                        // lower active
        case 3: lb = v; ub = INF; y = -mult; q.active++; q.onesided++; break;
        case 4: ub = v; lb = v - gap; y = mult; q.active++; break;                         // upper active
        case 5: ub = v; lb = -INF; y = mult; q.active++; q.onesided++; break;
        case 6: lb = ub = v; y = s.sym(2.0); q.equal++; break;                             // equality
        default: if (s.flag()) { lb = v - gap; ub = INF; } else { lb = -INF; ub = v + gap; } q.onesided++; break;
        }
        if (s.flag(0.1)) { if (lb == -INF) lb = -1e16; if (ub == INF) ub = 1e16; }
        q.ys(i) = y;
        if (i < m) { q.Alb(i) = lb; q.Aub(i) = ub; } else { q.xlb(i - m) = lb; q.xub(i - m) = ub; }
    }
    q.h = -(q.H * q.xs + q.A.transpose() * q.ys.head(m) + q.ys.tail(n));
    gen_pattern(s, q, sparse_diag);
    return q;
}

/** as gen_solved, but well conditioned: rows of A of moderate norm, gradients of the active constraints well independent */
inline QP gen_cond(pbt::Src& s, int n, int m, Kind kind, bool loose = true, bool sparse_diag = true) {
    QP q;
    gen_hessian(s, q, n, kind);
    q.A = Mat::Zero(m, n);
    bool dense = s.flag(0.6);
    for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) if (dense || s.flag(0.6)) q.A(i, j) = s.away(0.2, 1.5); if (q.A.row(i).norm() < 0.3) q.A(i, i % n) = 1; }
    q.xs = rvec(s, n, 3.0); q.ys = Vec::Zero(m + n);
    q.Alb.resize(m); q.Aub.resize(m); q.xlb.resize(n); q.xub.resize(n);
    Vec ax = q.A * q.xs; Mat Q(n, 0); Mat G(0, n);
    int first = s.range(0, std::max(0, m + n - 1));
    for (int k = 0; k < m + n; k++) {
        int i = (k + first) % (m + n);
        Vec g = i < m ? Vec(q.A.row(i)) : Vec(Vec::Unit(n, i - m));
        Vec res = g - Q * (Q.transpose() * g); bool indep = res.norm() >= 0.4 * g.norm();
        double v = i < m ? ax(i) : q.xs(i - m), lb, ub, y = 0, gap = pos(s, 0.2, 3.0), mult = s.flag(0.1) ? 0.0 : pos(s, 0.1, 2.0);
        int role = s.range(0, 7); if (!indep && (role >= 2 && role <= 6)) role = 0; if (!loose && role == 1) role = 0;
        if (role >= 2 && role <= 6) { Q.conservativeResize(n, Q.cols() + 1); Q.col(Q.cols() - 1) = res / res.norm(); }
        switch (role) {
        case 0: lb = v - gap; ub = v + pos(s, 0.2, 3.0); break;
        case 1: lb = -INF; ub = INF; q.loose++; break;
        case 2: lb = v; ub = v + gap; y = -mult; q.active++; break;
        case 3: lb = v; ub = INF; y = -mult; q.active++; q.onesided++; break;
        case 4: ub = v; lb = v - gap; y = mult; q.active++; break;
        case 5: ub = v; lb = -INF; y = mult; q.active++; q.onesided++; break;
        case 6: lb = ub = v; y = s.sym(2.0); q.equal++; break;
        default: if (s.flag()) { lb = v - gap; ub = INF; } else { lb = -INF; ub = v + gap; } q.onesided++; break;
        }
        q.ys(i) = y;
        if (i < m) { q.Alb(i) = lb; q.Aub(i) = ub; } else { q.xlb(i - m) = lb; q.xub(i - m) = ub; }
    }
    q.h = -(q.H * q.xs + q.A.transpose() * q.ys.head(m) + q.ys.tail(n));
    gen_pattern(s, q, sparse_diag);
    return q;
}

/** arbitrary bounds: the problem may be infeasible */
inline QP gen_any(pbt::Src& s, int n, int m, Kind kind) {
    QP q = gen_solved(s, n, m, kind);
    if (s.flag(0.5)) {   // move some bounds away from the constructed point: optimum moves, maybe infeasible
        double sh = s.pick({0.5, 3.0, 20.0});
        for (int i = 0; i < m; i++) if (s.flag(0.6)) { double d = s.sym(sh); q.Alb(i) += d; q.Aub(i) += d; }
        for (int i = 0; i < n; i++) if (s.flag(0.4)) { double d = s.sym(sh); q.xlb(i) += d; q.xub(i) += d; }
        q.xs.resize(0); q.ys.resize(0);
    }
    if (s.flag(0.3)) { double c = s.logreal(0.05, 50); q.h *= c; q.H *= c; q.mu *= c; if (q.ys.size()) q.ys *= c; }
    return q;
}

inline void describe(pbt::Ctx& c, const QP& q) {
    if (!c.want_text) return;
    c.mat("H", q.H).mat("h", q.h.transpose()).mat("A", q.A).mat("Alb", q.Alb.transpose()).mat("Aub", q.Aub.transpose())
        .mat("xlb", q.xlb.transpose()).mat("xub", q.xub.transpose());
    if (q.xs.size()) c.mat("x*", q.xs.transpose()).mat("y*", q.ys.transpose());
}

template <class Sc> Eigen::SparseMatrix<Sc> sparse(const Mat& m, const Eigen::MatrixXi& pat) {
    Eigen::SparseMatrix<Sc> r(m.rows(), m.cols());
    Eigen::VectorXi nz(m.cols());
    for (int j = 0; j < m.cols(); j++) nz(j) = pat.rows() ? pat.col(j).sum() : 0;
    r.reserve(nz);
    for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) if (pat(i, j)) r.insert(i, j) = Sc(m(i, j));
    return r;   // uncompressed, as documented
}

struct Res { int status; int iter; Vec x, y; double rp, rd; };

template <class Solver, class Sc, int N, int M, bool Sparse> struct Call;
template <class Solver, class Sc, int N, int M> struct Call<Solver, Sc, N, M, false> {
    static Res run(Solver& sv, const QP& q, const Vec* xg = nullptr, const Vec* yg = nullptr) {
        Eigen::Matrix<Sc, N, 1> h = q.h.cast<Sc>(), xl = q.xlb.cast<Sc>(), xu = q.xub.cast<Sc>();
        Eigen::Matrix<Sc, M, 1> al = q.Alb.cast<Sc>(), au = q.Aub.cast<Sc>();
        typename dense_matrix_type_selector<Sc, N, N>::type H = q.H.cast<Sc>();   // dynamic beyond the limit of static allocation, as in the solver
        typename dense_matrix_type_selector<Sc, M, N>::type A = q.A.cast<Sc>();
        Res r;
        if (xg) { Eigen::Matrix<Sc, N, 1> x0 = xg->cast<Sc>(); Eigen::Matrix<Sc, N + M, 1> y0 = yg->cast<Sc>(); r.status = sv.solve(H, h, A, al, au, xl, xu, x0, y0); }
        else r.status = sv.solve(H, h, A, al, au, xl, xu);
        r.iter = sv.info().iter; r.x = sv.primal_solution().template cast<double>(); r.y = sv.dual_solution().template cast<double>();
        r.rp = sv.info().res_prim; r.rd = sv.info().res_dual;
        CHECK(int(sv.info().status) == r.status, "returned status " << r.status << " differs from info().status " << int(sv.info().status));
        return r;
    }
};
template <class Solver, class Sc, int N, int M> struct Call<Solver, Sc, N, M, true> {
    static Res run(Solver& sv, const QP& q, const Vec* xg = nullptr, const Vec* yg = nullptr) {
        Eigen::Matrix<Sc, N, 1> h = q.h.cast<Sc>(), xl = q.xlb.cast<Sc>(), xu = q.xub.cast<Sc>();
        Eigen::Matrix<Sc, M, 1> al = q.Alb.cast<Sc>(), au = q.Aub.cast<Sc>();
        Eigen::SparseMatrix<Sc> H = sparse<Sc>(q.H, q.Hpat), A = sparse<Sc>(q.A, q.Apat);
        Res r;
        if (xg) { Eigen::Matrix<Sc, N, 1> x0 = xg->cast<Sc>(); Eigen::Matrix<Sc, N + M, 1> y0 = yg->cast<Sc>(); r.status = sv.solve(H, h, A, al, au, xl, xu, x0, y0); }
        else r.status = sv.solve(H, h, A, al, au, xl, xu);
        r.iter = sv.info().iter; r.x = sv.primal_solution().template cast<double>(); r.y = sv.dual_solution().template cast<double>();
        r.rp = sv.info().res_prim; r.rd = sv.info().res_dual;
        CHECK(int(sv.info().status) == r.status, "returned status " << r.status << " differs from info().status " << int(sv.info().status));
        return r;
    }
};

/** solver settings drawn from the documented ranges */
struct Cfg { double rho, sigma, alpha, eps_abs, eps_rel, art; int max_iter, check, arint; bool adaptive, warm = false; };
inline Cfg gen_cfg(pbt::Src& s) {
    Cfg c;
    c.rho = s.flag(0.5) ? s.logreal(0.02, 20) : 0.1;
    c.sigma = s.flag(0.3) ? s.logreal(1e-7, 1e-2) : 1e-6;
    c.alpha = s.flag(0.5) ? s.real(0.5, 1.8) : 1.0;
    c.eps_abs = s.flag(0.6) ? s.logreal(1e-6, 1e-2) : 1e-3;
    c.eps_rel = s.flag(0.6) ? (s.flag(0.2) ? 0.0 : s.logreal(1e-6, 1e-2)) : 1e-3;
    c.max_iter = 1000;
    c.check = s.flag(0.5) ? s.range(1, 40) : 25;
    c.adaptive = s.flag(0.5);
    c.arint = s.flag(0.5) ? s.range(1, 60) : 25;
    c.art = s.flag(0.5) ? s.real(1.5, 10) : 5;
    return c;
}
template <class S> void apply(S& st, const Cfg& c) {
    st.rho = c.rho; st.sigma = c.sigma; st.alpha = c.alpha; st.eps_abs = c.eps_abs; st.eps_rel = c.eps_rel; st.max_iter = c.max_iter;
    st.check_termination = c.check; st.adaptive_rho = c.adaptive; st.adaptive_rho_interval = c.arint; st.adaptive_rho_tolerance = c.art; st.warm_start = c.warm;
}
inline void describe(pbt::Ctx& c, const Cfg& k) {
    c.say("rho", k.rho).say("sigma", k.sigma).say("alpha", k.alpha).say("eps_abs", k.eps_abs).say("eps_rel", k.eps_rel).say("max_iter", k.max_iter)
        .say("check", k.check).say("adaptive", k.adaptive).say("interval", k.arint).say("rho_tol", k.art);
}

inline double linf(const Vec& v) { return v.size() ? v.lpNorm<Eigen::Infinity>() : 0.0; }

/** KKT conditions to the advertised tolerance. fp = relative rounding allowance (scalar type) */
inline void check_kkt(const QP& q, const Res& r, const Cfg& k, double fp, pbt::Ctx& c) {
    int n = q.H.rows(), m = q.A.rows();
    CHECK(r.x.allFinite() && r.y.allFinite(), "non-finite solution reported as SOLVED");
    Vec ax = q.A * r.x, hx = q.H * r.x, ay = q.A.transpose() * r.y.head(m);
    double sp = std::max(linf(ax), linf(r.x)), sd = std::max(std::max(linf(hx), linf(ay)), std::max(linf(q.h), linf(r.y.tail(n))));
    // |z| <= |Ax| + res  =>  res <= (eps_abs + eps_rel |Ax|) / (1 - eps_rel)
    double tp = (k.eps_abs + k.eps_rel * sp) / (1 - k.eps_rel) + fp * (1 + sp);
    double td = k.eps_abs + k.eps_rel * sd + fp * (1 + sd) * (n + m);
    for (int i = 0; i < m; i++) CHECK(ax(i) >= q.Alb(i) - tp && ax(i) <= q.Aub(i) + tp, "SOLVED but (Ax)[" << i << "]=" << ax(i) << " outside [" << q.Alb(i) << "," << q.Aub(i) << "] tol " << tp);
    for (int i = 0; i < n; i++) CHECK(r.x(i) >= q.xlb(i) - tp && r.x(i) <= q.xub(i) + tp, "SOLVED but x[" << i << "]=" << r.x(i) << " outside [" << q.xlb(i) << "," << q.xub(i) << "] tol " << tp);
    double rd = linf(hx + q.h + ay + r.y.tail(n));
    CHECK(rd <= td, "SOLVED but stationarity residual " << rd << " > " << td);
    CHECK(std::abs(rd - r.rd) <= 1e-6 * (1 + sd) + 10 * fp * (1 + sd) * (n + m), "reported dual residual " << r.rd << " recomputed " << rd);
    double yt = std::max(1e-6, 100 * fp) * (1 + linf(r.y) + linf(r.x) + linf(ax));
    for (int i = 0; i < m + n; i++) {
        double v = i < m ? ax(i) : r.x(i - m), lb = i < m ? q.Alb(i) : q.xlb(i - m), ub = i < m ? q.Aub(i) : q.xub(i - m);
        if (r.y(i) > yt) CHECK(v >= ub - tp, "multiplier " << r.y(i) << " > 0 of constraint " << i << " but value " << v << " is not at its upper bound " << ub);
        if (r.y(i) < -yt) CHECK(v <= lb + tp, "multiplier " << r.y(i) << " < 0 of constraint " << i << " but value " << v << " is not at its lower bound " << lb);
    }
}

struct Out { Res r; double est; };
inline double scale_of(const Res& r) { return 1 + linf(r.x) + linf(r.y); }
/** same iterates to rounding; false = the case is not decidable (rounding decided an adaptive step) */
inline bool same(const char* what, const Out& a, const Out& b, const Cfg& k, bool residuals, double mag) {
    double sc = std::max(scale_of(a.r), scale_of(b.r)) + mag;
    if (k.adaptive && k.max_iter >= k.arint) {
        CHECK(std::abs(a.r.rp - b.r.rp) <= 1e-6 * sc && std::abs(a.r.rd - b.r.rd) <= 1e-6 * sc * 30, what << ": residuals at the adaptation differ: " << a.r.rp << " " << a.r.rd << " vs " << b.r.rp << " " << b.r.rd);
        if (std::abs(std::log(a.est / b.est)) > 1e-5) return false;
        for (double e : {a.est, b.est}) for (double t : {k.rho * k.art, k.rho / k.art}) if (std::abs(std::log(e / t)) < 1e-3 || e > 1e4 || e < 1e-4) return false;   // extreme penalties: badly conditioned
    }
    CHECK(a.r.status == b.r.status && a.r.iter == b.r.iter, what << ": status/iterations " << a.r.status << "/" << a.r.iter << " vs " << b.r.status << "/" << b.r.iter);
    double dx = linf(a.r.x - b.r.x), dy = linf(a.r.y - b.r.y);
    // multipliers are accumulated with the penalty (1000 x for equalities) as a factor: so are their rounding errors
    double rho = k.adaptive ? std::max(k.rho, a.est) : k.rho, ty = 1e-6 * sc * (1 + k.rho) + 1e-10 * 1000 * rho * (1 + linf(a.r.x));
    double tx = 1e-6 * sc;
    if (k.adaptive && k.max_iter >= k.arint) { double d = 1e-5 * sc + 100 * std::abs(std::log(a.est / b.est)) * sc; tx += d; ty += d; }   // the adapted penalty itself is only equal to rounding
    CHECK(dx <= tx && dy <= ty, what << ": iterates differ by " << dx << " (primal) " << dy << " (dual, allowed " << ty << ") at scale " << sc);
    return true;
}
/** problem with the patterns of q and other values */
inline QP vary(pbt::Src& s, const QP& q, int mode) {
    QP r = q; int n = q.H.rows(), m = q.A.rows();
    if (mode == 0) return r;
    double f = s.logreal(0.2, 5);
    r.H *= f; r.h = rvec(s, n, 3); 
    for (int i = 0; i < n; i++) if (q.Hpat(i, i)) r.H(i, i) += s.real(0.1, 1);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (q.Apat(i, j)) r.A(i, j) = s.flag(0.1) ? 0.0 : s.sym(2);
    for (int i = 0; i < m; i++) { r.Alb(i) = -s.real(0, 2); r.Aub(i) = s.real(0, 2); if (s.flag(0.2)) r.Aub(i) = r.Alb(i); if (s.flag(0.2)) { r.Alb(i) = -INF; r.Aub(i) = INF; } }
    for (int i = 0; i < n; i++) { r.xlb(i) = -s.real(0, 2); r.xub(i) = s.real(0, 2); if (s.flag(0.2)) r.xub(i) = r.xlb(i); if (s.flag(0.2)) { r.xlb(i) = -INF; r.xub(i) = INF; } }
    return r;
}
}  // namespace qp
