// Run-time generated smooth nonlinear programs with closed-form extended-precision reference, and the solver variants.
#pragma once
#include "pbt.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "utils/helpers.hpp"
#include "solvers/nlproblem.hpp"
#include "solvers/sqp_base.hpp"
#include <memory>
#include <functional>
/** a finite linearisation with undefined bounds is never the fault of a diverging run */
#define NO_NAN_BOUNDS(QP) CHECK(!(QP).nan_bounds, "the quadratic subproblem has finite matrices but undefined (NaN) bounds")
namespace sq {
using L = long double; using VL = Eigen::Matrix<L, -1, 1>; using ML = Eigen::Matrix<L, -1, -1>; using VD = Eigen::VectorXd; using MD = Eigen::MatrixXd;
static constexpr int ND = 2;
struct Term { int kind = 0; double w = 0, b = 0; VD a; };   // w * phi(a'x + b)
/** phi, phi', phi'': 0 sqrt(1+z^2), 1 0.1 z^4, 2 sin z, 3 0.1 z^4 - 0.5 z^2, 4 0.5 z^2 */
template <class T> T phi(int k, const T& z) { using std::sqrt; using std::sin; switch (k) { case 0: return sqrt(z * z + T(1.0)); case 1: return z * z * z * z * T(0.1); case 2: return sin(z); case 3: return z * z * z * z * T(0.1) - z * z * T(0.5); default: return z * z * T(0.5); } }
inline L dphi(int k, L z) { switch (k) { case 0: return z / std::sqrt(z * z + 1); case 1: return 0.4L * z * z * z; case 2: return std::cos(z); case 3: return 0.4L * z * z * z - z; default: return z; } }
inline L ddphi(int k, L z) { switch (k) { case 0: return std::pow(z * z + 1, -1.5L); case 1: return 1.2L * z * z; case 2: return -std::sin(z); case 3: return 1.2L * z * z - 1; default: return 1; } }
struct Func {   // 0.5 x'Qx + (q + F d)'x + s'd + r + sum of terms
    MD Q, F; VD q, s; double r = 0; std::vector<Term> t; bool quad = false;
    template <class T, class X, class D> T val(const X& x, const D& d) const {
        int n = int(q.size()); T v = T(r + s.dot(VD(d)));
        for (int i = 0; i < n; i++) { T row = T(q(i) + F.row(i).dot(VD(d))); if (quad) for (int j = 0; j < n; j++) row += x(j) * T(0.5 * Q(i, j)); v += row * x(i); }
        for (auto& e : t) { T z = T(e.b); for (int i = 0; i < n; i++) z += x(i) * T(e.a(i)); v += T(e.w) * phi<T>(e.kind, z); }
        return v;
    }
    L value(const VL& x, const VD& d, L* mag = nullptr) const { L v = r, m = std::abs(r); for (int i = 0; i < ND; i++) { v += L(s(i)) * d(i); m += std::abs(s(i) * d(i)); } int n = int(q.size());
        for (int i = 0; i < n; i++) { L w = q(i); for (int k = 0; k < ND; k++) w += L(F(i, k)) * d(k); if (quad) for (int j = 0; j < n; j++) { w += 0.5L * Q(i, j) * x(j); m += std::abs(Q(i, j) * x(j) * x(i)); } v += w * x(i); m += std::abs(w * x(i)); }
        for (auto& e : t) { L z = e.b, zm = std::abs(e.b); for (int i = 0; i < n; i++) { z += L(e.a(i)) * x(i); zm += std::abs(e.a(i) * x(i)); } v += L(e.w) * phi<L>(e.kind, z); m += std::abs(e.w) * (std::abs(phi<L>(e.kind, z)) + 0.5L * z * z + (1 + std::abs(dphi(e.kind, z))) * zm); }
        if (mag) *mag = m; return v; }
    VL grad(const VL& x, const VD& d) const { int n = int(q.size()); VL g(n); for (int i = 0; i < n; i++) { L w = q(i); for (int k = 0; k < ND; k++) w += L(F(i, k)) * d(k); if (quad) for (int j = 0; j < n; j++) w += 0.5L * (L(Q(i, j)) + Q(j, i)) * x(j); g(i) = w; }
        for (auto& e : t) { L z = e.b; for (int i = 0; i < n; i++) z += L(e.a(i)) * x(i); L c = L(e.w) * dphi(e.kind, z); for (int i = 0; i < n; i++) g(i) += c * e.a(i); } return g; }
    ML hess(const VL& x) const { int n = int(q.size()); ML h = ML::Zero(n, n); if (quad) h = (Q.cast<L>() + Q.transpose().cast<L>()) / 2; for (auto& e : t) { L z = e.b; for (int i = 0; i < n; i++) z += L(e.a(i)) * x(i); L c = L(e.w) * ddphi(e.kind, z); h += c * (e.a * e.a.transpose()).cast<L>(); } return h; }
};
struct Data { Func f; std::vector<Func> c, g; };
template <int N, int NE, int NI, int FMT> class Nlp;
}
template <int N, int NE_, int NI_, int FMT> struct nlp_traits<sq::Nlp<N, NE_, NI_, FMT>> { using Scalar = double; enum { NX = N, NE = NE_, NI = NI_, NP = sq::ND }; };
namespace sq {
/** dense: exact derivatives by automatic differentiation */
template <int N, int NE, int NI> class Nlp<N, NE, NI, DENSE> : public ProblemBase<Nlp<N, NE, NI, DENSE>, DENSE> {
public:
    using Base = ProblemBase<Nlp<N, NE, NI, DENSE>, DENSE>; using typename Base::static_parameter_t; template <class T> using variable_t = typename Base::template variable_t<T>;
    Data d; mutable long evals = 0;
    template <typename T> void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& r) const noexcept { r = d.f.val<T>(x, p); }
    template <typename T> void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<Eigen::Matrix<T, NE, 1>> r) const noexcept { for (int i = 0; i < NE; i++) r(i) = d.c[i].val<T>(x, p); }
    template <typename T> void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<Eigen::Matrix<T, NI, 1>> r) const noexcept { for (int i = 0; i < NI; i++) r(i) = d.g[i].val<T>(x, p); }
};
/** sparse: derivatives supplied by the user (here: copied from the dense problem into a constant pattern) */
template <int N, int NE, int NI> class Nlp<N, NE, NI, SPARSE> : public ProblemBase<Nlp<N, NE, NI, SPARSE>, SPARSE> {
public:
    using Base = ProblemBase<Nlp<N, NE, NI, SPARSE>, SPARSE>; using typename Base::static_parameter_t; using typename Base::nlp_variable_t; using typename Base::nlp_dual_t; using typename Base::nlp_hessian_t; using typename Base::nlp_jacobian_t; using typename Base::nlp_constraints_t; using typename Base::scalar_t;
    template <class T> using variable_t = typename Base::template variable_t<T>; using TW = Nlp<N, NE, NI, DENSE>;
    Data d; std::shared_ptr<TW> tw;
    TW& twin() { if (!tw) tw = std::allocate_shared<TW>(Eigen::aligned_allocator<TW>()); tw->d = d; return *tw; }
    template <typename T> void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& r) const noexcept { r = d.f.val<T>(x, p); }
    template <typename T> void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<Eigen::Matrix<T, NE, 1>> r) const noexcept { for (int i = 0; i < NE; i++) r(i) = d.c[i].val<T>(x, p); }
    template <typename T> void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<Eigen::Matrix<T, NI, 1>> r) const noexcept { for (int i = 0; i < NI; i++) r(i) = d.g[i].val<T>(x, p); }
    bool touches(const Func& f, int j) const { if (f.q(j) != 0 || f.F.row(j).cwiseAbs().sum() != 0) return true; for (auto& e : f.t) if (e.a(j) != 0) return true; return f.quad; }
    void lagrangian_gradient_hessian_impl(const Eigen::Ref<const nlp_variable_t>& x, const Eigen::Ref<const static_parameter_t>& p, const Eigen::Ref<const nlp_dual_t>& lam, scalar_t& l, Eigen::Ref<nlp_variable_t> lg, nlp_hessian_t& H, Eigen::Ref<nlp_variable_t> cg, Eigen::Ref<nlp_constraints_t> g, nlp_jacobian_t& J, const scalar_t cs) noexcept {
        typename TW::nlp_hessian_t h; typename TW::nlp_jacobian_t j; twin().lagrangian_gradient_hessian(x, p, lam, l, lg, h, cg, g, j, cs);
        if (H.nonZeros() != N * N) { H.resize(N, N); H.reserve(Eigen::VectorXi::Constant(N, N)); for (int b = 0; b < N; b++) for (int a = 0; a < N; a++) H.insert(a, b) = h(a, b); } else for (int b = 0; b < N; b++) for (int a = 0; a < N; a++) H.coeffRef(a, b) = h(a, b);
        int nz = 0; auto has = [&](int a, int b) { return touches(a < NE ? d.c[a] : d.g[a - NE], b); }; for (int b = 0; b < N; b++) for (int a = 0; a < NE + NI; a++) nz += has(a, b);
        bool ins = J.nonZeros() != nz || J.rows() != NE + NI || J.cols() != N; if (ins) { J.resize(NE + NI, N); J.reserve(Eigen::VectorXi::Constant(N, NE + NI)); } for (int b = 0; b < N; b++) for (int a = 0; a < NE + NI; a++) if (has(a, b)) { if (ins) J.insert(a, b) = j(a, b); else J.coeffRef(a, b) = j(a, b); }
    }
};
/** records what the outer solver asks of the inner one */
template <class Q> struct Rec : Q {
    std::vector<int> iters; std::vector<int> status; std::vector<std::array<bool, 2>> flags;
    bool fresh_pattern = false;   // rebuild the KKT matrix in every solve (the two ways to build it round differently)
    std::function<bool(const MD& A, const VD& al, const VD& au, const VD& xl, const VD& xu)> on_fail; bool excluded = false;   // a subproblem that was not solved excluded the known minimiser
    template <class M0, class V, class M1> void failed(const M0&, const V&, const M1& A, const VD& al, const VD& au, const VD& xl, const VD& xu) { if (on_fail && on_fail(MD(A), al, au, xl, xu)) excluded = true; }
    bool primed = false, bad = false, nan_bounds = false;   // data out of the range in which double precision ADMM works (a diverged outer iteration); the case is dropped
    template <class M0, class M1, class M2, class... A> status_t solve(const M0& h, const M1& g, const M2& a0, const A&... a) { const double hm = MD(h).cwiseAbs().sum(), gm = MD(g).cwiseAbs().sum(); nan_bounds = nan_bounds || (hm < 1e6 && gm < 1e6 && MD(a0).cwiseAbs().sum() < 1e6 && nan(a...)); if (!(hm < 1e6 && gm < 1e6 && hm > 1e-6) || !(MD(a0).cwiseAbs().sum() < 1e6) || nan(a...)) { bad = true; iters.push_back(this->info().iter); status.push_back(int(UNSOLVED)); return UNSOLVED; } return run(h, g, a0, a...); }
    static bool nan() { return false; } template <class V, class... A> static bool nan(const V& v, const A&... a) { return !((v.array() == v.array()).all()) || nan(a...); }
    template <class... A> status_t run(const A&... a) { flags.push_back({this->settings().warm_start, this->settings().reuse_pattern}); if (fresh_pattern || !primed) this->settings().reuse_pattern = false; primed = true; status_t s = Q::solve(a...); if (s != SOLVED) failed(a...); iters.push_back(this->info().iter); status.push_back(int(s)); return s; }
    void clear() { excluded = bad = nan_bounds = false; iters.clear(); status.clear(); flags.clear(); }
};
/** HESS 0: default (damped BFGS after an exact first Hessian), 1: exact with Gershgorin shift in every iteration, 2: exact with eigenvalue mirroring; convex problems need no shift: 3: exact as it is; 4: default with the secant pair at equal multipliers (see the finding secant_pair of C15) */
template <class P, int HESS, class QP, class Pre> class Sol : public SQPBase<Sol<P, HESS, QP, Pre>, P, QP, Pre> {
public:
    using Base = SQPBase<Sol<P, HESS, QP, Pre>, P, QP, Pre>; using typename Base::scalar_t; using typename Base::nlp_variable_t; using typename Base::nlp_hessian_t; using typename Base::nlp_jacobian_t; using typename Base::nlp_dual_t; using typename Base::parameter_t; using typename Base::nlp_constraints_t;
    double last_alpha = 1; std::vector<double> alphas; double small_tol = 0; int stalls = 0;   // steps below the tolerance that the line search shortened
    bool full_small = false;   // user-supplied globalisation: the default line search, except that steps within the tolerance are taken in full
    scalar_t step_size_selection_impl(const Eigen::Ref<const nlp_variable_t>& p) noexcept {
        const bool small = p.template lpNorm<Eigen::Infinity>() <= std::max(this->m_settings.eps_prim, small_tol);
        if (small && full_small) { nlp_variable_t y = this->m_x + p; this->problem.cost(y, this->m_p, this->m_cost); last_alpha = 1; }
        else { last_alpha = Base::step_size_selection_impl(p); stalls += small && last_alpha < 1; }
        alphas.push_back(last_alpha); return last_alpha; }
    void gersh(Eigen::Ref<MD> h) const { for (int i = 0; i < h.rows(); i++) { double a = h(i, i), r = h.col(i).cwiseAbs().sum() - std::abs(a); if (a - r <= 0) h(i, i) += (r - a) + 0.01; } }
    void mirror(Eigen::Ref<MD> h) const { Eigen::SelfAdjointEigenSolver<MD> es(MD((h + h.transpose()) / 2)); VD v = es.eigenvalues(); bool ch = false; for (int i = 0; i < v.size(); i++) if (v(i) <= 1e-9) { v(i) = -v(i) + 0.1; ch = true; } if (ch) h = es.eigenvectors() * v.asDiagonal() * es.eigenvectors().transpose(); }
    void fix(Eigen::Ref<MD> h) const { if (HESS == 1) gersh(h); else if (HESS == 0 || HESS == 2 || HESS == 4) mirror(h); }
    void hessian_regularisation_dense_impl(Eigen::Ref<nlp_hessian_t> h) noexcept { MD m = h; fix(m); h = m; }
    void hessian_regularisation_sparse_impl(nlp_hessian_t& h) noexcept { MD m = h; fix(m); for (int k = 0; k < h.outerSize(); k++) for (typename nlp_hessian_t::InnerIterator it(h, k); it; ++it) it.valueRef() = m(it.row(), it.col()); }
    template <int T> typename std::enable_if<T == 0>::type upd_d(const Eigen::Ref<const nlp_variable_t>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_dual_t>& lam, Eigen::Ref<nlp_variable_t> g, Eigen::Ref<nlp_hessian_t> H, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) { Base::update_linearisation_dense_impl(x, p, s, lam, g, H, A, b); }
    template <int T> typename std::enable_if<T == 4>::type upd_d(const Eigen::Ref<const nlp_variable_t>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_dual_t>& lam, Eigen::Ref<nlp_variable_t> g, Eigen::Ref<nlp_hessian_t> H, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) { this->m_lag_gradient = g + A.transpose() * lam.head(A.rows()) + lam.tail(g.size()); Base::update_linearisation_dense_impl(x, p, s, lam, g, H, A, b); }
    template <int T> typename std::enable_if<T != 0 && T != 4>::type upd_d(const Eigen::Ref<const nlp_variable_t>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const nlp_variable_t>&, const Eigen::Ref<const nlp_dual_t>& lam, Eigen::Ref<nlp_variable_t> g, Eigen::Ref<nlp_hessian_t> H, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) { this->linearisation_dense_impl(x, p, lam, g, H, A, b); }
    void update_linearisation_dense_impl(const Eigen::Ref<const nlp_variable_t>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_dual_t>& lam, Eigen::Ref<nlp_variable_t> g, Eigen::Ref<nlp_hessian_t> H, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) noexcept { upd_d<HESS>(x, p, s, lam, g, H, A, b); }
    void update_linearisation_sparse_impl(const Eigen::Ref<const nlp_variable_t>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const nlp_variable_t>&, const Eigen::Ref<const nlp_dual_t>& lam, Eigen::Ref<nlp_variable_t> g, nlp_hessian_t& H, nlp_jacobian_t& A, Eigen::Ref<nlp_constraints_t> b) noexcept { this->linearisation_sparse_impl(x, p, lam, g, H, A, b); }
};
template <int N, int M, int FMT> using Box = Rec<boxADMM<N, M, double, FMT, linear_solver_traits<FMT>::template default_solver>>;
template <int N, int M, int FMT> using Adm = Rec<ADMM<N, M, double, FMT, linear_solver_traits<FMT>::template default_solver>>;
template <int N, int M, int FMT> using Rui = polympc::RuizEquilibration<double, N, M, FMT>;
using Ide = polympc::IdentityPreconditioner;

inline VD gvec(pbt::Src& s, int n, double a) { VD v(n); for (int i = 0; i < n; i++) v(i) = s.sym(a); return v; }
inline VD gdir(pbt::Src& s, int n) { VD v(n); for (int i = 0; i < n; i++) v(i) = s.flag(0.25) ? 0 : s.sym(1); if (v.norm() < 0.1) v(s.range(0, n - 1)) = 1; return v; }
inline Func gen_lin(pbt::Src& s, int n) { Func f; f.Q = MD::Zero(n, n); f.F = MD::Zero(n, ND); f.s = VD::Zero(ND); f.q = gdir(s, n); if (s.flag(0.4)) for (int i = 0; i < ND; i++) f.s(i) = s.sym(1); return f; }
/** convex: strongly convex cost with linear constraints */
inline Data gen_data(pbt::Src& s, int n, int ne, int ni, bool convex, double lmin) {
    Data d; Func& f = d.f; f = gen_lin(s, n); f.q = gvec(s, n, 3); for (int i = 0; i < n; i++) if (s.flag(0.3)) f.F(i, s.range(0, ND - 1)) = s.sym(1);
    MD B(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) = s.sym(1); f.Q = B * B.transpose(); if (convex || s.flag(0.6)) f.Q += MD::Identity(n, n) * s.logreal(lmin, 3); else f.Q *= s.sym(1); f.quad = true;
    int k = s.range(0, 2); for (int i = 0; i < k; i++) f.t.push_back({convex ? s.range(0, 1) : s.range(0, 3), s.real(0.05, 2), s.sym(1), gdir(s, n)});
    if (!convex) for (int i = 0; i < n; i++) f.t.push_back({1, s.pick({1.0, 4.0}), 0.0, VD::Unit(n, i)});   // coercive
    for (int i = 0; i < ne + ni; i++) { Func c = gen_lin(s, n); if (!convex && s.flag(0.5)) c.t.push_back({s.pick({2, 4, 0}), s.away(0.1, 1), s.sym(1), gdir(s, n)}); (i < ne ? d.c : d.g).push_back(c); }
    return d;
}
inline void say(pbt::Ctx& c, const char* n, const Func& f) { if (!c.want_text) return; c.say("function", n); if (f.quad) c.mat("Q", f.Q); c.mat("q", f.q.transpose()).mat("F", f.F).mat("s", f.s.transpose()).say("r", f.r); for (auto& e : f.t) c.say("kind", e.kind).say("w", e.w).say("b", e.b).mat("a", e.a.transpose()); }
inline void say(pbt::Ctx& c, const Data& d) { say(c, "cost", d.f); for (auto& f : d.c) say(c, "eq", f); for (auto& f : d.g) say(c, "ineq", f); }
struct Bounds { VD xl, xu, gl, gu; };
static const double INF = std::numeric_limits<double>::infinity();
}
