#include "pbt.hpp"
#include <Eigen/Dense>
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"
#include "control/ode_collocation.hpp"
#include "control/sparse_ode_collocation.hpp"
#include "control/cost_collocation.hpp"
#include <memory>
namespace c13 {
using L = long double;
/** polynomial in the normalised time tau = (t - tm) / h */
struct Poly {
    std::vector<double> c;
    template <class T> T val(const T& tau) const { T r = T(0.0); for (size_t i = c.size(); i-- > 0;) r = r * tau + T(c[i]); return r; }
    template <class T> T der(const T& tau) const { T r = T(0.0); for (size_t i = c.size(); i-- > 1;) r = r * tau + T(double(i) * c[i]); return r; }
    double mag() const { double r = 0; for (double x : c) r += std::abs(x); return r; }
    double dmag() const { double r = 0; for (size_t i = 1; i < c.size(); i++) r += double(i) * std::abs(c[i]); return r; }
    int degree() const { for (int i = int(c.size()); i-- > 1;) if (c[i] != 0) return i; return 0; }
};
inline Poly gen_poly(pbt::Src& s, int deg) { Poly p; for (int i = 0; i <= deg; i++) p.c.push_back(s.sym(2)); return p; }
struct Data { std::vector<Poly> x, u; Poly l; double tm = 0, h = 1, lx = 0, mx = 0; std::vector<double> a, b; int prod = 0; };
template <int NX, int NU, int P, int S, int FMT> class Ocp;
}
template <int NX_, int NU_, int P, int S, int FMT> struct polympc_traits<c13::Ocp<NX_, NU_, P, S, FMT>> { using Scalar = double; enum { NX = NX_, NU = NU_, NP = 1, ND = 0, NG = 0 }; };
namespace c13 {
template <int P, int S> using Appr = polympc::Spline<polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, double>, S>;
template <int NX, int NU, int P, int S, int FMT> class Ocp : public ContinuousOCP<Ocp<NX, NU, P, S, FMT>, Appr<P, S>, FMT> {
public:
    using Base = ContinuousOCP<Ocp<NX, NU, P, S, FMT>, Appr<P, S>, FMT>;
    template <class T> using state_t = typename Base::template state_t<T>; template <class T> using control_t = typename Base::template control_t<T>; template <class T> using parameter_t = typename Base::template parameter_t<T>; using typename Base::static_parameter_t; using typename Base::scalar_t;
    Data d;
    // x_i' = X_i'(t) + a_i (x_j - X_j(t)) (1 + x_i / 4) + b_i p (u_k - U_k(t)), solved by x = X, u = U for every p
    template <typename T> void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t>, const T& t, Eigen::Ref<state_t<T>> y) const noexcept {
        T tau = (t - T(d.tm)) * T(1.0 / d.h);
        for (int i = 0; i < NX; i++) { int j = (i + 1) % NX, k = i % NU; y(i) = d.x[i].der(tau) * T(1.0 / d.h) + T(d.a[i]) * (x(j) - d.x[j].val(tau)) * (T(1.0) + x(i) * T(0.25)) + T(d.b[i]) * p(0) * (u(k) - d.u[k].val(tau)); }
    }
    template <typename T> void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>>, const Eigen::Ref<const parameter_t<T>>, const Eigen::Ref<const static_parameter_t>, const scalar_t& t, T& r) noexcept {
        double tau = (t - d.tm) / d.h; r = T(d.l.val(tau)) + T(d.lx) * x(0); if (d.prod) r += x(0) * x(NX - 1);
    }
    template <typename T> void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>>, const Eigen::Ref<const parameter_t<T>>, const Eigen::Ref<const static_parameter_t>, const scalar_t&, T& r) noexcept { r = T(d.mx) * x(NX - 1); }
};
template <int NX, int NU, int P, int S> struct M13 {
    static constexpr int N = P * S + 1, NXX = NX * N, NUU = NU * N, NV = NXX + NUU + 1;
    template <int FMT> static void run(pbt::Src& s, pbt::Ctx& c, const Data& D, double t0, double tf, double par, const std::vector<std::array<double, 3>>& pert) {
        using O = Ocp<NX, NU, P, S, FMT>; auto o = std::allocate_shared<O>(Eigen::aligned_allocator<O>()); o->d = D; o->set_time_limits(t0, tf); const char* who = FMT == DENSE ? "dense" : "sparse";
        typename O::nlp_variable_t var; typename O::static_parameter_t d; const double eps = 2.3e-16; double tmax = std::max(std::abs(t0), std::abs(tf)), dt = eps * (tmax + std::abs(tf - t0)); double rt = 1 + tmax / std::abs(D.h);
        auto tn = [&](int k) { return double(o->time_nodes(k)); };
        for (int k = 0; k < N; k++) { double tau = (tn(k) - D.tm) / D.h; for (int i = 0; i < NX; i++) var(k * NX + i) = double(D.x[i].val(L(tau))); for (int i = 0; i < NU; i++) var(NXX + k * NU + i) = double(D.u[i].val(L(tau))); } var(NV - 1) = par;
        typename O::nlp_eq_constraints_t e, e2, z; e.setConstant(777); o->equalities(var, d, e); double ts = std::abs(tf - t0) / (2 * S), Dn = P * P;   // entries and row sums of the differentiation matrix are O(P^2)
        Eigen::VectorXd tol(NX); for (int i = 0; i < NX; i++) { int j = (i + 1) % NX; double fm = D.x[i].dmag() * rt * P / std::abs(D.h) + std::abs(D.a[i]) * D.x[j].mag() * (1 + D.x[i].mag()) * rt * P + std::abs(D.b[i] * par) * D.u[i % NU].mag() * rt * P; tol(i) = 500 * eps * (4 * Dn * D.x[i].mag() * rt * P + ts * fm) + 500 * dt * Dn * D.x[i].dmag() / std::abs(D.h); }
        for (int k = 0; k < N; k++) for (int i = 0; i < NX; i++) CHECK(std::abs(e(k * NX + i)) <= tol(i), who << ": the defect of an exact polynomial solution at node " << k << ", state " << i << " is " << e(k * NX + i) << " > " << tol(i));
        // the reported nodes cover the horizon, from its end to its start
        CHECK(std::abs(tn(0) - tf) <= 8 * dt && std::abs(tn(N - 1) - t0) <= 8 * dt, who << ": end nodes " << tn(0) << ", " << tn(N - 1));
        double cost = 777; o->cost(var, d, cost);
        // exact integral
        std::vector<L> q(2 * P + 3, 0); for (size_t i = 0; i < D.l.c.size(); i++) q[i] += D.l.c[i]; for (size_t i = 0; i < D.x[0].c.size(); i++) q[i] += L(D.lx) * D.x[0].c[i]; if (D.prod) for (size_t i = 0; i < D.x[0].c.size(); i++) for (size_t j = 0; j < D.x[NX - 1].c.size(); j++) q[i + j] += L(D.x[0].c[i]) * D.x[NX - 1].c[j];
        L a = (L(t0) - D.tm) / D.h, b = (L(tf) - D.tm) / D.h, in = 0; for (size_t i = 0; i < q.size(); i++) in += q[i] * (std::pow(b, L(i + 1)) - std::pow(a, L(i + 1))) / L(i + 1); in *= D.h;
        double lm = D.l.mag() + std::abs(D.lx) * D.x[0].mag() + D.prod * D.x[0].mag() * D.x[NX - 1].mag(); L ex = in + L(D.mx) * D.x[NX - 1].val(b);
        double ct = 2000 * eps * P * rt * (std::abs(tf - t0) * lm + std::abs(D.mx) * D.x[NX - 1].mag()) * (1 + P);
        CHECK(std::abs(cost - ex) <= ct, who << ": the cost is " << cost << ", the exact integral plus terminal cost is " << double(ex));
        for (auto& p : pert) {   // any single other value gives a defect
            auto v = var; int w = int(p[0] * (NXX + NUU)); w = std::min(w, NXX + NUU - 1); double del = p[1] * (1 + std::abs(v(w))); v(w) += del; o->equalities(v, d, e2); z = e2 - e; double m = 0;
            if (w < NXX) { int n = w / NX, i = w % NX; for (int k = 0; k < N; k++) { int sg = std::min(k / P, S - 1); if (k != n && n >= sg * P && n <= sg * P + P) { m = std::max(m, std::abs(z(k * NX + i))); CHECK(std::abs(z(k * NX + i)) >= 0.2 * std::abs(del), who << ": state " << i << " changed by " << del << " at node " << n << " changes the defect at node " << k << " only by " << z(k * NX + i)); }
                    else if (k != n) for (int q2 = 0; q2 < NX; q2++) CHECK(std::abs(z(k * NX + q2)) <= tol(q2), who << ": a state change at node " << n << " changes the defect of another segment at node " << k); }
                CHECK(m > 0, who << ": no defect"); }
            else { int n = (w - NXX) / NU, k = (w - NXX) % NU; for (int i = 0; i < NX; i++) { double want = i % NU == k ? ts * std::abs(D.b[i] * par * del) : 0; CHECK(std::abs(std::abs(z(n * NX + i)) - want) <= 1e-6 * want + 4 * tol(i), who << ": control " << k << " changed by " << del << " at node " << n << " changes the defect of state " << i << " by " << z(n * NX + i) << " instead of " << want); } }
        }
    }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        double t0, tf; t0 = s.flag(0.4) ? 0 : s.sym(20); tf = t0 + s.logreal(0.05, 20); if (s.flag(0.1)) std::swap(t0, tf);
        Data D; D.tm = (t0 + tf) / 2; D.h = (tf - t0) / 2; int deg = 0; for (int i = 0; i < NX; i++) { D.x.push_back(gen_poly(s, P)); deg = std::max(deg, D.x.back().degree()); D.a.push_back(s.sym(2)); D.b.push_back(s.away(0.2, 2)); }
        for (int i = 0; i < NU; i++) D.u.push_back(gen_poly(s, s.range(0, 2 * P))); D.l = gen_poly(s, P); D.lx = s.sym(2); D.mx = s.sym(2); double par = s.away(0.3, 2);
        if (s.flag(0.4)) { D.prod = 1; for (int i : {0, NX - 1}) D.x[i].c.resize(P / 2 + 1); }   // product of two states within the exactness of the quadrature
        std::vector<std::array<double, 3>> pert; int n = s.range(1, 4); for (int i = 0; i < n; i++) pert.push_back({s.real(0, 1), s.away(1e-2, 2), 0});
        c.say("t0", t0).say("tf", tf).say("p", par); for (auto& p : D.x) c.mat("x", Eigen::Map<const Eigen::RowVectorXd>(p.c.data(), p.c.size())); c.label("product integrand", D.prod); c.label("non-zero start", t0 != 0); c.label("backward", tf < t0);
        run<DENSE>(s, c, D, t0, tf, par, pert); run<SPARSE>(s, c, D, t0, tf, par, pert); c.nt(deg >= 2);
    }
    /** stand-alone operators: x_i' = u_i + a_i x_j^2 with u_i := X_i' - a_i X_j^2 */
    struct F { using Scalar = double; using State = Eigen::Matrix<double, NX, 1>; using Control = Eigen::Matrix<double, NX, 1>; using Parameters = Eigen::Matrix<double, NX, 1>;
        template <class X, class U, class Q, class Y> void operator()(const X& x, const U& u, const Q& p, Y& y) const { for (int i = 0; i < NX; i++) y(i) = u(i) + p(i) * x((i + 1) % NX) * x((i + 1) % NX); } };
    struct Lg { using Scalar = double; using State = typename F::State; using Control = typename F::Control; using Parameters = typename F::Parameters; template <class X, class U, class Q, class Y> void operator()(const X& x, const U&, const Q&, Y& y) const { y = x(0) - 2.0 * x(NX - 1); } };
    struct My { template <class X, class Y> void operator()(const X& x, Y& y) const { y = x(NX - 1) * 3.0; } };
    using Ch = polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, double>;
    template <class Op> static void alone(const char* who, const Data& D, double t0, double tf, const std::vector<double>& nodes) {
        auto o = std::allocate_shared<Op>(Eigen::aligned_allocator<Op>()); typename Op::var_t var; typename Op::constr_t e; const double eps = 2.3e-16; double ts = std::abs(tf - t0) / (2 * S);
        for (int k = 0; k < N; k++) for (int i = 0; i < NX; i++) { L tau = (nodes[k] - L(D.tm)) / D.h; L xj = D.x[(i + 1) % NX].val(tau); var(k * NX + i) = double(D.x[i].val(tau)); var(NXX + k * NX + i) = double(D.x[i].der(tau) / D.h - D.a[i] * xj * xj); } for (int i = 0; i < NX; i++) var(2 * NXX + i) = D.a[i];
        e.setConstant(777); (*o)(var, e, t0, tf); typename Op::constr_t b; b.setConstant(777); typename Op::jacobian_t J(int(NXX), int(2 * NXX + NX)); o->linearized(var, J, b, t0, tf);
        for (int k = 0; k < N; k++) for (int i = 0; i < NX; i++) { double xm = D.x[(i + 1) % NX].mag(), tol = 2000 * eps * (P * P * D.x[i].mag() * P + ts * (D.x[i].dmag() / std::abs(D.h) + std::abs(D.a[i]) * xm * xm)) + 4 * P * P * eps * D.x[i].dmag();
            CHECK(std::abs(e(k * NX + i)) <= tol, who << ": the defect of an exact polynomial solution at node " << k << ", state " << i << " is " << e(k * NX + i)); CHECK(std::abs(b(k * NX + i)) <= tol, who << ": the linearised defect of an exact polynomial solution at node " << k << ", state " << i << " is " << b(k * NX + i)); }
    }
    static void operators(pbt::Src& s, pbt::Ctx& c) {
        double t0 = s.flag(0.4) ? 0 : s.sym(20), tf = t0 + s.logreal(0.05, 20); Data D; D.tm = (t0 + tf) / 2; D.h = (tf - t0) / 2; int deg = 0; for (int i = 0; i < NX; i++) { D.x.push_back(gen_poly(s, P)); deg = std::max(deg, D.x.back().degree()); D.a.push_back(s.sym(2)); }
        c.say("t0", t0).say("tf", tf); for (auto& p : D.x) c.mat("x", Eigen::Map<const Eigen::RowVectorXd>(p.c.data(), p.c.size()));
        std::vector<double> nodes; for (int k = 0; k < N; k++) { int sg = std::min(k / P, S - 1), j = k - sg * P; double Ls = (tf - t0) / S; nodes.push_back(tf - sg * Ls - Ls / 2 + Ls / 2 * std::cos(M_PI * j / P)); }
        alone<polympc::ode_collocation<F, Ch, S>>("ode_collocation", D, t0, tf, nodes); if (S >= 2) alone<polympc::sparse_ode_collocation<F, Ch, (S >= 2 ? S : 2)>>("sparse_ode_collocation", D, t0, tf, nodes);
        using CO = polympc::cost_collocation<Lg, My, Ch, S>; auto o = std::allocate_shared<CO>(Eigen::aligned_allocator<CO>()); typename CO::var_t var; var.setZero(); for (int k = 0; k < N; k++) for (int i = 0; i < NX; i++) var(k * NX + i) = D.x[i].val((nodes[k] - D.tm) / D.h);
        double cost = 777; (*o)(var, cost, t0, tf); L in = 0; for (int i = 0; i <= P; i += 2) in += 2 * (L(D.x[0].c[i]) - 2 * L(D.x[NX - 1].c[i])) / (i + 1); in *= D.h; in += 3 * D.x[NX - 1].val(L(1));
        CHECK(std::abs(cost - in) <= 1e-12 * P * P * (1 + std::abs(tf - t0)) * (1 + std::abs(t0) / D.h) * (1 + D.x[0].mag() + 2 * D.x[NX - 1].mag()), "cost_collocation gives " << cost << ", the exact integral plus terminal cost is " << double(in));
        c.nt(deg >= 2);
    }
};
}
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define POLY(Q, NX, NU, P, S) static pbt::Reg PBT_CAT(r_, __LINE__)("ocp_x" #NX "_u" #NU "_o" #P "_s" #S, c13::M13<NX, NU, P, S>::prop, Q, Q * 20);
#define OPER(Q, NX, P, S) static pbt::Reg PBT_CAT(q_, __LINE__)("operators_x" #NX "_o" #P "_s" #S, c13::M13<NX, 1, P, S>::operators, Q, Q * 20);
