// A user optimal control problem with run-time random functions, and an extended-precision reference of its transcription.
#pragma once
#include "expr.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"
namespace oc {
using namespace ex;
/** the run-time content of a problem, shared by the dense and the sparse formulation */
struct Spec { std::vector<Prog> f, g; Prog l, m; bool hl = true, hm = true; };
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT, class Sc = double> class Ocp;
}
template <int NX_, int NU_, int NP_, int ND_, int NG_, int P, int S, int FMT, class Sc> struct polympc_traits<oc::Ocp<NX_, NU_, NP_, ND_, NG_, P, S, FMT, Sc>> { using Scalar = Sc; enum { NX = NX_, NU = NU_, NP = NP_, ND = ND_, NG = NG_ }; };
namespace oc {
template <class Sc, int P, int S> using Appr = polympc::Spline<polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, Sc>, S>;
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT, class Sc> class Ocp : public ContinuousOCP<Ocp<NX, NU, NP, ND, NG, P, S, FMT, Sc>, Appr<Sc, P, S>, FMT> {
public:
    using Base = ContinuousOCP<Ocp<NX, NU, NP, ND, NG, P, S, FMT, Sc>, Appr<Sc, P, S>, FMT>;
    template <class T> using state_t = typename Base::template state_t<T>; template <class T> using control_t = typename Base::template control_t<T>;
    template <class T> using parameter_t = typename Base::template parameter_t<T>; template <class T> using constraint_t = typename Base::template constraint_t<T>;
    using typename Base::static_parameter_t; using typename Base::scalar_t;
    Spec sp;
    template <class T> struct In {
        std::vector<T, Eigen::aligned_allocator<T>> v; std::vector<double> q;
        template <class X, class U, class Q, class D> In(const X& x, const U& u, const Q& p, const D& d, const T& t) {
            for (int i = 0; i < NX; i++) v.push_back(x(i)); for (int i = 0; i < NU; i++) v.push_back(u(i)); for (int i = 0; i < NP; i++) v.push_back(p(i)); v.push_back(t);
            for (int i = 0; i < ND; i++) q.push_back(d(i)); q.push_back(0);
        }
    };
    template <typename T> void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const T& t, Eigen::Ref<state_t<T>> xdot) const noexcept { In<T> in(x, u, p, d, t); for (int i = 0; i < NX; i++) xdot(i) = run(sp.f[i], in.v.data(), in.q.data()); }
    template <typename T> void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, Eigen::Ref<constraint_t<T>> g) const noexcept { In<T> in(x, u, p, d, T(t)); for (int i = 0; i < NG; i++) g(i) = run(sp.g[i], in.v.data(), in.q.data()); }
    // without a running or terminal cost the argument stays untouched, as in the defaults of the base class
    template <typename T> void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, T& l) const noexcept { if (!sp.hl) return; In<T> in(x, u, p, d, T(t)); l = run(sp.l, in.v.data(), in.q.data()); }
    template <typename T> void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, T& m) const noexcept { if (!sp.hm) return; In<T> in(x, u, p, d, T(t)); m = run(sp.m, in.v.data(), in.q.data()); }
};
inline Spec gen_spec(pbt::Src& s, pbt::Ctx& c, int nx, int nu, int np, int nd, int ng) {
    Spec r; int len = s.pick({3, 5, 1, 8}); bool k = s.flag(0.15); int n = nx + nu + np + 1;
    for (int i = 0; i < nx; i++) r.f.push_back(gen(s, n, nd, len, k)); for (int i = 0; i < ng; i++) r.g.push_back(gen(s, n, nd, len, k));
    r.l = gen(s, n, nd, len, k); r.m = gen(s, n, nd, len, k); int z = s.range(0, 7); r.hl = z != 1; r.hm = z != 2; if (z == 3) r.hl = r.hm = false;
    for (auto& q : r.f) c.say("xdot", text(q)); for (auto& q : r.g) c.say("path", text(q)); if (r.hl) c.say("lagrange", text(r.l)); if (r.hm) c.say("mayer", text(r.m));
    return r;
}
using VL = Eigen::Matrix<L, Eigen::Dynamic, 1>; using ML = Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic>;
/** Chebyshev-Gauss-Lobatto points, differentiation matrix and quadrature weights of one segment, in descending order of the points */
template <int P> struct Coll {
    L c[P + 1], D[P + 1][P + 1], w[P + 1];
    Coll() {
        const L pi = acosl(-1.0L); for (int i = 0; i <= P; i++) c[i] = std::cos(pi * i / P); if (P % 2 == 0) c[P / 2] = 0;
        for (int i = 0; i <= P; i++) { D[i][i] = 0; for (int j = 0; j <= P; j++) if (j != i) { L r = 1 / (c[j] - c[i]); for (int k = 0; k <= P; k++) if (k != i && k != j) r *= (c[i] - c[k]) / (c[j] - c[k]); D[i][j] = r; D[i][i] += 1 / (c[i] - c[j]); } }
        for (int k = 0; k <= P; k++) {   // integrate the Lagrange basis polynomial k
            std::vector<L> a{1}; for (int j = 0; j <= P; j++) if (j != k) { std::vector<L> b(a.size() + 1, 0); for (size_t i = 0; i < a.size(); i++) { b[i + 1] += a[i] / (c[k] - c[j]); b[i] -= a[i] * c[j] / (c[k] - c[j]); } a = b; }
            w[k] = 0; for (size_t i = 0; i < a.size(); i += 2) w[k] += 2 * a[i] / (i + 1);
        }
        for (int i = 0; i <= P; i++) CHECK(std::isfinite(D[i][i]), "reference");
    }
};
/** value, gradient, Hessian and rounding magnitudes over all variables of the transcription */
struct Full { L v = 0, vm = 0; VL g, gm; ML h, hm; };
template <int NX, int NU, int NP, int NG, int P, int S> struct Ref {
    static constexpr int NA = NX + NU + NP, N = P * S + 1, NXX = NX * N, NUU = NU * N, NV = NXX + NUU + NP, NE = NXX, NI = NG * N, NC = NE + NI;
    using J = Jet;
    std::vector<J> f[NX > 0 ? NX : 1], l, m; std::vector<std::vector<J>> g; Coll<P> co; L ts; VL x; bool hl, hm;
    static int idx(int k, int i) { return i < NX ? k * NX + i : i < NX + NU ? NXX + k * NU + (i - NX) : NXX + NUU + (i - NX - NU); }
    template <class O, class V, class D> Ref(const O& o, const V& var, const D& d, double t0, double tf) : hl(o.sp.hl), hm(o.sp.hm) {
        ts = (L(tf) - L(t0)) / (2 * S); x.resize(NV); for (int i = 0; i < NV; i++) x(i) = var(i); std::vector<double> q; for (int i = 0; i < d.size(); i++) q.push_back(d(i)); q.push_back(0);
        for (int k = 0; k < N; k++) {
            std::vector<J> in; for (int i = 0; i < NA; i++) in.push_back(J::var(double(var(idx(k, i))), i, NA)); in.push_back(J(double(o.time_nodes(k))));
            auto ev = [&](const Prog& p) { J r = run(p, in.data(), q.data()); if (!r.finite()) throw pbt::Discard{}; return r; };
            for (int i = 0; i < NX; i++) f[i].push_back(ev(o.sp.f[i])); std::vector<J> gk; for (int i = 0; i < NG; i++) gk.push_back(ev(o.sp.g[i])); g.push_back(gk); l.push_back(hl ? ev(o.sp.l) : J(0.0)); if (k == 0) m.push_back(hm ? ev(o.sp.m) : J(0.0));
        }
    }
    static void zero(Full& r) { r.g = r.gm = VL::Zero(NV); r.h = r.hm = ML::Zero(NV, NV); }
    static void add(Full& r, int k, const J& j, L c) {
        r.v += c * j.v; r.vm += std::abs(c) * j.vm; L a = std::abs(c);
        for (int i = 0; i < NA; i++) { r.g(idx(k, i)) += c * j.g(i); r.gm(idx(k, i)) += a * j.gm(i); for (int n = 0; n < NA; n++) { r.h(idx(k, i), idx(k, n)) += c * j.h(i, n); r.hm(idx(k, i), idx(k, n)) += a * j.hm(i, n); } }
    }
    Full cost() const { Full r; zero(r); for (int s = 0; s < S; s++) for (int k = 0; k <= P; k++) if (hl) add(r, s * P + k, l[s * P + k], ts * co.w[k]); if (hm) add(r, 0, m[0], 1); return r; }
    /** row n, state i of the collocated dynamics: the segment that starts at the node, the last segment for the last node */
    int seg(int n) const { return std::min(n / P, S - 1); }
    L dcoef(int n, int j) const { int s = seg(n), a = n - s * P, b = j - s * P; return b < 0 || b > P ? 0 : co.D[a][b]; }
    void con(VL& c, VL& cm, ML& Jc, ML& Jm) const {
        c = cm = VL::Zero(NC); Jc = Jm = ML::Zero(NC, NV);
        for (int n = 0; n < N; n++) for (int i = 0; i < NX; i++) {
            int r = n * NX + i, s = seg(n); L row = 0; for (int b = 0; b <= P; b++) row += std::abs(co.D[n - s * P][b]);
            for (int b = 0; b <= P; b++) { int j = s * P + b; L d = dcoef(n, j); c(r) += d * x(j * NX + i); cm(r) += (std::abs(d) + (j == n ? row : 0)) * std::abs(x(j * NX + i)); Jc(r, j * NX + i) += d; Jm(r, j * NX + i) += std::abs(d) + (j == n ? row : 0); }
            const J& F = f[i][n]; c(r) -= ts * F.v; cm(r) += std::abs(ts) * F.vm; for (int a = 0; a < NA; a++) { Jc(r, idx(n, a)) -= ts * F.g(a); Jm(r, idx(n, a)) += std::abs(ts) * F.gm(a); }
        }
        for (int n = 0; n < N; n++) for (int i = 0; i < NG; i++) { int r = NE + n * NG + i; const J& G = g[n][i]; c(r) = G.v; cm(r) = G.vm; for (int a = 0; a < NA; a++) { Jc(r, idx(n, a)) = G.g(a); Jm(r, idx(n, a)) = G.gm(a); } }
    }
    /** Lagrangian with the cost Hessian (only) scaled */
    template <class Y> Full lag(const Y& lam, double hs) const {
        Full r = cost(); r.h *= L(hs); r.hm *= std::abs(L(hs)); VL c, cm; ML Jc, Jm; con(c, cm, Jc, Jm);
        for (int i = 0; i < NC; i++) { L y = lam(i); r.v += y * c(i); r.vm += std::abs(y) * cm(i); r.g += y * Jc.row(i).transpose(); r.gm += std::abs(y) * Jm.row(i).transpose(); }
        for (int i = 0; i < NV; i++) { L y = lam(NC + i); r.v += y * x(i); r.vm += std::abs(y * x(i)); r.g(i) += y; r.gm(i) += std::abs(y); }
        for (int n = 0; n < N; n++) { auto h2 = [&](const J& j, L cc) { for (int i = 0; i < NA; i++) for (int k = 0; k < NA; k++) { r.h(idx(n, i), idx(n, k)) += cc * j.h(i, k); r.hm(idx(n, i), idx(n, k)) += std::abs(cc) * j.hm(i, k); } };
            for (int i = 0; i < NX; i++) h2(f[i][n], -ts * L(lam(n * NX + i))); for (int i = 0; i < NG; i++) h2(g[n][i], L(lam(NE + n * NG + i))); }
        return r;
    }
};
inline bool nonaffine(const Spec& s) { bool r = (s.hl && s.l.ins.size()) || (s.hm && s.m.ins.size()); for (auto& q : s.f) r |= q.ins.size() > 0; for (auto& q : s.g) r |= q.ins.size() > 0; return r; }

/** dense or sparse evaluation routines behind one interface; matrices persist between calls (as in a solver) or are fresh */
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT, class Sc = double> struct Dut {
    using O = Ocp<NX, NU, NP, ND, NG, P, S, FMT, Sc>; using R = Ref<NX, NU, NP, NG, P, S>;
    static constexpr double EP = std::numeric_limits<Sc>::epsilon();
    static constexpr int NV = O::VAR_SIZE, NE = O::NUM_EQ, NI = O::NUM_INEQ, NC = NE + NI; static constexpr double K = 200;
    using V = typename O::nlp_variable_t; using D = typename O::static_parameter_t; using Y = typename O::nlp_dual_t;
    O o; double t0 = 0, tf = 1;
    typename O::nlp_eq_jacobian_t je; typename O::nlp_ineq_jacobian_t ji; typename O::nlp_jacobian_t jc; typename O::nlp_hessian_t h;
    typename O::nlp_jacobian_t jc0; typename O::nlp_hessian_t h0; bool have_j = false, have_h = false;
    bool persist = true; const char* who = FMT == SPARSE ? "sparse" : "dense";
    Dut() { je = typename O::nlp_eq_jacobian_t(int(NE), int(NV)); ji = typename O::nlp_ineq_jacobian_t(int(NI), int(NV)); jc = typename O::nlp_jacobian_t(int(NC), int(NV)); h = typename O::nlp_hessian_t(int(NV), int(NV)); }
    template <class M> static void junk(M& m) { m.setConstant(777); }
    static void junk(Eigen::SparseMatrix<Sc>& m) { m = Eigen::SparseMatrix<Sc>(m.rows(), m.cols()); }
    template <class M> static void junkp(M& m, bool) { m.setConstant(777); }
    static void junkp(Eigen::SparseMatrix<Sc>& m, bool persist) { if (!persist) junk(m); else for (int k = 0; k < m.outerSize(); k++) for (typename Eigen::SparseMatrix<Sc>::InnerIterator it(m, k); it; ++it) it.valueRef() = 777; }
    void fresh() { if (FMT == DENSE || !persist) { junk(je); junk(ji); junk(jc); junk(h); } }
    void horizon(double a, double b) { o.set_time_limits(Sc(a), Sc(b)); t0 = Sc(a); tf = Sc(b); }
    void short_hessian(std::integral_constant<int, DENSE>, const V& var, const D& d, const Y& lam, const Full& l) { V lg = V::Constant(NV, Sc(777)); h.setConstant(777); Sc f = 777; o.lagrangian_gradient_hessian(var, d, lam, f, lg, h);
        ckg("Lagrangian gradient (Hessian, short form)", lg, l.g, l.gm); ckm("Lagrangian Hessian (short form)", h, l.h, l.hm, 0, NV); }
    void short_hessian(std::integral_constant<int, SPARSE>, const V&, const D&, const Y&, const Full&) {}   // takes Ref<Hessian>: no sparse form
    template <class A> static L at(const A& m, int i, int j) { return m.coeff(i, j); }
    void ckv(const char* w, double got, L v, L m) const { CHECK(near(got, v, m, K, EP), who << " " << w << " is " << got << " expected " << double(v)); }
    template <class G> void ckg(const char* w, const G& got, const VL& v, const VL& m, int first = 0) const { for (int i = 0; i < int(got.size()); i++) CHECK(near(got(i), v(first + i), m(first + i), K, EP), who << " " << w << " " << i << " is " << got(i) << " expected " << double(v(first + i))); }
    template <class M> void ckm(const char* w, const M& got_, const ML& v, const ML& m, int r0, int rows) const { Eigen::Matrix<Sc, -1, -1> got = got_; CHECK(got.rows() == rows && got.cols() == NV, w << " has the wrong size"); for (int i = 0; i < rows; i++) for (int j = 0; j < NV; j++) CHECK(near(got(i, j), v(r0 + i, j), m(r0 + i, j), K, EP), who << " " << w << " " << i << "," << j << " is " << got(i, j) << " expected " << double(v(r0 + i, j))); }
    template <class M> static bool same_pattern(const M&, const M&) { return true; }
    static bool same_pattern(const Eigen::SparseMatrix<Sc>& a, const Eigen::SparseMatrix<Sc>& b) {
        if (a.nonZeros() != b.nonZeros()) return false;
        for (int k = 0; k < a.outerSize(); k++) { typename Eigen::SparseMatrix<Sc>::InnerIterator p(a, k), q(b, k); for (; p && q; ++p, ++q) if (p.row() != q.row()) return false; if (p || q) return false; } return true;
    }
    void pattern_j(const typename O::nlp_jacobian_t& m) { if (have_j) CHECK(same_pattern(m, jc0), "the pattern of the Jacobian changed"); jc0 = m; have_j = true; }
    void pattern_h(const typename O::nlp_hessian_t& m) { if (have_h) CHECK(same_pattern(m, h0), "the pattern of the Hessian changed"); h0 = m; have_h = true; }
    static constexpr int NVAL = 4, NDER = 8, NCALL = 13;
    struct Loc { Sc& f; V& cg; V& lg; typename O::nlp_constraints_t& cc; typename O::nlp_eq_constraints_t& ce; typename O::nlp_ineq_constraints_t& ci; VL &c, &cm; ML &J, &Jm; Full& F; };
    void part(std::integral_constant<int, 0>, int kind, const R& r, const V& var, const D& d, const Y& lam, double cs, Loc& z) {
        Sc& f = z.f; V& cg = z.cg; V& lg = z.lg; auto& cc = z.cc; auto& ce = z.ce; auto& ci = z.ci; auto& c = z.c; auto& cm = z.cm; auto& J = z.J; auto& Jm = z.Jm; auto& F = z.F; const double G = 777;
        switch (kind) {
        case 0: o.cost(var, d, f); ckv("cost", f, F.v, F.vm); break;
        case 1: o.equalities(var, d, ce); ckg("dynamic constraint", ce, c, cm); break;
        case 2: o.inequalities(var, d, ci); ckg("path constraint", ci, c, cm, NE); break;
        case 3: o.constraints(var, d, cc); ckg("constraint", cc, c, cm); break;
        default: break; }
    }
    void part(std::integral_constant<int, 1>, int kind, const R& r, const V& var, const D& d, const Y& lam, double cs, Loc& z) {
        Sc& f = z.f; V& cg = z.cg; V& lg = z.lg; auto& cc = z.cc; auto& ce = z.ce; auto& ci = z.ci; auto& c = z.c; auto& cm = z.cm; auto& J = z.J; auto& Jm = z.Jm; auto& F = z.F; const double G = 777;
        switch (kind) {
        case 4: o.cost_gradient(var, d, f, cg); ckv("cost (gradient)", f, F.v, F.vm); ckg("cost gradient", cg, F.g, F.gm); break;
        case 5: o.equalities_linearised(var, d, ce, je); ckg("dynamic constraint (Jacobian)", ce, c, cm); ckm("dynamics Jacobian", je, J, Jm, 0, NE); break;
        case 6: o.inequalities_linearised(var, d, ci, ji); if (NG) { ckg("path constraint (Jacobian)", ci, c, cm, NE); ckm("path constraint Jacobian", ji, J, Jm, NE, NI); } break;
        case 7: o.constraints_linearised(var, d, cc, jc); ckg("constraint (Jacobian)", cc, c, cm); ckm("constraint Jacobian", jc, J, Jm, 0, NC); pattern_j(jc); break;
        default: part(std::integral_constant<int, 0>(), kind, r, var, d, lam, cs, z); }
    }
    void part(std::integral_constant<int, 2>, int kind, const R& r, const V& var, const D& d, const Y& lam, double cs, Loc& z) {
        Sc& f = z.f; V& cg = z.cg; V& lg = z.lg; auto& cc = z.cc; auto& ce = z.ce; auto& ci = z.ci; auto& c = z.c; auto& cm = z.cm; auto& J = z.J; auto& Jm = z.Jm; auto& F = z.F; const double G = 777;
        switch (kind) {
        case 8: o.cost_gradient_hessian(var, d, f, cg, h); ckv("cost (Hessian)", f, F.v, F.vm); ckg("cost gradient (Hessian)", cg, F.g, F.gm); ckm("cost Hessian", h, F.h, F.hm, 0, NV); pattern_h(h); break;
        case 9: { o.lagrangian(var, d, lam, f); Full l = r.lag(lam, 1); ckv("Lagrangian", f, l.v, l.vm); f = Sc(G); o.lagrangian(var, d, lam, f, cc); ckv("Lagrangian (with constraints)", f, l.v, l.vm); ckg("constraint (Lagrangian)", cc, c, cm); break; }
        case 10: { o.lagrangian_gradient(var, d, lam, f, lg, cg, cc, jc); Full l = r.lag(lam, 1); ckg("Lagrangian gradient", lg, l.g, l.gm); ckg("cost gradient (Lagrangian)", cg, F.g, F.gm); ckg("constraint (Lagrangian)", cc, c, cm); ckm("constraint Jacobian (Lagrangian)", jc, J, Jm, 0, NC); pattern_j(jc);
            V l5 = V::Constant(NV, Sc(G)); o.lagrangian_gradient(var, d, lam, f, l5); ckg("Lagrangian gradient (short form)", l5, l.g, l.gm); break; }
        case 11: case 12: { double q = 1; if (kind == 11) o.lagrangian_gradient_hessian(var, d, lam, f, lg, h, cg, cc, jc); else { q = Sc(cs); o.lagrangian_gradient_hessian(var, d, lam, f, lg, h, cg, cc, jc, Sc(cs)); }
            Full l = r.lag(lam, q); ckg("Lagrangian gradient (Hessian)", lg, l.g, l.gm); ckg("cost gradient (Lagrangian Hessian)", cg, F.g, F.gm); ckg("constraint (Lagrangian Hessian)", cc, c, cm); ckm("constraint Jacobian (Lagrangian Hessian)", jc, J, Jm, 0, NC); ckm("Lagrangian Hessian", h, l.h, l.hm, 0, NV); pattern_j(jc); pattern_h(h);
            Eigen::Matrix<Sc, -1, -1> H = h; for (int i = 0; i < NV; i++) for (int j = 0; j < i; j++) CHECK(std::abs(L(H(i, j)) - L(H(j, i))) <= K * EP * (l.hm(i, j) + l.hm(j, i)) + EP * EP, who << " Lagrangian Hessian is not symmetric at " << i << "," << j);
            if (kind == 11) short_hessian(std::integral_constant<int, FMT>(), var, d, lam, l); }
        break; default: part(std::integral_constant<int, 1>(), kind, r, var, d, lam, cs, z); }
    }
    /** one call of the given kind, checked against the reference; LEVEL bounds the derivative order compiled in */
    template <int LEVEL> void call(int kind, const R& r, const V& var, const D& d, const Y& lam, double cs) {
        const V v0 = var; const D d0 = d; const double G = 777; fresh(); Sc f = Sc(G); V cg = V::Constant(NV, Sc(G)), lg = cg; typename O::nlp_constraints_t cc = O::nlp_constraints_t::Constant(NC, Sc(G)); typename O::nlp_eq_constraints_t ce = O::nlp_eq_constraints_t::Constant(NE, Sc(G)); typename O::nlp_ineq_constraints_t ci = O::nlp_ineq_constraints_t::Constant(NI, Sc(G));
        VL c, cm; ML J, Jm; Full F; if (kind == 1 || kind == 2 || kind == 3 || (kind >= 5 && kind != 8)) r.con(c, cm, J, Jm); if (kind == 0 || kind == 4 || kind >= 8) F = r.cost();
        Loc z{f, cg, lg, cc, ce, ci, c, cm, J, Jm, F}; part(std::integral_constant<int, LEVEL>(), kind, r, var, d, lam, cs, z);
        CHECK(var == v0 && d == d0, "arguments changed");
    }
    void nodes() const {
        const L A = t0, B = tf, Lg = (B - A) / S; Coll<P> co; for (int s = 0; s < S; s++) for (int k = 0; k <= P; k++) { L t = B - s * Lg - Lg / 2 + Lg / 2 * co.c[k]; CHECK(std::abs(L(o.time_nodes(s * P + k)) - t) <= 16 * EP * (std::abs(A) + std::abs(B)), "time node " << s * P + k << " is " << o.time_nodes(s * P + k) << " expected " << double(t)); }
    }
};
/** a horizon; a third of them lie on a coarse dyadic grid so that consecutive horizons of exactly equal length (receding horizon) occur */
inline void gen_horizon(pbt::Src& s, double& a, double& b) {
    if (s.flag(0.35)) { a = s.range(-6, 6) * 0.5; b = a + (s.flag(0.7) ? 1.0 : 0.5); }
    else { a = s.flag(0.4) ? 0 : s.sym(5); b = a + s.logreal(0.05, 8); }
    if (s.flag(0.1)) std::swap(a, b);
}
}
