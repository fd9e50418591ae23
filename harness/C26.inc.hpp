// Stand-alone collocation operators against extended-precision evaluation of random functors.
#pragma once
#include <memory>
#include "ocp_common.hpp"
#include "polynomials/legendre.hpp"
#include "control/cost_collocation.hpp"
#include "control/ode_collocation.hpp"
#include "control/sparse_ode_collocation.hpp"
#include "control/constraints_collocation.hpp"
namespace c26 {
using namespace ex; using oc::VL; using oc::ML; using oc::Coll;
/** what the default constructor of the functors starts from */
template <int N> struct Cur { static std::vector<Prog> v; };
template <int N> std::vector<Prog> Cur<N>::v;
template <class Sc, int NX, int NU, int NP> struct Types { using Scalar = Sc; using State = Eigen::Matrix<Sc, NX, 1>; using Control = Eigen::Matrix<Sc, NU, 1>; using Parameters = Eigen::Matrix<Sc, NP, 1>; };
/** vector function of state, control and (plain) parameters; WHICH distinguishes dynamics and constraints */
template <class Sc, int NX, int NU, int NP, int WHICH> struct Fun : Types<Sc, NX, NU, NP> {
    std::vector<Prog> p; Fun() : p(Cur<WHICH>::v) {} Fun(const std::vector<Prog>& q) : p(q) {}
    template <class X, class U, class Q> static void inputs(const X& x, const U& u, const Q& q, std::vector<typename X::Scalar, Eigen::aligned_allocator<typename X::Scalar>>& v, std::vector<double>& d) { for (int i = 0; i < NX; i++) v.push_back(x(i)); for (int i = 0; i < NU; i++) v.push_back(u(i)); for (int i = 0; i < NP; i++) d.push_back(q(i)); d.push_back(0); }
    template <class X, class U, class Q, class Y> void operator()(const X& x, const U& u, const Q& q, Y& y) const { std::vector<typename X::Scalar, Eigen::aligned_allocator<typename X::Scalar>> v; std::vector<double> d; inputs(x, u, q, v, d); for (size_t i = 0; i < p.size(); i++) y(int(i)) = run(p[i], v.data(), d.data()); }
};
template <class Sc, int NX, int NU, int NP> struct Lag : Types<Sc, NX, NU, NP> {
    Prog p; Lag() : p(Cur<10>::v.at(0)) {} Lag(const Prog& q) : p(q) {}
    template <class X, class U, class Q, class Y> void operator()(const X& x, const U& u, const Q& q, Y& y) const { std::vector<typename X::Scalar, Eigen::aligned_allocator<typename X::Scalar>> v; std::vector<double> d; Fun<Sc, NX, NU, NP, 0>::inputs(x, u, q, v, d); y = run(p, v.data(), d.data()); }
};
template <class Sc, int NX, int NU, int NP> struct May : Types<Sc, NX, NU, NP> {
    Prog p; May() : p(Cur<11>::v.at(0)) {} May(const Prog& q) : p(q) {}
    template <class X, class Y> void operator()(const X& x, Y& y) const { std::vector<typename X::Scalar, Eigen::aligned_allocator<typename X::Scalar>> v; for (int i = 0; i < NX; i++) v.push_back(x(i)); y = run(p, v.data()); }
};
/** differentiation matrix of one segment: exact for Chebyshev points; for Legendre points the basis' own (decided by C19) */
template <class B> struct Diff;
template <int P, class Sc> struct Diff<polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, Sc>> { static constexpr bool CHEB = true; static ML get() { Coll<P> c; ML d(P + 1, P + 1); for (int i = 0; i <= P; i++) for (int j = 0; j <= P; j++) d(i, j) = c.D[i][j]; return d; } };
template <int P, class Sc> struct Diff<polympc::Legendre<P, polympc::GAUSS_LOBATTO, Sc>> { static constexpr bool CHEB = false; static ML get() { polympc::Legendre<P, polympc::GAUSS_LOBATTO, Sc> b; return b.D().template cast<L>(); } };

template <class Sc, class B, int NX, int NU, int NP, int NG, int S, bool COST> struct Case {
    static constexpr int P = B::POLY_ORDER, N = P * S + 1, NA = NX + NU, NXX = NX * N, NUU = NU * N, NV = NXX + NUU + NP; static constexpr double EP = std::numeric_limits<Sc>::epsilon(), K = 200;
    using Dyn = Fun<Sc, NX, NU, NP, 0>; using Con = Fun<Sc, NX, NU, NP, 1>; using LT = Lag<Sc, NX, NU, NP>; using MT = May<Sc, NX, NU, NP>; using V = Eigen::Matrix<Sc, NV, 1>; using C = Eigen::Matrix<Sc, NXX, 1>;
    using DO = polympc::ode_collocation<Dyn, B, S>; using SO = polympc::sparse_ode_collocation<Dyn, B, S>; using KO = polympc::constraint_collocation<NX, NU, NP, B, S>;
    static int idx(int k, int i) { return i < NX ? k * NX + i : NXX + k * NU + (i - NX); }
    struct Ev { std::vector<std::vector<Jet>> f, g; std::vector<Jet> l; Jet m; };
    std::vector<Prog> f, g; Prog l, m; ML D = Diff<B>::get(); V var; Ev e; Sc t0 = -1, tf = 1;
    static L clean(const Jet& j) { if (!j.finite()) throw pbt::Discard{}; return 0; }
    void eval() {
        e = Ev(); std::vector<double> q; for (int i = 0; i < NP; i++) q.push_back(var(NXX + NUU + i)); q.push_back(0);
        for (int k = 0; k < N; k++) {
            std::vector<Jet> in; for (int i = 0; i < NA; i++) in.push_back(Jet::var(var(idx(k, i)), i, NA));
            auto ev = [&](const Prog& p) { Jet r = run(p, in.data(), q.data()); clean(r); return r; };
            std::vector<Jet> a, b; for (auto& p : f) a.push_back(ev(p)); for (auto& p : g) b.push_back(ev(p)); e.f.push_back(a); e.g.push_back(b); if (COST) { e.l.push_back(ev(l)); if (k == 0) { e.m = run(m, in.data()); clean(e.m); } }
        }
    }
    static void ck(const char* w, int i, int j, double got, L v, L mag) { CHECK(near(got, v, mag, K, EP), w << " " << i << "," << j << " is " << got << " expected " << double(v) << " mag " << double(mag)); }
    void dyn(VL& c, VL& cm, ML& J, ML& Jm) const {
        c = cm = VL::Zero(NXX); J = Jm = ML::Zero(NXX, NV); L ts = (L(tf) - L(t0)) / (2 * S);
        for (int n = 0; n < N; n++) for (int i = 0; i < NX; i++) {
            int r = n * NX + i, s = std::min(n / P, S - 1), a = n - s * P; L row = 0; for (int b = 0; b <= P; b++) row += std::abs(D(a, b));
            for (int b = 0; b <= P; b++) { int j = s * P + b; L d = D(a, b), dm = std::abs(d) + (j == n ? row : 0), x = var(j * NX + i); c(r) += d * x; cm(r) += dm * std::abs(x); J(r, j * NX + i) += d; Jm(r, j * NX + i) += dm; }
            const Jet& F = e.f[n][i]; c(r) -= ts * F.v; cm(r) += std::abs(ts) * F.vm; for (int k = 0; k < NA; k++) { J(r, idx(n, k)) -= ts * F.g(k); Jm(r, idx(n, k)) += std::abs(ts) * F.gm(k); }
        }
    }
    template <class A> void ckdyn(const char* w, const C& b, const A* jac) const {
        VL c, cm; ML J, Jm; dyn(c, cm, J, Jm); for (int i = 0; i < NXX; i++) ck(w, i, 0, b(i), c(i), cm(i));
        if (jac) { Eigen::Matrix<Sc, -1, -1> d = *jac; CHECK(d.rows() == NXX && d.cols() == NV, w << ": size of the Jacobian"); for (int i = 0; i < NXX; i++) for (int j = 0; j < NV; j++) ck(w, i, j, d(i, j), J(i, j), Jm(i, j)); }
    }
    template <class CO> void ckcost(const char* w, Sc v, const V* gr, const typename CO::hessian_t* h) const {
        Coll<P> co; L ts = (L(tf) - L(t0)) / (2 * S), val = e.m.v, vm = e.m.vm; VL G = VL::Zero(NV), Gm = G; ML H = ML::Zero(NV, NV), Hm = H;
        auto add = [&](int k, const Jet& j, L c) { for (int i = 0; i < NA; i++) { G(idx(k, i)) += c * j.g(i); Gm(idx(k, i)) += std::abs(c) * j.gm(i); for (int n = 0; n < NA; n++) { H(idx(k, i), idx(k, n)) += c * j.h(i, n); Hm(idx(k, i), idx(k, n)) += std::abs(c) * j.hm(i, n); } } };
        add(0, e.m, 1); for (int s = 0; s < S; s++) for (int k = 0; k <= P; k++) { val += ts * co.w[k] * e.l[s * P + k].v; vm += std::abs(ts) * co.w[k] * e.l[s * P + k].vm; add(s * P + k, e.l[s * P + k], ts * co.w[k]); }
        ck(w, 0, 0, v, val, vm); if (gr) for (int i = 0; i < NV; i++) ck("cost gradient", i, 0, (*gr)(i), G(i), Gm(i)); if (h) for (int i = 0; i < NV; i++) for (int j = 0; j < NV; j++) ck("cost Hessian", i, j, (*h)(i, j), H(i, j), Hm(i, j));
    }
    struct Nothing {}; 
    using CO = typename std::conditional<COST, polympc::cost_collocation<LT, MT, B, S>, Nothing>::type;
    static CO* make(std::true_type, bool given, const Prog& l, const Prog& m) { return given ? new CO(LT(l), MT(m)) : new CO(); }
    static CO* make(std::false_type, bool, const Prog&, const Prog&) { return new CO(); }
    template <class Z> void cost(std::true_type, Z& o, int kind, bool def) {
        Sc v = 777; V gr = V::Constant(777); typename Z::hessian_t h = Z::hessian_t::Constant(777);
        if (kind == 0) { if (def) o(var, v); else o(var, v, t0, tf); ckcost<Z>("cost", v, nullptr, nullptr); }
        else if (kind == 1) { if (def) o.value_gradient(var, v, gr); else o.value_gradient(var, v, gr, t0, tf); ckcost<Z>("cost (gradient)", v, &gr, nullptr); }
        else { if (def) o.value_gradient_hessian(var, v, gr, h); else o.value_gradient_hessian(var, v, gr, h, t0, tf); ckcost<Z>("cost (Hessian)", v, &gr, &h); }
    }
    template <class Z> void cost(std::false_type, Z&, int, bool) {}
    void go(pbt::Src& s, pbt::Ctx& c) {
        int len = s.pick({3, 5, 1, 7}); bool kink = s.flag(0.15); for (int i = 0; i < NX; i++) f.push_back(gen(s, NA, NP, len, kink)); for (int i = 0; i < NG; i++) g.push_back(gen(s, NA, NP, len, kink)); l = gen(s, NA, NP, len, kink); m = gen(s, NX, 0, len, kink);
        for (auto& p : f) c.say("xdot", text(p)); for (auto& p : g) c.say("path", text(p)); if (COST) { c.say("lagrange", text(l)); c.say("mayer", text(m)); }
        bool given = s.flag(0.4); Cur<0>::v = f; Cur<1>::v = g; Cur<10>::v = {l}; Cur<11>::v = {m}; std::vector<Prog> other; if (given) { std::vector<Prog> x; Prog id; id.nin = NA; id.out = {{0, 1.0}}; for (int i = 0; i < std::max(NX, NG); i++) x.push_back(id); Cur<0>::v = x; Cur<1>::v = x; Prog im = id; im.nin = NX; Cur<10>::v = {id}; Cur<11>::v = {im}; }
        c.say("functors", given ? "passed to the constructor" : "default constructed");
        Dyn F(f); Con Gf(g); std::unique_ptr<DO> d(given ? new DO(F) : new DO()); std::unique_ptr<SO> sp(given ? new SO(F) : new SO()); std::unique_ptr<CO> co(make(std::integral_constant<bool, COST>(), given, l, m)); KO ko; const Con& cg = Gf;
        typename DO::jacobian_t* Ad = new typename DO::jacobian_t(); std::unique_ptr<typename DO::jacobian_t> own(Ad); Ad->setConstant(777); typename SO::jacobian_t As{int(NXX), int(NV)}; bool used = false, fresh = s.flag(0.25); int nt = 0; size_t nnz = 0;
        int steps = s.range(1, 5); for (int k = 0; k < steps; k++) {
            double scale = s.pick({1.0, 3.0, 0.1}); for (int i = 0; i < NV; i++) var(i) = Sc(s.sym(scale)); bool def = s.flag(0.2); double a = def ? -1 : s.pick({0.0, -1.0, s.sym(5)}), h = def ? 2 : s.logreal(1e-2, 10); t0 = Sc(a); tf = Sc(a + h);
            eval(); C b = C::Constant(777); int kind = s.range(0, 7); c.say("call", kind); c.mat("var", var.transpose()); c.say("t0", t0); c.say("tf", tf);
            switch (kind) {
            case 0: if (def) (*d)(var, b); else (*d)(var, b, t0, tf); ckdyn<typename DO::jacobian_t>("dynamics (dense)", b, nullptr); break;
            case 1: if (def) d->linearized(var, *Ad, b); else d->linearized(var, *Ad, b, t0, tf); ckdyn("dynamics Jacobian (dense)", b, Ad); nt++; break;
            case 2: if (def) (*sp)(var, b); else (*sp)(var, b, t0, tf); ckdyn<typename DO::jacobian_t>("dynamics (sparse)", b, nullptr); break;
            case 3: case 4: if (fresh) { As = typename SO::jacobian_t(int(NXX), int(NV)); used = false; }
                if (def) sp->linearized(var, As, b); else sp->linearized(var, As, b, t0, tf); ckdyn(used ? "dynamics Jacobian (sparse, again)" : "dynamics Jacobian (sparse)", b, &As); if (used) { CHECK(size_t(As.nonZeros()) == nnz, "the pattern changed from " << nnz << " to " << As.nonZeros()); c.label("same pattern"); } nnz = As.nonZeros(); used = true; nt++; break;
            case 5: { typename KO::template value_t<NG> y; y.setConstant(777); if (s.flag()) ko.template generic_function<Con, NG>(cg, var, y); else y = ko.template generic_function<Con, NG>(Gf, var); for (int n = 0; n < N; n++) for (int i = 0; i < NG; i++) ck("constraint", n, i, y(n * NG + i), e.g[n][i].v, e.g[n][i].vm); nt++; break; }
            default: cost(std::integral_constant<bool, COST>(), *co, kind == 6 ? s.range(0, 1) : 2, def); nt += COST; break;
            }
        }
        c.nt(nt > 0); c.label(given ? "given functors" : "default functors");
    }
};
template <class Sc, class B, int NX, int NU, int NP, int NG, int S> void prop(pbt::Src& s, pbt::Ctx& c) { std::unique_ptr<Case<Sc, B, NX, NU, NP, NG, S, Diff<B>::CHEB>> k(new Case<Sc, B, NX, NU, NP, NG, S, Diff<B>::CHEB>()); k->go(s, c); }
}  // namespace c26
#define CAT2_(a, b) a##b
#define CAT_(a, b) CAT2_(a, b)
#define OPS(CNT, SC, B, ORD, NX, NU, NP, NG, S) static pbt::Reg CAT_(r26_, __COUNTER__)(#B #ORD "_" #SC "_x" #NX "_u" #NU "_p" #NP "_g" #NG "_s" #S, c26::prop<SC, B<ORD, SC>, NX, NU, NP, NG, S>, CNT, CNT * 20);
template <int P, class Sc = double> using Ch = polympc::Chebyshev<P, polympc::GAUSS_LOBATTO, Sc>; template <int P, class Sc = double> using Le = polympc::Legendre<P, polympc::GAUSS_LOBATTO, Sc>;
