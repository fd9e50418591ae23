// Radial-basis kernel against extended-precision jets.
#pragma once
#include "expr.hpp"
#include "autodiff/rbf_kernel.hpp"
#include <iostream>
using namespace ex;
template <class Sc, int N> struct H28 {
    using K = rbf_kernel<N, Sc>; using V = Eigen::Matrix<Sc, N, 1>; using A1 = typename K::adscalar_t; using A2 = typename K::outer_adscalar_t; static constexpr double EP = std::numeric_limits<Sc>::epsilon(), T = 60;
    // types with another number of derivatives: arguments are functions of NZ variables
    static constexpr int NZ = N + 1; using Z1 = Eigen::AutoDiffScalar<Eigen::Matrix<Sc, NZ, 1>>; using Z2 = Eigen::AutoDiffScalar<Eigen::Matrix<Z1, NZ, 1>>;
    static Jet ref(const std::vector<Jet>& x, const V& y) { Jet q(0.0); for (int i = 0; i < N; i++) { Jet d = x[i] - Jet(double(y(i))); q = q + d * d; } Jet r = exp(-q); if (!r.finite()) throw pbt::Discard{}; return r; }
    static void ck(const char* w, double got, L v, L m) { CHECK(near(got, v, m, T, EP) || std::abs(v) + m * 100 < std::numeric_limits<Sc>::min() * 1e3, w << " is " << got << " expected " << double(v)); }
    template <class Z> static void seed2(Z& z, double v, int i, int n) { z.value().value() = Sc(v); z.value().derivatives().setZero(); z.value().derivatives()(i) = 1; for (int k = 0; k < n; k++) { z.derivatives()(k).value() = k == i; z.derivatives()(k).derivatives().setZero(); } }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        K k; V x, y; double sc = s.pick({1.0, 0.3, 3.0, 1e-3}); for (int i = 0; i < N; i++) { y(i) = Sc(s.sym(2)); x(i) = s.flag(0.1) ? y(i) : Sc(y(i) + s.sym(sc)); } c.mat("x", x.transpose()); c.mat("y", y.transpose());
        std::vector<Jet> xs; for (int i = 0; i < N; i++) xs.push_back(Jet::var(double(x(i)), i, N)); Jet r = ref(xs, y); c.nt(x != y && r.v > 1e-8L);
        V xc = x; Sc v = k.template eval<Sc>(xc, y); ck("value", v, r.v, r.vm); CHECK(v >= 0 && v <= 1, "value " << v << " is not in [0,1]"); CHECK(xc == x, "argument changed"); V yc = y; Sc w = k.template eval<Sc>(yc, x); CHECK(w == v, "not symmetric: " << v << " " << w); if (x == y) CHECK(v == 1, "value at zero distance is " << v);
        { Eigen::Matrix<A1, N, 1> a; for (int i = 0; i < N; i++) { a(i).value() = x(i); a(i).derivatives() = V::Unit(i); } A1 g = k.template eval<A1>(a, y); ck("value (first order)", g.value(), r.v, r.vm); for (int i = 0; i < N; i++) { ck("gradient", g.derivatives()(i), r.g(i), r.gm(i)); CHECK(a(i).value() == x(i), "argument changed"); } }
        { Eigen::Matrix<A2, N, 1> a; for (int i = 0; i < N; i++) seed2(a(i), x(i), i, N); A2 g = k.template eval<A2>(a, y); ck("value (second order)", g.value().value(), r.v, r.vm);
          for (int i = 0; i < N; i++) { ck("gradient (second order, inner)", g.value().derivatives()(i), r.g(i), r.gm(i)); ck("gradient (second order, outer)", g.derivatives()(i).value(), r.g(i), r.gm(i)); for (int j = 0; j < N; j++) ck("Hessian", g.derivatives()(i).derivatives()(j), r.h(i, j), r.hm(i, j)); } }
        // arguments that are functions of other variables
        std::vector<Prog> p; for (int i = 0; i < N; i++) p.push_back(gen(s, NZ, 0, s.pick({0, 2}))); std::vector<double> z; for (int i = 0; i < NZ; i++) z.push_back(Sc(s.sym(1.5)));
        std::vector<Jet> zj; for (int i = 0; i < NZ; i++) zj.push_back(Jet::var(z[i], i, NZ)); std::vector<Jet> u; for (auto& q : p) { u.push_back(run(q, zj.data())); if (!u.back().finite()) throw pbt::Discard{}; } Jet q = ref(u, y); for (auto& t : p) c.say("x", text(t));
        { Eigen::Matrix<Z1, N, 1> a; std::vector<Z1, Eigen::aligned_allocator<Z1>> in(NZ); for (int i = 0; i < NZ; i++) { in[i].value() = Sc(z[i]); in[i].derivatives() = Eigen::Matrix<Sc, NZ, 1>::Unit(i); } for (int i = 0; i < N; i++) a(i) = run(p[i], in.data()); Z1 g = k.template eval<Z1>(a, y); ck("value (chain)", g.value(), q.v, q.vm); for (int i = 0; i < NZ; i++) ck("gradient (chain)", g.derivatives()(i), q.g(i), q.gm(i)); }
        { Eigen::Matrix<Z2, N, 1> a; std::vector<Z2, Eigen::aligned_allocator<Z2>> in(NZ); for (int i = 0; i < NZ; i++) seed2(in[i], z[i], i, NZ); for (int i = 0; i < N; i++) a(i) = run(p[i], in.data()); Z2 g = k.template eval<Z2>(a, y); ck("value (chain, second order)", g.value().value(), q.v, q.vm);
          for (int i = 0; i < NZ; i++) { ck("gradient (chain, inner)", g.value().derivatives()(i), q.g(i), q.gm(i)); ck("gradient (chain, outer)", g.derivatives()(i).value(), q.g(i), q.gm(i)); for (int j = 0; j < NZ; j++) ck("Hessian (chain)", g.derivatives()(i).derivatives()(j), q.h(i, j), q.hm(i, j)); } }
    }
};
#define RBF(SC, N, CNT) static pbt::Reg r_##SC##N(#SC "_" #N, H28<SC, N>::prop, CNT, CNT * 20);
