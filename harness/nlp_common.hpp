// A user nonlinear program with run-time random functions, and its extended-precision reference.
#pragma once
#include "expr.hpp"
#include "solvers/nlproblem.hpp"
namespace nl {
/** U: 0 ordinary problem, 1 problem without a cost function, 2 problem with user-written derivatives of cost and constraints, 3 of the cost only */
template <int NX, int NE, int NI, int NP, class Sc = double, int U = 0> class Nlp;
}
template <int NX_, int NE_, int NI_, int NP_, class Sc, int U> struct nlp_traits<nl::Nlp<NX_, NE_, NI_, NP_, Sc, U>> { using Scalar = Sc; enum { NX = NX_, NE = NE_, NI = NI_, NP = NP_ }; };
namespace nl {
using namespace ex;
template <class D, int NX, int NE, int NI, int NP, class Sc> class Fun : public ProblemBase<D> {
public:
    using Base = ProblemBase<D>;
    using typename Base::static_parameter_t; template <class T> using variable_t = typename Base::template variable_t<T>;
    Prog f; std::vector<Prog> e, g;
    template <class T> static std::vector<T, Eigen::aligned_allocator<T>> in(const Eigen::Ref<const variable_t<T>>& x) { std::vector<T, Eigen::aligned_allocator<T>> v; for (int i = 0; i < NX; i++) v.push_back(x(i)); return v; }
    static std::vector<double> par(const Eigen::Ref<const static_parameter_t>& p) { std::vector<double> v; for (int i = 0; i < NP; i++) v.push_back(p(i)); v.push_back(0); return v; }
    template <typename T> EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<typename Base::template eq_constraint_t<T>> c) const noexcept { auto v = in<T>(x); auto q = par(p); for (int i = 0; i < NE; i++) c(i) = run(e[i], v.data(), q.data()); }
    template <typename T> EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<typename Base::template ineq_constraint_t<T>> c) const noexcept { auto v = in<T>(x); auto q = par(p); for (int i = 0; i < NI; i++) c(i) = run(g[i], v.data(), q.data()); }
    void random(pbt::Src& s, pbt::Ctx& c, bool has_cost = true) {
        int len = s.pick({3, 6, 1, 9}); bool k = s.flag(0.2);
        f = gen(s, NX, NP, len, k); e.clear(); g.clear(); for (int i = 0; i < NE; i++) e.push_back(gen(s, NX, NP, len, k)); for (int i = 0; i < NI; i++) g.push_back(gen(s, NX, NP, len, k));
        if (!has_cost) { f.ins.clear(); f.out = {{0, 0.0}}; }
        c.say("cost", text(f)); for (auto& q : e) c.say("eq", text(q)); for (auto& q : g) c.say("ineq", text(q));
    }
    bool nonaffine() const { bool r = f.ins.size() > 0; for (auto& q : e) r |= q.ins.size() > 0; for (auto& q : g) r |= q.ins.size() > 0; return r; }
};
template <int NX, int NE, int NI, int NP, class Sc> class Nlp<NX, NE, NI, NP, Sc, 1> : public Fun<Nlp<NX, NE, NI, NP, Sc, 1>, NX, NE, NI, NP, Sc> {};
template <int NX, int NE, int NI, int NP, class Sc> class Nlp<NX, NE, NI, NP, Sc, 0> : public Fun<Nlp<NX, NE, NI, NP, Sc, 0>, NX, NE, NI, NP, Sc> {
public:
    using F = Fun<Nlp<NX, NE, NI, NP, Sc, 0>, NX, NE, NI, NP, Sc>; using typename F::static_parameter_t; template <class T> using variable_t = typename F::Base::template variable_t<T>;
    template <typename T> EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept { auto v = F::template in<T>(x); auto q = F::par(p); cost = run(this->f, v.data(), q.data()); }
};
/** user-written derivatives, in extended precision */
template <class D, int NX, int NE, int NI, int NP, class Sc> class UserFun : public Fun<D, NX, NE, NI, NP, Sc> {
public:
    using F = Fun<D, NX, NE, NI, NP, Sc>; using typename F::static_parameter_t; template <class T> using variable_t = typename F::Base::template variable_t<T>; using V = typename F::Base::nlp_variable_t;
    template <typename T> EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept { auto v = F::template in<T>(x); auto q = F::par(p); cost = run(this->f, v.data(), q.data()); }
    Jet jet(const Prog& k, const Eigen::Ref<const V>& x, const Eigen::Ref<const static_parameter_t>& p) const { std::vector<Jet> in; for (int i = 0; i < NX; i++) in.push_back(Jet::var(x(i), i, NX)); auto q = F::par(p); return run(k, in.data(), q.data()); }
    void cost_gradient_impl(const Eigen::Ref<const V>& x, const Eigen::Ref<const static_parameter_t>& p, Sc& c, Eigen::Ref<V> g) noexcept { Jet j = jet(this->f, x, p); c = Sc(j.v); for (int i = 0; i < NX; i++) g(i) = Sc(j.g(i)); }
    void cost_gradient_hessian_impl(const Eigen::Ref<const V>& x, const Eigen::Ref<const static_parameter_t>& p, Sc& c, Eigen::Ref<V> g, Eigen::Ref<typename F::Base::nlp_hessian_t> h) noexcept { Jet j = jet(this->f, x, p); c = Sc(j.v); for (int i = 0; i < NX; i++) { g(i) = Sc(j.g(i)); for (int k = 0; k < NX; k++) h(i, k) = Sc(j.h(i, k)); } }
};
template <int NX, int NE, int NI, int NP, class Sc> class Nlp<NX, NE, NI, NP, Sc, 3> : public UserFun<Nlp<NX, NE, NI, NP, Sc, 3>, NX, NE, NI, NP, Sc> {};
template <int NX, int NE, int NI, int NP, class Sc> class Nlp<NX, NE, NI, NP, Sc, 2> : public UserFun<Nlp<NX, NE, NI, NP, Sc, 2>, NX, NE, NI, NP, Sc> {
public:
    using UF = UserFun<Nlp<NX, NE, NI, NP, Sc, 2>, NX, NE, NI, NP, Sc>; using typename UF::static_parameter_t; using V = typename UF::V; using PB = typename UF::Base;
    void equalities_linearised_impl(const Eigen::Ref<const V>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<typename PB::nlp_eq_constraints_t> c, Eigen::Ref<typename PB::nlp_eq_jacobian_t> J) noexcept { for (int r = 0; r < NE; r++) { Jet j = this->jet(this->e[r], x, p); c(r) = Sc(j.v); for (int i = 0; i < NX; i++) J(r, i) = Sc(j.g(i)); } }
    void inequalities_linearised_impl(const Eigen::Ref<const V>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<typename PB::nlp_ineq_constraints_t> c, Eigen::Ref<typename PB::nlp_ineq_jacobian_t> J) noexcept { for (int r = 0; r < NI; r++) { Jet j = this->jet(this->g[r], x, p); c(r) = Sc(j.v); for (int i = 0; i < NX; i++) J(r, i) = Sc(j.g(i)); } }
};
template <class M> Eigen::VectorXd row(const M& m, int i) { Eigen::VectorXd r(m.cols()); for (int k = 0; k < m.cols(); k++) r(k) = m(i, k); return r; }
template <int NX, int NE, int NI> struct Ref {
    Jet f; std::vector<Jet> c; bool pw = false;
    template <class P, class X, class Q> Ref(const P& p, const X& x, const Q& q) {
        std::vector<Jet> in; for (int i = 0; i < NX; i++) in.push_back(Jet::var(x(i), i, NX)); std::vector<double> pl; for (int i = 0; i < q.size(); i++) pl.push_back(q(i)); pl.push_back(0);
        f = run(p.f, in.data(), pl.data()); for (auto& k : p.e) c.push_back(run(k, in.data(), pl.data())); for (auto& k : p.g) c.push_back(run(k, in.data(), pl.data()));
        bool ok = f.finite(); for (auto& k : c) ok = ok && k.finite(); if (!ok) throw pbt::Discard{};
    }
};
}
