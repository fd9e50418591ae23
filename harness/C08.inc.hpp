#pragma once
#include "expr.hpp"
namespace {
using namespace ex;
template <class Sc, int N, bool Dyn> struct T {
    using D1 = Eigen::Matrix<Sc, Dyn ? Eigen::Dynamic : N, 1>; using A1 = Eigen::AutoDiffScalar<D1>;
    using D2 = Eigen::Matrix<A1, Dyn ? Eigen::Dynamic : N, 1>; using A2 = Eigen::AutoDiffScalar<D2>;
    static constexpr double eps = std::numeric_limits<Sc>::epsilon(); 
    struct Case { Prog p; std::vector<double> x; std::vector<double> pl; int nin, npl; };
    static Case gencase(pbt::Src& s, pbt::Ctx& c, bool kinks) {
        Case k; k.nin = s.range(1, N); k.npl = s.range(0, 2); k.p = gen(s, k.nin, k.npl, 9, kinks);
        if (Dyn) for (auto& i : k.p.ins) if (i.op == 48) i.op = 46;   // a constant of dynamic size has no derivative vector: not mixed into expressions
        for (int i = 0; i < k.nin; i++) k.x.push_back(float(s.sym(1.5))); for (int i = 0; i < k.npl; i++) k.pl.push_back(float(s.sym(1.5)));
        c.say("program", text(k.p)); for (double v : k.x) c.say("x", v); for (double v : k.pl) c.say("p", v);
        for (auto& i : k.p.ins) { i.c = float(i.c); } for (auto& o : k.p.out) o.second = float(o.second);
        return k;
    }
    static A1 seed1(double x, int i, int at) { A1 a; a.value() = Sc(x); a.derivatives() = i < 0 ? D1(D1::Zero(N)) : D1(D1::Unit(N, at)); return a; }
    static A2 seed2(double x, int i, int at) {
        A2 a; a.value() = seed1(x, i, at); a.derivatives().resize(N, 1); for (int k = 0; k < N; k++) { a.derivatives()(k).value() = Sc(i >= 0 && k == at); a.derivatives()(k).derivatives() = D1::Zero(N); } return a;
    }
    static constexpr double K = 32;
    static void first(pbt::Src& s, pbt::Ctx& c) {
        Case k = gencase(s, c, s.flag(0.5)); int nin = k.nin; std::vector<int> at(nin); std::vector<A1, Eigen::aligned_allocator<A1>> in(nin); std::vector<Sc> pv(nin); std::vector<Jet> jin(nin);
        int off = s.range(0, N - nin); int frozen = s.flag(0.3) ? s.range(0, nin - 1) : -1;   // an unseeded (constant) input
        for (int i = 0; i < nin; i++) { at[i] = off + i; in[i] = seed1(k.x[i], i == frozen ? -1 : i, at[i]); pv[i] = Sc(k.x[i]); jin[i] = i == frozen ? Jet(double(pv[i])) : Jet::var(double(pv[i]), at[i], N); }
        Jet j = run(k.p, jin.data(), k.pl.data()); if (!j.finite()) throw pbt::Discard{};
        A1 r = run(k.p, in.data(), k.pl.data()); Sc v = run(k.p, pv.data(), k.pl.data());
        CHECK(near(v, j.v, j.vm, K, eps), "plain value " << v << " expected " << double(j.v));
        CHECK(std::abs(r.value() - v) <= 4 * eps * double(j.vm), "differentiated value " << r.value() << " plain value " << v);
        CHECK(r.derivatives().size() == N, "size of the derivative vector " << r.derivatives().size());
        for (int i = 0; i < N; i++) CHECK(near(r.derivatives()(i), j.g(i), j.gm(i), K, eps), "derivative " << i << " is " << r.derivatives()(i) << " expected " << double(j.g(i)));
        for (int i = 0; i < nin; i++) CHECK(in[i].value() == Sc(k.x[i]), "argument modified");
        c.nt(k.p.ins.size() > 0); for (auto& i : k.p.ins) if (i.op >= NSMOOTH) { c.label("kinked operation"); break; }
    }
    static void second(pbt::Src& s, pbt::Ctx& c) {
        Case k = gencase(s, c, s.flag(0.5)); int nin = k.nin; std::vector<A2, Eigen::aligned_allocator<A2>> in(nin); std::vector<Jet> jin(nin); std::vector<Sc> pv(nin);
        int off = s.range(0, N - nin); int frozen = s.flag(0.3) ? s.range(0, nin - 1) : -1;
        for (int i = 0; i < nin; i++) { in[i] = seed2(k.x[i], i == frozen ? -1 : i, off + i); pv[i] = Sc(k.x[i]); jin[i] = i == frozen ? Jet(double(pv[i])) : Jet::var(double(pv[i]), off + i, N); }
        Jet j = run(k.p, jin.data(), k.pl.data()); if (!j.finite()) throw pbt::Discard{};
        A2 r = run(k.p, in.data(), k.pl.data()); Sc v = run(k.p, pv.data(), k.pl.data());
        bool pw = false; for (auto& i : k.p.ins) pw |= i.op == 25;
        CHECK(std::abs(r.value().value() - v) <= (pw ? 64 : 4) * eps * double(j.vm), "differentiated value " << r.value().value() << " plain value " << v);
        double KK = pw ? 200 : K;
        for (int i = 0; i < N; i++) {
            CHECK(near(r.value().derivatives()(i), j.g(i), j.gm(i), KK, eps), "derivative " << i << " is " << r.value().derivatives()(i) << " expected " << double(j.g(i)));
            CHECK(near(r.derivatives()(i).value(), j.g(i), j.gm(i), KK, eps), "outer derivative " << i << " is " << r.derivatives()(i).value() << " expected " << double(j.g(i)));
            for (int l = 0; l < N; l++) CHECK(near(r.derivatives()(i).derivatives()(l), j.h(i, l), j.hm(i, l), KK, eps), "second derivative " << i << "," << l << " is " << r.derivatives()(i).derivatives()(l) << " expected " << double(j.h(i, l)));
        }
        c.nt(k.p.ins.size() > 0); c.label("non-zero Hessian", j.curved());
    }
};
}
#define ADD(NAME, Q, ...) static pbt::Reg r1_##NAME("first_" #NAME, T<__VA_ARGS__>::first, Q, Q * 20); static pbt::Reg r2_##NAME("second_" #NAME, T<__VA_ARGS__>::second, Q, Q * 20);
#define ADD1(NAME, Q, ...) static pbt::Reg r1_##NAME("first_" #NAME, T<__VA_ARGS__>::first, Q, Q * 20);
