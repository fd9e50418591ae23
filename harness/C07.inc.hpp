#pragma once
#include "nlp_common.hpp"
namespace {
using namespace nl;
template <int NX, int NE, int NI, int NP, int U = 0> struct T {
    using P = Nlp<NX, NE, NI, NP, double, U>; using V = typename P::nlp_variable_t; using Q = typename P::static_parameter_t; static constexpr int NC = NE + NI;
    static constexpr double K = 200;
    static Jet lag(const Ref<NX, NE, NI>& r, const V& x, const typename P::nlp_dual_t& lam, double scale_h) {
        Jet l = r.f; l.scale_h(scale_h); for (int i = 0; i < NC; i++) l = l + r.c[i] * lam(i); for (int i = 0; i < NX; i++) l = l + Jet::var(x(i), i, NX) * lam(NC + i); return l;
    }
    template <class G> static void ckg(const char* w, const G& got, const Jet& j) { for (int i = 0; i < NX; i++) CHECK(near(got(i), j.g(i), j.gm(i), K), w << " " << i << " is " << got(i) << " expected " << double(j.g(i))); }
    template <class G> static void ckh(const char* w, const G& got, const Jet& j) { for (int i = 0; i < NX; i++) for (int k = 0; k < NX; k++) CHECK(near(got(i, k), j.h(i, k), j.hm(i, k), K), w << " " << i << "," << k << " is " << got(i, k) << " expected " << double(j.h(i, k))); }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        P p; p.random(s, c, U != 1); int n = s.range(1, 5); const double G = 777; V x; Q q; typename P::nlp_dual_t lam; bool nz = false;
        for (int t = 0; t < n; t++) {
            if (t < 2 || s.flag(0.7)) { for (int i = 0; i < NX; i++) x(i) = s.sym(1.5); for (int i = 0; i < NP; i++) q(i) = s.sym(1.5); }
            if (t == 0 || s.flag(0.7)) for (int i = 0; i < NC + NX; i++) lam(i) = s.flag(0.2) ? 0 : s.sym(5);
            nz |= NC == 0 || lam.head(NC).cwiseAbs().maxCoeff() > 0;
            c.mat("x", x.transpose()).mat("p", q.transpose()).mat("lam", lam.transpose()); Ref<NX, NE, NI> r(p, x, q);
            for (int m = 0; m < 2; m++) {
                int kind = s.range(0, 4); double sc = 1; if (kind == 4) sc = s.flag(0.3) ? 0 : s.sym(3); c.say("call", kind).say("cost scale", sc);
                Jet l = lag(r, x, lam, sc); double L_ = G; V lg, cg; lg.setConstant(G); cg.setConstant(G); typename P::nlp_constraints_t g; g.setConstant(G); typename P::nlp_jacobian_t J; J.setConstant(G); typename P::nlp_hessian_t H; H.setConstant(G);
                switch (kind) {
                case 0: p.lagrangian(x, q, lam, L_); CHECK(near(L_, l.v, l.vm, K), "Lagrangian is " << L_ << " expected " << double(l.v)); break;
                case 1: p.lagrangian_gradient(x, q, lam, L_, lg); ckg("Lagrangian gradient", lg, l); break;
                case 2: p.lagrangian_gradient(x, q, lam, L_, lg, cg, g, J); break;
                case 3: p.lagrangian_gradient_hessian(x, q, lam, L_, lg, H, cg, g, J); break;
                default: p.lagrangian_gradient_hessian(x, q, lam, L_, lg, H, cg, g, J, sc);
                }
                if (kind >= 2) {
                    ckg("Lagrangian gradient", lg, l); ckg("cost gradient", cg, r.f);
                    for (int i = 0; i < NC; i++) { CHECK(near(g(i), r.c[i].v, r.c[i].vm, K), "constraint " << i << " is " << g(i) << " expected " << double(r.c[i].v)); ckg("constraint Jacobian", row(J, i), r.c[i]); }
                    // bit-for-bit the stand-alone routines
                    double f; V cg2; p.cost_gradient(x, q, f, cg2); typename P::nlp_constraints_t g2; typename P::nlp_jacobian_t J2; p.constraints_linearised(x, q, g2, J2);
                    for (int i = 0; i < NX; i++) CHECK(std::abs(cg(i) - cg2(i)) <= K * EPS * double(r.f.gm(i)), "cost gradient differs from the stand-alone routine");
                    if (NC) CHECK(g == g2 && J == J2, "constraints or Jacobian differ from the stand-alone routine");
                }
                if (kind >= 3) ckh("Lagrangian Hessian", H, l);
                c.label("Hessian", kind >= 3);
            }
        }
        c.nt(p.nonaffine() && nz);
    }
};
}
#define ADD(Q, NX, NE, NI, NP) static pbt::Reg r_##NX##_##NE##_##NI##_##NP("lag_" #NX "_" #NE "_" #NI "_" #NP, T<NX, NE, NI, NP>::prop, Q, Q * 20);
#define ADDU(Q, NX, NE, NI, NP, U) static pbt::Reg ru##U##_##NX##_##NE##_##NI##_##NP("lag_u" #U "_" #NX "_" #NE "_" #NI "_" #NP, T<NX, NE, NI, NP, U>::prop, Q, Q * 20);
