#pragma once
#include "nlp_common.hpp"
namespace {
using namespace nl;
template <int NX, int NE, int NI, int NP, int U = 0> struct T {
    using P = Nlp<NX, NE, NI, NP, double, U>; using V = typename P::nlp_variable_t; using Q = typename P::static_parameter_t; static constexpr int NC = NE + NI;
    static constexpr double K = 200;   // second-order powers go through exp/log
    static void ckv(const char* w, double got, const Jet& j) { CHECK(near(got, j.v, j.vm, K), w << " is " << got << " expected " << double(j.v)); }
    template <class G> static void ckg(const char* w, const G& got, const Jet& j) { for (int i = 0; i < NX; i++) CHECK(near(got(i), j.g(i), j.gm(i), K), w << " derivative " << i << " is " << got(i) << " expected " << double(j.g(i))); }
    template <class G> static void ckh(const char* w, const G& got, const Jet& j) { for (int i = 0; i < NX; i++) for (int k = 0; k < NX; k++) CHECK(near(got(i, k), j.h(i, k), j.hm(i, k), K), w << " second derivative " << i << "," << k << " is " << got(i, k) << " expected " << double(j.h(i, k))); }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        P p; p.random(s, c, U != 1); int n = s.range(1, 5); const double G = 777;
        V x; Q q; typename P::nlp_eq_jacobian_t je; typename P::nlp_ineq_jacobian_t ji; typename P::nlp_jacobian_t jc;
        V x1; Q q1;
        for (int t = 0; t < n; t++) {
            if (t < 2 || s.flag(0.7)) { for (int i = 0; i < NX; i++) x(i) = s.sym(1.5); for (int i = 0; i < NP; i++) q(i) = s.sym(1.5); }
            c.mat("x", x.transpose()).mat("p", q.transpose()); Ref<NX, NE, NI> r(p, x, q); const V xc = x; const Q qc = q;
            for (int m = 0; m < 3; m++) {
                int kind = s.range(0, 8); c.say("call", kind);
                double f = G; Eigen::Matrix<double, NX, 3> g; g.setConstant(G); Eigen::Matrix<double, NX, NX> h; h.setConstant(G); Eigen::Matrix<double, NC, 1> v; v.setConstant(G); 
                Eigen::Matrix<double, NE, 1> ve; ve.setConstant(G); Eigen::Matrix<double, NI, 1> vi; vi.setConstant(G); je.setConstant(G); ji.setConstant(G); jc.setConstant(G);
                switch (kind) {
                case 0: p.cost(x, q, f); ckv("cost", f, r.f); break;
                case 1: p.cost_gradient(x, q, f, g.col(1)); ckv("cost (gradient)", f, r.f); ckg("cost gradient", g.col(1), r.f); CHECK((g.col(0).array() == G).all() && (g.col(2).array() == G).all(), "wrote outside the gradient"); break;
                case 2: p.cost_gradient_hessian(x, q, f, g.col(1), h); ckv("cost (Hessian)", f, r.f); ckg("cost gradient (Hessian)", g.col(1), r.f); ckh("cost Hessian", h, r.f); break;
                case 3: p.equalities(x, q, ve); for (int i = 0; i < NE; i++) ckv("equality", ve(i), r.c[i]); break;
                case 4: p.inequalities(x, q, vi); for (int i = 0; i < NI; i++) ckv("inequality", vi(i), r.c[NE + i]); break;
                case 5: p.constraints(x, q, v); for (int i = 0; i < NC; i++) ckv("constraint", v(i), r.c[i]); break;
                case 6: p.equalities_linearised(x, q, ve, je); for (int i = 0; i < NE; i++) { ckv("equality (Jacobian)", ve(i), r.c[i]); ckg("equality Jacobian", row(je, i), r.c[i]); } break;
                case 7: if (NI > 0) { p.inequalities_linearised(x, q, vi, ji); for (int i = 0; i < NI; i++) { ckv("inequality (Jacobian)", vi(i), r.c[NE + i]); ckg("inequality Jacobian", row(ji, i), r.c[NE + i]); } } break;
                default: p.constraints_linearised(x, q, v, jc); for (int i = 0; i < NC; i++) { ckv("constraint (Jacobian)", v(i), r.c[i]); ckg("constraint Jacobian", row(jc, i), r.c[i]); } break;
                }
                CHECK(x == xc && q == qc, "arguments changed");
                c.label("Hessian", kind == 2); c.label("Jacobian", kind >= 6);
            }
        }
        c.nt(p.nonaffine());
    }
};
}
#define ADD(Q, NX, NE, NI, NP) static pbt::Reg r_##NX##_##NE##_##NI##_##NP("nlp_" #NX "_" #NE "_" #NI "_" #NP, T<NX, NE, NI, NP>::prop, Q, Q * 20);
#define ADDU(Q, NX, NE, NI, NP, U) static pbt::Reg ru##U##_##NX##_##NE##_##NI##_##NP("nlp_u" #U "_" #NX "_" #NE "_" #NI "_" #NP, T<NX, NE, NI, NP, U>::prop, Q, Q * 20);
