#include "ocp_common.hpp"
#include <memory>
namespace {
using namespace oc;
/** histories of evaluations of the given kinds on one object per storage format */
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int KLO, int KHI, class Sc, bool DEN, bool SPA> struct H {
    using A = Dut<NX, NU, NP, ND, NG, P, S, DENSE, Sc>; using B = Dut<NX, NU, NP, ND, NG, P, S, SPARSE, Sc>; using R = typename A::R; using V = typename A::V;
    static constexpr int LV = KHI <= 3 ? 0 : KHI <= 7 ? 1 : 2;
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        auto a = std::allocate_shared<A>(Eigen::aligned_allocator<A>()); auto b = std::allocate_shared<B>(Eigen::aligned_allocator<B>()); Spec sp = gen_spec(s, c, NX, NU, NP, ND, NG); a->o.sp = b->o.sp = sp; b->persist = s.flag(0.8);
        V var = V::Zero(A::NV); typename A::D d; typename A::Y lam = A::Y::Zero(A::NC + A::NV); int n = s.range(1, 4); bool nz = false; std::set<int> kinds;
        for (int t = 0; t < n; t++) {
            if (t == 0 ? s.flag(0.8) : s.flag(0.4)) { double t0, tf; gen_horizon(s, t0, tf); c.say("t0", t0).say("tf", tf); a->horizon(t0, tf); b->horizon(t0, tf); c.label("horizon changed", t > 0); }
            if (t == 0 || s.flag(0.8)) { for (int i = 0; i < A::NV; i++) var(i) = Sc(s.sym(1.5)); for (int i = 0; i < ND; i++) d(i) = Sc(s.sym(1.5)); }
            if (KHI > 8 && (t == 0 || s.flag(0.6))) for (int i = 0; i < A::NC + A::NV; i++) lam(i) = s.flag(0.2) ? Sc(0) : Sc(s.sym(5));
            c.mat("var", var.transpose()).mat("d", d.transpose()).mat("lam", lam.transpose()); a->nodes(); b->nodes();
            R r(a->o, var, d, a->t0, a->tf); nz |= var.cwiseAbs().maxCoeff() > 0; int m = s.range(1, 3);
            for (int q = 0; q < m; q++) {
                int kind = s.range(KLO, KHI); double cs = s.flag(0.2) ? 0 : s.sym(3); c.say("call", kind); if (kind == 12) c.say("cost scale", cs);
                if (DEN) a->template call<LV>(kind, r, var, d, lam, cs); if (SPA) b->template call<LV>(kind, r, var, d, lam, cs);
                c.label("repeated kind", kinds.count(kind)); kinds.insert(kind);
            }
        }
        c.label("no running cost", !sp.hl); c.label("no terminal cost", !sp.hm);
        c.nt(nonaffine(sp) && nz);
    }
};
}
#define OCP(Q, NX, NU, NP, ND, NG, P, S, KLO, KHI, SC, DEN, SPA) static pbt::Reg PBT_CAT(r_, __LINE__)("ocp_x" #NX "_u" #NU "_p" #NP "_d" #ND "_g" #NG "_o" #P "_s" #S "_" #SC "_" #KLO "_" #KHI, H<NX, NU, NP, ND, NG, P, S, KLO, KHI, SC, DEN, SPA>::prop, Q, Q * 20);
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
