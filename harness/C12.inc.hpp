#include "ocp_common.hpp"
#include <memory>
namespace {
using namespace oc;
/** everything one evaluation returns, in dense form */
struct Out { std::vector<std::pair<const char*, Eigen::MatrixXd>> m; };
template <int NX, int NU, int NP, int ND, int NG, int P, int S> struct H12 {
    using A = Dut<NX, NU, NP, ND, NG, P, S, DENSE>; using B = Dut<NX, NU, NP, ND, NG, P, S, SPARSE>; using R = typename A::R; using V = typename A::V; using D = typename A::D; using Y = typename A::Y;
    static constexpr int NV = A::NV, NE = A::NE, NI = A::NI, NC = A::NC;
    template <class T> static void eval(T& z, int kind, const V& var, const D& d, const Y& lam, double cs, Out& r) {
        const double G = 777; double f = G; V cg = V::Constant(NV, G), lg = cg; Eigen::Matrix<double, NC, 1> cc = Eigen::Matrix<double, NC, 1>::Constant(NC, G); Eigen::Matrix<double, NE, 1> ce; Eigen::Matrix<double, NI, 1> ci; auto& o = z.o; z.fresh();
        auto M = [&](const char* n, const Eigen::MatrixXd& m) { r.m.emplace_back(n, m); }; auto F = [&](const char* n) { M(n, Eigen::MatrixXd::Constant(1, 1, f)); };
        switch (kind) {
        case 0: o.cost(var, d, f); F("cost"); break;
        case 1: o.equalities(var, d, ce); M("eq", ce); break;
        case 2: o.inequalities(var, d, ci); M("ineq", ci); break;
        case 3: o.constraints(var, d, cc); M("con", cc); break;
        case 4: o.cost_gradient(var, d, f, cg); F("cost"); M("grad", cg); break;
        case 5: o.equalities_linearised(var, d, ce, z.je); M("eq", ce); M("je", z.je); break;
        case 6: o.inequalities_linearised(var, d, ci, z.ji); if (NG) { M("ineq", ci); M("ji", z.ji); } break;
        case 7: o.constraints_linearised(var, d, cc, z.jc); M("con", cc); M("jac", z.jc); break;
        case 8: o.cost_gradient_hessian(var, d, f, cg, z.h); F("cost"); M("grad", cg); M("hess", z.h); break;
        case 9: o.lagrangian(var, d, lam, f); F("lag"); f = G; o.lagrangian(var, d, lam, f, cc); F("lag"); M("con", cc); break;
        case 10: o.lagrangian_gradient(var, d, lam, f, lg, cg, cc, z.jc); M("lgrad", lg); M("grad", cg); M("con", cc); M("jac", z.jc); break;
        case 11: o.lagrangian_gradient_hessian(var, d, lam, f, lg, z.h, cg, cc, z.jc); M("lgrad", lg); M("grad", cg); M("con", cc); M("jac", z.jc); M("lhess", z.h); break;
        case 12: o.lagrangian_gradient_hessian(var, d, lam, f, lg, z.h, cg, cc, z.jc, cs); M("lgrad", lg); M("grad", cg); M("con", cc); M("jac", z.jc); M("lhess", z.h); break;
        default: break; }
    }
    static void compare(const char* who, int kind, const Out& a, const Out& b, const R& r, const Y& lam, double cs, double K) {
        VL c, cm; ML J, Jm; r.con(c, cm, J, Jm); Full F = r.cost(), Lg = r.lag(lam, kind == 12 ? cs : 1);
        CHECK(a.m.size() == b.m.size(), "outputs");
        for (size_t q = 0; q < a.m.size(); q++) {
            const std::string n = a.m[q].first; const Eigen::MatrixXd &x = a.m[q].second, &y = b.m[q].second; CHECK(x.rows() == y.rows() && x.cols() == y.cols(), n << " has another size than in " << who);
            for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) {
                L m = n == "cost" ? F.vm : n == "lag" ? Lg.vm : n == "grad" ? F.gm(i) : n == "lgrad" ? Lg.gm(i) : n == "con" || n == "eq" ? cm(i) : n == "ineq" ? cm(NE + i) : n == "jac" || n == "je" ? Jm(i, j) : n == "ji" ? Jm(NE + i, j) : n == "hess" ? F.hm(i, j) : Lg.hm(i, j);
                CHECK(std::abs(L(x(i, j)) - L(y(i, j))) <= K * A::EP * m + 1e-30L, n << "(" << i << "," << j << ") of the sparse object with a history is " << x(i, j) << ", " << who << " gives " << y(i, j) << ", call kind " << kind);
            }
        }
    }
    template <class T> static std::shared_ptr<T> make() { return std::allocate_shared<T>(Eigen::aligned_allocator<T>()); }
    static void patterns(B& b, int kind) { if (kind == 7 || kind >= 10) b.pattern_j(b.jc); if (kind == 8 || kind >= 11) b.pattern_h(b.h); }
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        auto b = make<B>(); Spec sp = gen_spec(s, c, NX, NU, NP, ND, NG); b->o.sp = sp; b->persist = true; int n = s.range(2, 6); std::map<int, int> at; bool again = false; double t0 = 0, tf = 1;
        V var = V::Zero(NV); D d = D::Zero(ND); Y lam = Y::Zero(NC + NV); bool zero_first = s.flag(0.3);
        for (int t = 0; t < n; t++) {
            if (s.flag(0.4)) { gen_horizon(s, t0, tf); c.say("t0", t0).say("tf", tf); b->horizon(t0, tf); c.label("horizon changed", t > 0); }
            if (t == 0 || s.flag(0.85)) { bool z = t == 0 && zero_first; for (int i = 0; i < NV; i++) var(i) = z || s.flag(0.1) ? 0 : s.sym(1.5); for (int i = 0; i < ND; i++) d(i) = s.sym(1.5); }
            if (s.flag(0.7)) { bool z = t == 0 && zero_first; for (int i = 0; i < NC + NV; i++) lam(i) = z || s.flag(0.2) ? 0 : s.sym(5); }
            int kind = s.range(0, 12), op = s.range(0, 9); double cs = s.flag(0.2) ? 0 : s.sym(3);
            if (op == 1) { b = std::allocate_shared<B>(Eigen::aligned_allocator<B>(), *b); c.label("copied object"); }                       // problem object copied (with its work matrices)
            if (op == 2) { B::junk(b->je); B::junk(b->ji); B::junk(b->jc); B::junk(b->h); c.label("renewed matrices"); }   // fresh matrices, used object
            if (op == 3 || op == 4) { auto q = make<B>(); q->o.sp = sp; q->horizon(t0, tf); q->je = b->je; q->ji = b->ji; q->jc = b->jc; q->h = b->h; q->have_j = b->have_j; q->have_h = b->have_h; q->jc0 = b->jc0; q->h0 = b->h0; b = q; c.label("another object, used matrices"); }
            c.say("step", t).say("op", op).say("call", kind).say("cs", cs).mat("var", var.transpose()).mat("d", d.transpose()).mat("lam", lam.transpose());
            R r(b->o, var, d, t0, tf); Out sp_out, de_out, fr_out; eval(*b, kind, var, d, lam, cs, sp_out); patterns(*b, kind);
            auto a = make<A>(), a0 = a; a->o.sp = sp; a->horizon(t0, tf); eval(*a, kind, var, d, lam, cs, de_out); compare("a fresh dense object", kind, sp_out, de_out, r, lam, cs, 400);
            auto f = make<B>(); f->o.sp = sp; f->persist = true; f->horizon(t0, tf); eval(*f, kind, var, d, lam, cs, fr_out); compare("a fresh sparse object", kind, sp_out, fr_out, r, lam, cs, 400);
            if (kind >= 10 || kind == 7) CHECK(B::same_pattern(b->jc, f->jc), "pattern of the Jacobian depends on the history");
            if (kind >= 11 || kind == 8) CHECK(B::same_pattern(b->h, f->h), "pattern of the Hessian depends on the history");
            if (kind >= 10 || kind == 7) CHECK(int(b->jc.nonZeros()) == b->o.nnz_jacobian(), "Jacobian stores " << b->jc.nonZeros() << " entries, nnz_jacobian() announces " << b->o.nnz_jacobian());
            if (kind >= 11) { int low = 0; for (int k = 0; k < NV; k++) for (typename Eigen::SparseMatrix<double>::InnerIterator it(b->h, k); it; ++it) low += it.row() >= it.col(); CHECK(low == b->o.nnz_lag_hessian(), "lower triangle of the Hessian stores " << low << " entries, nnz_lag_hessian() announces " << b->o.nnz_lag_hessian()); }
            if (kind == 5) CHECK(B::same_pattern(b->je, f->je), "pattern of the dynamics Jacobian depends on the history");
            if (kind == 6) CHECK(B::same_pattern(b->ji, f->ji), "pattern of the path Jacobian depends on the history");
            if (kind >= 4) again |= at[kind]++ > 0;
        }
        c.label("zero start", zero_first); c.nt(again || (nonaffine(sp) && n >= 3));
    }
};
}
#define OCPH(Q, NX, NU, NP, ND, NG, P, S) static pbt::Reg PBT_CAT(r_, __LINE__)("hist_x" #NX "_u" #NU "_p" #NP "_d" #ND "_g" #NG "_o" #P "_s" #S, H12<NX, NU, NP, ND, NG, P, S>::prop, Q, Q * 10);
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
