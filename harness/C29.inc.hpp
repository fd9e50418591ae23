// The IPOPT adapter, driven through the callback protocol of IPOPT (stubs/Ip*.hpp) on random programs and optimal control problems.
#include "ocp_common.hpp"
#include "nlp_common.hpp"
#include "solvers/ipopt_interface.hpp"
#include <iostream>
#include <sstream>
#include <sys/mman.h>
namespace {
using ex::L; using oc::VL; using oc::ML; using oc::Spec;
struct All { L f = 0, fm = 0; VL g, gm, c, cm; ML J, Jm, H, Hm; };
/** the adapter constructs its problem itself: the content comes from here */
static Spec g_spec;
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT> struct OcpEnv {
    struct Prob : oc::Ocp<NX, NU, NP, ND, NG, P, S, FMT> { Prob() { this->sp = g_spec; } };
    static constexpr bool timed = true;
    static void gen(pbt::Src& s, pbt::Ctx& c) { g_spec = oc::gen_spec(s, c, NX, NU, NP, ND, NG); }
    static void init(Prob&) {}
    static bool nonaffine() { return oc::nonaffine(g_spec); }
    template <class V, class D> static All ref(const Prob& p, const V& x, const D& d, const std::vector<double>& y, double cs, double t0, double tf) {
        using R = oc::Ref<NX, NU, NP, NG, P, S>; R r(static_cast<const oc::Ocp<NX, NU, NP, ND, NG, P, S, FMT>&>(p), x, d, t0, tf); All a; oc::Full F = r.cost(); a.f = F.v; a.fm = F.vm; a.g = F.g; a.gm = F.gm; r.con(a.c, a.cm, a.J, a.Jm);
        VL lam = VL::Zero(R::NC + R::NV); for (int i = 0; i < R::NC; i++) lam(i) = y[i]; oc::Full G = r.lag(lam, cs); a.H = G.h; a.Hm = G.hm; return a;
    }
};
struct NlpFun { ex::Prog f; std::vector<ex::Prog> e, g; }; static NlpFun g_fun;
template <int NX, int NE, int NI, int NP> struct NlpEnv {
    using Prob = nl::Nlp<NX, NE, NI, NP, double, 0>; static constexpr bool timed = false;
    static void gen(pbt::Src& s, pbt::Ctx& c) { Prob p; p.random(s, c); g_fun = {p.f, p.e, p.g}; }
    static void init(Prob& p) { p.f = g_fun.f; p.e = g_fun.e; p.g = g_fun.g; }
    static bool nonaffine() { bool r = g_fun.f.ins.size() > 0; for (auto& q : g_fun.e) r |= q.ins.size() > 0; for (auto& q : g_fun.g) r |= q.ins.size() > 0; return r; }
    template <class V, class D> static All ref(const Prob& p, const V& x, const D& d, const std::vector<double>& y, double cs, double, double) {
        nl::Ref<NX, NE, NI> r(p, x, d); const int NC = NE + NI; All a; a.f = r.f.v; a.fm = r.f.vm; a.g = a.gm = VL::Zero(NX); a.c = a.cm = VL::Zero(NC); a.J = a.Jm = ML::Zero(NC, NX); a.H = a.Hm = ML::Zero(NX, NX);
        for (int i = 0; i < NX; i++) { a.g(i) = r.f.g(i); a.gm(i) = r.f.gm(i); for (int k = 0; k < NX; k++) { a.H(i, k) = L(cs) * r.f.h(i, k); a.Hm(i, k) = std::abs(L(cs)) * r.f.hm(i, k); } }
        for (int n = 0; n < NC; n++) { const auto& j = r.c[n]; a.c(n) = j.v; a.cm(n) = j.vm; for (int i = 0; i < NX; i++) { a.J(n, i) = j.g(i); a.Jm(n, i) = j.gm(i); for (int k = 0; k < NX; k++) { a.H(i, k) += L(y[n]) * j.h(i, k); a.Hm(i, k) += std::abs(L(y[n])) * j.hm(i, k); } } }
        return a;
    }
};
/** an array of exactly n entries as IPOPT would hand it over: junk inside, canaries in front, an inaccessible page behind it */
template <class T> struct Arr {
    T* q; int n; char* base; std::size_t len; T can; static constexpr int PAD = 16;
    Arr(int n_, T junk, T canary) : n(n_), can(canary) {
        const std::size_t page = 4096, need = (n + PAD) * sizeof(T); len = (need + page - 1) / page * page + page; base = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == (char*)MAP_FAILED) throw pbt::Discard{};
        mprotect(base + len - page, page, PROT_NONE); q = (T*)(base + len - page) - n; for (int i = -PAD; i < 0; i++) q[i] = canary; for (int i = 0; i < n; i++) q[i] = junk;
    }
    Arr(const Arr&) = delete; ~Arr() { munmap(base, len); }
    T* p() { return q; } T operator[](int i) const { return q[i]; } T& operator[](int i) { return q[i]; }
    void intact(const char* w) const { for (int i = -PAD; i < 0; i++) CHECK(q[i] == can, "wrote in front of " << w); }
};
struct Quiet { std::ostringstream o; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
template <class Env> struct H29 {
    using Prob = typename Env::Prob; using I = IpoptInterface<Prob>; using V = typename I::nlp_variable_t; using Y = typename I::nlp_dual_t; using D = typename I::parameter_t;
    static constexpr int NV = Prob::VAR_SIZE, NE = Prob::NUM_EQ, NI = Prob::NUM_INEQ, NC = NE + NI; static constexpr double K = 400, EP = std::numeric_limits<double>::epsilon();
    static bool near(double got, L v, L m) { return ex::near(got, v, m, K, EP); }
    static void time_limits(std::true_type, Prob& p, double a, double b) { p.set_time_limits(a, b); }
    static void time_limits(std::false_type, Prob&, double, double) {}
    static void prop(pbt::Src& s, pbt::Ctx& c) {
        Env::gen(s, c); std::shared_ptr<I> z(new I()); Env::init(z->get_problem()); double t0 = 0, tf = 1; const double INF = std::numeric_limits<double>::infinity();
        CHECK((z->lower_bound_x().array() == -INF).all() && (z->upper_bound_x().array() == INF).all() && (z->lower_bound_g().array() == -INF).all() && (z->upper_bound_g().array() == INF).all(), "bounds are not infinite by default");
        V lx, ux, xg = V::Zero(); Y yg = Y::Zero(); D d = D::Zero(); typename I::nlp_ineq_constraints_t lg, ug; int runs = s.range(1, 3); bool hess = false, jaco = false;
        lx.setConstant(-INF); ux.setConstant(INF); lg.setConstant(-INF); ug.setConstant(INF);
        for (int run = 0; run < runs; run++) {
            if (Env::timed && s.flag(0.5)) { oc::gen_horizon(s, t0, tf); time_limits(std::integral_constant<bool, Env::timed>(), z->get_problem(), t0, tf); c.say("t0", t0).say("tf", tf); }
            if (s.flag(0.7)) { for (int i = 0; i < NV; i++) { lx(i) = s.flag(0.3) ? -INF : s.sym(3); ux(i) = s.flag(0.3) ? INF : s.sym(3) + 3; } for (int i = 0; i < NI; i++) { lg(i) = s.flag(0.3) ? -INF : s.sym(3); ug(i) = s.flag(0.3) ? INF : s.sym(3) + 3; }
                z->lower_bound_x() = lx; z->upper_bound_x() = ux; z->lower_bound_g() = lg; z->upper_bound_g() = ug; }
            if (s.flag(0.7)) { for (int i = 0; i < int(d.size()); i++) d(i) = s.sym(1.5); z->parameters() = d; }
            bool guess = s.flag(0.7); if (guess) { for (int i = 0; i < NV; i++) xg(i) = s.sym(1.5); for (int i = 0; i < NC + NV; i++) yg(i) = s.flag(0.2) ? 0 : s.sym(4); }
            std::string fail; V xs; Y ys; double fs = 0; bool any = false; Ipopt::ApplicationReturnStatus rs = s.pick({Ipopt::Solve_Succeeded, Ipopt::Maximum_Iterations_Exceeded, Ipopt::Infeasible_Problem_Detected}); Ipopt::SolveStatistics want;
            bool discard = false;
            Ipopt::IpoptApplication::driver() = [&](Ipopt::TNLP& t, Ipopt::SolveStatistics& st) -> Ipopt::ApplicationReturnStatus {
                try { drive(t, z->get_problem(), s, c, lx, ux, lg, ug, xg, yg, d, t0, tf, xs, ys, fs, hess, jaco); any = true; } catch (const pbt::Discard&) { discard = true; } catch (const pbt::Fail& e) { fail = e.what(); }
                st.iter = s.range(0, 50); st.f = s.sym(9); st.dual = s.real(0, 3); st.viol = s.real(0, 3); st.bound = 7; st.compl_ = 8; st.kkt = 9; want = st; return rs;
            };
            { Quiet q; if (guess) z->solve(xg, yg); else z->solve(); }
            if (discard) throw pbt::Discard{}; CHECK(fail.empty(), fail); CHECK(any, "the optimiser was not called");
            CHECK(z->primal_solution() == xs, "the primal solution is not the point that the optimiser returned");
            for (int i = 0; i < NC; i++) CHECK(z->dual_solution()(i) == ys(i), "multiplier " << i << " of the constraints is " << z->dual_solution()(i) << ", the optimiser returned " << ys(i));
            for (int i = NC; i < NC + NV; i++) CHECK(z->dual_solution()(i) == ys(i), "multiplier " << i - NC << " of the bounds is " << z->dual_solution()(i) << ", the optimiser returned z_U - z_L = " << ys(i));
            CHECK(z->info().status == rs && z->info().iter == want.iter, "status or number of iterations"); CHECK(z->cost() == want.f && z->dual_norm() == want.dual && z->constr_violation() == want.viol, "reported cost, dual norm or violation is not that of the optimiser");
            xg = xs; yg = ys;   // an unguided solve continues from the last solution
        }
        c.nt(Env::nonaffine() && (hess || jaco)); c.label("Hessian", hess); c.label("Jacobian", jaco); c.label("several runs", runs > 1);
    }
    static void structure(const Arr<int>& r, const Arr<int>& q, int n, int rows, bool lower, const char* w) {
        std::set<std::pair<int, int>> seen; for (int i = 0; i < n; i++) { CHECK(r[i] >= 0 && r[i] < rows && q[i] >= 0 && q[i] < NV, w << " structure: entry " << i << " of " << n << " is (" << r[i] << "," << q[i] << ")"); if (lower) CHECK(r[i] >= q[i], w << " structure: an entry above the diagonal"); CHECK(seen.insert({r[i], q[i]}).second, w << " structure: an entry appears twice"); }
    }
    template <class G> static void drive(Ipopt::TNLP& t, Prob& prob, pbt::Src& s, pbt::Ctx& c, const V& lx, const V& ux, const G& lg, const G& ug, const V& xg, const Y& yg, const D& d, double t0, double tf, V& xs, Y& ys, double& fs, bool& hess, bool& jaco) {
        const double J = 777, CAN = -12345.5; int n = -1, m = -1, nj = -1, nh = -1; Ipopt::TNLP::IndexStyleEnum st = Ipopt::TNLP::FORTRAN_STYLE;
        CHECK(t.get_nlp_info(n, m, nj, nh, st), "get_nlp_info fails"); CHECK(n == NV && m == NC && st == Ipopt::TNLP::C_STYLE && nj >= 0 && nj <= NC * NV && nh >= 0 && nh <= NV * (NV + 1) / 2, "announced sizes " << n << " " << m << " " << nj << " " << nh);
        { Arr<double> a(n, J, CAN), b(n, J, CAN), e(m, J, CAN), f(m, J, CAN); CHECK(t.get_bounds_info(n, a.p(), b.p(), m, e.p(), f.p()), "get_bounds_info fails"); a.intact("x_l"); b.intact("x_u"); e.intact("g_l"); f.intact("g_u");
            for (int i = 0; i < n; i++) CHECK(a[i] == lx(i) && b[i] == ux(i), "bounds of variable " << i); for (int i = 0; i < NE; i++) CHECK(e[i] == 0 && f[i] == 0, "bounds of equality " << i); for (int i = 0; i < NI; i++) CHECK(e[NE + i] == lg(i) && f[NE + i] == ug(i), "bounds of inequality " << i); }
        { bool iz = s.flag(), il = s.flag(); Arr<double> x(n, J, CAN), a(n, J, CAN), b(n, J, CAN), y(m, J, CAN); CHECK(t.get_starting_point(n, true, x.p(), iz, a.p(), b.p(), m, il, y.p()), "get_starting_point fails"); x.intact("x"); a.intact("z_L"); b.intact("z_U"); y.intact("lambda");
            for (int i = 0; i < n; i++) CHECK(x[i] == xg(i), "starting point, variable " << i << ": " << x[i] << " instead of " << xg(i)); if (il) for (int i = 0; i < m; i++) CHECK(y[i] == yg(i), "initial multiplier of constraint " << i);
            if (iz) for (int i = 0; i < n; i++) CHECK(a[i] >= 0 && b[i] >= 0 && b[i] - a[i] == yg(NC + i), "initial multipliers of the bounds of variable " << i << ": " << a[i] << " " << b[i] << " for " << yg(NC + i)); }
        Arr<int> jr(nj, -7, -99), jc(nj, -7, -99), hr(nh, -7, -99), hc(nh, -7, -99);
        CHECK(t.eval_jac_g(n, nullptr, false, m, nj, jr.p(), jc.p(), nullptr), "eval_jac_g fails"); jr.intact("iRow"); jc.intact("jCol"); structure(jr, jc, nj, NC, false, "Jacobian");
        CHECK(t.eval_h(n, nullptr, false, 1, m, nullptr, false, nh, hr.p(), hc.p(), nullptr), "eval_h fails"); hr.intact("iRow"); hc.intact("jCol"); structure(hr, hc, nh, NV, true, "Hessian");
        int steps = s.range(1, 6); V x = xg; Arr<double> ya(m, J, CAN); std::vector<double> y(m); for (int i = 0; i < m; i++) y[i] = s.sym(3);
        for (int k = 0; k < steps; k++) {
            bool nx = s.flag(0.7); if (nx) for (int i = 0; i < n; i++) x(i) = s.flag(0.1) ? 0 : s.sym(1.5); bool ny = s.flag(0.6); if (ny) for (int i = 0; i < m; i++) y[i] = s.flag(0.1) ? 0 : s.sym(3);
            int kind = s.range(0, 4); double cs = s.flag(0.15) ? 0 : s.flag(0.3) ? 1 : s.sym(3); c.say("call", kind).say("obj_factor", cs).mat("x", x.transpose()).mat("d", d.transpose()); if (kind == 4) c.mat("lambda", Eigen::Map<const Eigen::VectorXd>(y.data(), m).transpose());
            All r = Env::ref(prob, x, d, y, cs, t0, tf); Arr<double> xa(n, J, CAN); for (int i = 0; i < n; i++) xa[i] = x(i); for (int i = 0; i < m; i++) ya[i] = y[i];
            if (kind == 0) { double f = J; CHECK(t.eval_f(n, xa.p(), nx, f), "eval_f fails"); CHECK(near(f, r.f, r.fm), "cost " << f << " expected " << double(r.f)); }
            if (kind == 1) { Arr<double> g(n, J, CAN); CHECK(t.eval_grad_f(n, xa.p(), nx, g.p()), "eval_grad_f fails"); g.intact("grad_f"); for (int i = 0; i < n; i++) CHECK(near(g[i], r.g(i), r.gm(i)), "cost gradient " << i << ": " << g[i] << " expected " << double(r.g(i))); }
            if (kind == 2) { Arr<double> g(m, J, CAN); CHECK(t.eval_g(n, xa.p(), nx, m, g.p()), "eval_g fails"); g.intact("g"); for (int i = 0; i < m; i++) CHECK(near(g[i], r.c(i), r.cm(i)), "constraint " << i << ": " << g[i] << " expected " << double(r.c(i))); }
            if (kind == 3) { Arr<double> v(nj, J, CAN); CHECK(t.eval_jac_g(n, xa.p(), nx, m, nj, nullptr, nullptr, v.p()), "eval_jac_g fails"); v.intact("the Jacobian values"); ML A = ML::Zero(m, n); for (int i = 0; i < nj; i++) A(jr[i], jc[i]) += v[i]; jaco = true;
                for (int i = 0; i < m; i++) for (int q = 0; q < n; q++) CHECK(near(double(A(i, q)), r.J(i, q), r.Jm(i, q)), "Jacobian (" << i << "," << q << ") is " << double(A(i, q)) << " expected " << double(r.J(i, q))); }
            if (kind == 4) { Arr<double> v(nh, J, CAN); CHECK(t.eval_h(n, xa.p(), nx, cs, m, ya.p(), ny, nh, nullptr, nullptr, v.p()), "eval_h fails"); v.intact("the Hessian values"); ML A = ML::Zero(n, n); for (int i = 0; i < nh; i++) A(hr[i], hc[i]) += v[i]; hess = true;
                for (int i = 0; i < n; i++) for (int q = 0; q <= i; q++) CHECK(near(double(A(i, q)), r.H(i, q), r.Hm(i, q)), "Hessian (" << i << "," << q << ") is " << double(A(i, q)) << " expected " << double(r.H(i, q))); }
        }
        for (int i = 0; i < n; i++) xs(i) = s.sym(2); ys.setZero(); Arr<double> xf(n, J, CAN), zl(n, J, CAN), zu(n, J, CAN), g(m, J, CAN); for (int i = 0; i < n; i++) xf[i] = xs(i); for (int i = 0; i < m; i++) { ya[i] = s.sym(3); ys(i) = ya[i]; g[i] = s.sym(1); } for (int i = 0; i < n; i++) { zl[i] = s.flag(0.6) ? 0 : s.real(0, 3); zu[i] = s.flag(0.6) ? 0 : s.real(0, 3); ys(NC + i) = zu[i] - zl[i]; }
        fs = s.sym(3); t.finalize_solution(Ipopt::SUCCESS, n, xf.p(), zl.p(), zu.p(), m, g.p(), ya.p(), fs, nullptr, nullptr);
    }
};
}
#define OCPI(Q, NX, NU, NP, ND, NG, P, S, F) static pbt::Reg PBT_CAT(r_, __LINE__)("ocp_x" #NX "_u" #NU "_p" #NP "_d" #ND "_g" #NG "_o" #P "_s" #S "_" #F, H29<OcpEnv<NX, NU, NP, ND, NG, P, S, F>>::prop, Q, Q * 10);
#define NLPI(Q, NX, NE, NI, NP) static pbt::Reg PBT_CAT(r_, __LINE__)("nlp_" #NX "_" #NE "_" #NI "_" #NP, H29<NlpEnv<NX, NE, NI, NP>>::prop, Q, Q * 10);
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
