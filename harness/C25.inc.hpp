// Closed-loop runs of the controller on generated linear(-quadratic) and mildly nonlinear systems against an independent assembly of the
// transcribed problem and an interior-point reference optimum.
#include "mpc_common.hpp"
#include "sqp_common.hpp"
namespace m25 {
using namespace mp; using pbt::Src; using pbt::Ctx; using L = long double; using VL = Eigen::Matrix<L, -1, 1>; using ML = Eigen::Matrix<L, -1, -1>;
static const double SVT = 0.004; static constexpr int ND = 2;
/** xdot = A x + B u + E p + c + a t + F d + nl sin(W x) ; running cost of the deviations from references (linear in t and d); path constraint G x + H u + K p (+ nl sin(x0)) */
struct Sys { MD A, B, E, F, W, Q, R, QN, G, H, K, Rd; VD c, a, nl, xr, ur, xe, pr; double gn = 0, qp = 0; };
template <int NX, int NU, int NP, int NG, int P, int S, int FMT> class Ocp;
}
template <int NX_, int NU_, int NP_, int NG_, int P, int S, int FMT> struct polympc_traits<m25::Ocp<NX_, NU_, NP_, NG_, P, S, FMT>> { using Scalar = double; enum { NX = NX_, NU = NU_, NP = NP_, ND = m25::ND, NG = NG_ }; };
namespace m25 {
template <int NX, int NU, int NP, int NG, int P, int S, int FMT> class Ocp : public ContinuousOCP<Ocp<NX, NU, NP, NG, P, S, FMT>, oc::Appr<double, P, S>, FMT> {
public:
    using Base = ContinuousOCP<Ocp<NX, NU, NP, NG, P, S, FMT>, oc::Appr<double, P, S>, FMT>;
    template <class T> using state_t = typename Base::template state_t<T>; template <class T> using control_t = typename Base::template control_t<T>;
    template <class T> using parameter_t = typename Base::template parameter_t<T>; template <class T> using constraint_t = typename Base::template constraint_t<T>;
    using typename Base::static_parameter_t; using typename Base::scalar_t; Sys y;
    template <typename T> void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const T& t, Eigen::Ref<state_t<T>> r) const noexcept {
        using std::sin; for (int i = 0; i < NX; i++) { T v = T(y.c(i)) + t * T(y.a(i)); for (int j = 0; j < ND; j++) v += T(y.F(i, j) * d(j)); for (int j = 0; j < NX; j++) v += x(j) * T(y.A(i, j)); for (int j = 0; j < NU; j++) v += u(j) * T(y.B(i, j)); for (int j = 0; j < NP; j++) v += p(j) * T(y.E(i, j));
            if (y.nl(i) != 0) { T z = T(0.0); for (int j = 0; j < NX; j++) z += x(j) * T(y.W(i, j)); v += sin(z) * T(y.nl(i)); } r(i) = v; } }
    template <typename T> void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, Eigen::Ref<constraint_t<T>> g) const noexcept {
        using std::sin; for (int i = 0; i < NG; i++) { T v = T(0.0); for (int j = 0; j < NX; j++) v += x(j) * T(y.G(i, j)); for (int j = 0; j < NU; j++) v += u(j) * T(y.H(i, j)); for (int j = 0; j < NP; j++) v += p(j) * T(y.K(i, j)); if (y.gn != 0) v += sin(x(0)) * T(y.gn); g(i) = v; } }
    template <typename T> void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, T& l) noexcept {
        l = T(0.0); for (int i = 0; i < NX; i++) { T v = T(0.0); for (int j = 0; j < NX; j++) v += (x(j) - T(y.xr(j) * (1 + 0.1 * t) + y.Rd(j, 0) * d(0))) * T(y.Q(i, j)); l += v * (x(i) - T(y.xr(i) * (1 + 0.1 * t) + y.Rd(i, 0) * d(0))); }
        for (int i = 0; i < NU; i++) { T v = T(0.0); for (int j = 0; j < NU; j++) v += (u(j) - T(y.ur(j))) * T(y.R(i, j)); l += v * (u(i) - T(y.ur(i))); } for (int i = 0; i < NP; i++) l += (p(i) - T(y.pr(i))) * (p(i) - T(y.pr(i))) * T(y.qp); }
    template <typename T> void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, T& m) noexcept {
        m = T(0.0); for (int i = 0; i < NX; i++) { T v = T(0.0); for (int j = 0; j < NX; j++) v += (x(j) - T(y.xe(j))) * T(y.QN(i, j)); m += v * (x(i) - T(y.xe(i))); } }
};
/** convex quadratic program 0.5 z'Hz + h'z, E z = e, C z <= c: Mehrotra's predictor-corrector in extended precision; false if it does not converge */
inline bool ipm(const ML& H, const VL& h, const ML& E, const VL& e, const ML& C, const VL& c, VL& z) {
    const int n = int(h.size()), me = int(e.size()), m = int(c.size()); VL y = VL::Zero(me), w = VL::Ones(m), s = (c - C * z).cwiseMax(VL::Ones(m)); const L sc = 1 + h.cwiseAbs().maxCoeff() + (m ? c.cwiseAbs().maxCoeff() : 0) + (me ? e.cwiseAbs().maxCoeff() : 0);
    for (int it = 0; it < 80; it++) {
        VL rd = H * z + h + E.transpose() * y + C.transpose() * w, rp = E * z - e, rc = C * z + s - c; const L mu = m ? s.dot(w) / m : 0;
        if (rd.cwiseAbs().maxCoeff() < 1e-13L * sc && (me == 0 || rp.cwiseAbs().maxCoeff() < 1e-13L * sc) && (m == 0 || (rc.cwiseAbs().maxCoeff() < 1e-13L * sc && mu < 1e-13L))) return true;
        if (w.size() && (w.maxCoeff() > 1e9L || !(w.maxCoeff() == w.maxCoeff()))) return false;
        ML K = ML::Zero(n + me, n + me); K.topLeftCorner(n, n) = H + C.transpose() * (w.array() / s.array()).matrix().asDiagonal() * C; K.bottomLeftCorner(me, n) = E; K.topRightCorner(n, me) = E.transpose(); Eigen::PartialPivLU<ML> lu(K);
        VL dz, dy, dw, ds; auto dir = [&](const VL& rs) { VL r(n + me); r << -(rd + C.transpose() * ((-rs.array() + w.array() * rc.array()) / s.array()).matrix()), -rp; VL q = lu.solve(r); q += lu.solve(VL(r - K * q)); dz = q.head(n); dy = q.tail(me); ds = -rc - C * dz; dw = (-(rs.array()) - w.array() * ds.array()) / s.array(); };
        auto len = [&](const VL& v, const VL& d) { L a = 1; for (int i = 0; i < m; i++) if (d(i) < 0) a = std::min(a, -v(i) / d(i)); return a; };
        dir((w.array() * s.array()).matrix()); const L a = std::min(len(s, ds), len(w, dw)); L sg = 0; if (m) { L mua = (s + a * ds).dot(w + a * dw) / m; sg = std::pow(mua / mu, 3); }
        VL rs = (w.array() * s.array() + dw.array() * ds.array() - sg * mu).matrix(); dir(rs); const L b = std::min(L(1), 0.995L * std::min(len(s, ds), len(w, dw))); z += b * dz; y += b * dy; w += b * dw; s += b * ds;
    }
    return false;
}
inline MD spd(Src& s, int n, double lo) { MD m = MD::Zero(n, n); if (s.flag(0.5)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = s.sym(0.7); m = (m * m.transpose()).eval(); for (int i = 0; i < n; i++) m(i, i) += s.real(lo, 2); return m; }
inline MD mat(Src& s, int r, int c, double a) { MD m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = s.sym(a); return m; }
template <class Pb, class QP> class Default : public SQPBase<Default<Pb, QP>, Pb, QP> {
public: using Base = SQPBase<Default<Pb, QP>, Pb, QP>; using typename Base::scalar_t; using typename Base::nlp_variable_t; using typename Base::nlp_hessian_t; double last_alpha = 1; int stalls = 0;
    scalar_t step_size_selection_impl(const Eigen::Ref<const nlp_variable_t>& p) noexcept { last_alpha = Base::step_size_selection_impl(p); stalls += last_alpha < 1 && p.template lpNorm<Eigen::Infinity>() < 2e-3; return last_alpha; }
    template <class H> void upd(H&& h, const Eigen::Ref<const nlp_variable_t>& a, const Eigen::Ref<const nlp_variable_t>& b, std::integral_constant<int, SPARSE>) { this->problem.hessian_update_impl(h, a, b); }
    template <class H> void upd(H&& h, const Eigen::Ref<const nlp_variable_t>& a, const Eigen::Ref<const nlp_variable_t>& b, std::integral_constant<int, DENSE>) { Base::hessian_update_impl(h, a, b); }
    void hessian_update_impl(Eigen::Ref<nlp_hessian_t> h, const Eigen::Ref<const nlp_variable_t>& a, const Eigen::Ref<const nlp_variable_t>& b) noexcept { upd(h, a, b, std::integral_constant<int, Pb::MATRIXFMT>()); } };
template <class Pb, class QP> class Exact : public sq::Sol<Pb, 3, QP, polympc::IdentityPreconditioner> {};
template <int NX, int NU, int NP, int NG, int P, int S, int FMT, template <class, class...> class SQ> struct H25 {
    using O = Ocp<NX, NU, NP, NG, P, S, FMT>; using QP = sq::Rec<Box<O>>; using C = MPC<O, SQ, QP>; static constexpr int N = P * S + 1, NV = N * (NX + NU) + NP;
    using state_t = typename C::state_t; using control_t = typename C::control_t; using con_t = typename C::constraint_t; using par_t = typename C::parameter_t;
    static int xi(int k, int i) { return k * NX + i; } static int ui(int k, int i) { return N * NX + k * NU + i; } static int pi(int i) { return N * (NX + NU) + i; }   // forward order
    /** transcription of the affine part in forward order: dynamics M z = r, path constraints G z, cost */
    struct Tr { ML M, G, H; VL r, h; VL t; L sg; };
    static Tr transcribe(const Sys& y, const VD& d, L t0, L tf) {
        Tr q; oc::Coll<P> co; q.M = ML::Zero(N * NX, NV); q.r = VL::Zero(N * NX); q.G = ML::Zero(N * NG, NV); q.H = ML::Zero(NV, NV); q.h = VL::Zero(NV); q.t.resize(N); q.sg = (tf - t0) / (2 * S);
        for (int k = 0; k < N; k++) { int b = std::min(k / P, S - 1); q.t(k) = t0 + q.sg * (2 * b + 1 - co.c[k - b * P]); }
        for (int k = 0; k < N; k++) {
            // a joint node carries the derivative of the earlier segment
            int b = k == 0 ? 0 : (k - 1) / P;
            for (int j = 0; j <= P; j++) for (int i = 0; i < NX; i++) q.M(k * NX + i, xi(b * P + j, i)) += -co.D[k - b * P][j];   // ascending points
            for (int i = 0; i < NX; i++) { int w = k * NX + i; for (int j = 0; j < NX; j++) q.M(w, xi(k, j)) -= q.sg * y.A(i, j); for (int j = 0; j < NU; j++) q.M(w, ui(k, j)) -= q.sg * y.B(i, j); for (int j = 0; j < NP; j++) q.M(w, pi(j)) -= q.sg * y.E(i, j); q.r(w) = q.sg * (y.c(i) + y.a(i) * q.t(k)); for (int j = 0; j < ND; j++) q.r(w) += q.sg * L(y.F(i, j)) * d(j); }
            for (int i = 0; i < NG; i++) { int w = k * NG + i; for (int j = 0; j < NX; j++) q.G(w, xi(k, j)) = y.G(i, j); for (int j = 0; j < NU; j++) q.G(w, ui(k, j)) = y.H(i, j); for (int j = 0; j < NP; j++) q.G(w, pi(j)) = y.K(i, j); }
        }
        auto quad = [&](const std::vector<int>& ix, const MD& W, const VL& ref, L s) { for (size_t i = 0; i < ix.size(); i++) for (size_t j = 0; j < ix.size(); j++) { L v = s * (L(W(i, j)) + W(j, i)); q.H(ix[i], ix[j]) += v; q.h(ix[i]) -= v * ref(j); } };
        for (int b = 0; b < S; b++) for (int a = 0; a <= P; a++) { int k = b * P + a; L w = q.sg * co.w[a]; std::vector<int> ix, iu, ip; VL rx(NX), ru(NU), rp(NP); for (int i = 0; i < NX; i++) { ix.push_back(xi(k, i)); rx(i) = L(y.xr(i)) * (1 + 0.1L * q.t(k)) + L(y.Rd(i, 0)) * d(0); } for (int i = 0; i < NU; i++) { iu.push_back(ui(k, i)); ru(i) = y.ur(i); } for (int i = 0; i < NP; i++) { ip.push_back(pi(i)); rp(i) = y.pr(i); }
            quad(ix, y.Q, rx, w); quad(iu, y.R, ru, w); quad(ip, MD(y.qp * MD::Identity(NP, NP)), rp, w); }
        { std::vector<int> ix; VL rx(NX); for (int i = 0; i < NX; i++) { ix.push_back(xi(N - 1, i)); rx(i) = y.xe(i); } quad(ix, y.QN, rx, 1); }
        return q;
    }
    /** a point that satisfies the dynamics and the initial state (Newton on the least-norm step) */
    static bool feasible(const Sys& y, const Tr& q, const VD& x0, VL& z) {
        ML M(N * NX + NX, NV); VL r(N * NX + NX); for (int it = 0; it < 30; it++) { M.setZero(); M.topRows(N * NX) = q.M; r.head(N * NX) = q.r - q.M * z; for (int k = 0; k < N; k++) for (int i = 0; i < NX; i++) if (y.nl(i) != 0) { L a = 0; for (int j = 0; j < NX; j++) a += L(y.W(i, j)) * z(xi(k, j)); r(k * NX + i) += q.sg * y.nl(i) * std::sin(a); for (int j = 0; j < NX; j++) M(k * NX + i, xi(k, j)) -= q.sg * y.nl(i) * std::cos(a) * y.W(i, j); }
            for (int i = 0; i < NX; i++) { M(N * NX + i, xi(0, i)) = 1; r(N * NX + i) = x0(i) - z(xi(0, i)); }
            if (r.cwiseAbs().maxCoeff() < 1e-12L) return it > 0; if (it == 0) { Eigen::JacobiSVD<MD> sv(M.template cast<double>()); if (sv.singularValues().minCoeff() < SVT) return false; }
            Eigen::CompleteOrthogonalDecomposition<ML> cod(M); z += cod.solve(r); if (!(z.cwiseAbs().maxCoeff() < 30)) return false; }
        return false;
    }
    struct Lim { MD xl, xu, ul, uu; VD gl, gu, pl, pu; bool per_node = false; };
    static void prop(Src& s, Ctx& c) {
        auto o = make<C>(); C& m = *o; Sys y; const bool lq = s.flag(0.7);
        y.A = mat(s, NX, NX, 1); y.B = mat(s, NX, NU, 1); y.E = mat(s, NX, NP, 0.5); y.F = mat(s, NX, ND, s.flag(0.4) ? 0.5 : 0); y.W = mat(s, NX, NX, 1); y.Q = spd(s, NX, 0.1); y.R = spd(s, NU, 0.1); y.QN = spd(s, NX, 0.05); y.G = mat(s, NG, NX, 1); y.H = mat(s, NG, NU, 1); y.K = mat(s, NG, NP, 0.5); y.Rd = mat(s, NX, 1, s.flag(0.4) ? 0.5 : 0);
        y.c = s.flag(0.5) ? vec(s, NX, 0.5) : VD(VD::Zero(NX)); y.a = s.flag(0.3) ? vec(s, NX, 0.2) : VD(VD::Zero(NX)); y.nl = lq ? VD(VD::Zero(NX)) : vec(s, NX, 0.4); y.gn = lq ? 0 : s.sym(0.3); y.qp = s.real(0.3, 2);
        y.xr = s.flag(0.6) ? vec(s, NX, 1) : VD(VD::Zero(NX)); y.ur = s.flag(0.3) ? vec(s, NU, 1) : VD(VD::Zero(NU)); y.xe = s.flag(0.3) ? vec(s, NX, 1) : VD(VD::Zero(NX)); y.pr = vec(s, NP, 1);
        m.ocp().y = y; VD d = vec(s, ND, 1); m.set_static_parameters(d); auto& st = m.settings(); st.eps_prim = st.eps_dual = s.pick({1e-4, 1e-3}); st.max_iter = 60; st.line_search_max_iter = 15; auto& qs = m.qp_settings(); qs.eps_abs = qs.eps_rel = 1e-8; qs.max_iter = 8000; qs.check_termination = s.pick({10, 25}); 
        if (c.want_text) { c.mat("A", y.A).mat("B", y.B).mat("E", y.E).mat("F", y.F).mat("W", y.W).mat("nl", y.nl.transpose()).mat("c", y.c.transpose()).mat("a", y.a.transpose()).mat("Q", y.Q).mat("R", y.R).mat("QN", y.QN).mat("G", y.G).mat("H", y.H).mat("K", y.K).say("gn", y.gn).mat("xr", y.xr.transpose()).mat("ur", y.ur.transpose()).mat("xe", y.xe.transpose()).mat("d", d.transpose()).say("eps", st.eps_prim); }
        double t0 = 0, len = s.real(0.4, 2.5); if (s.flag(0.4)) t0 = s.sym(4); VD x0 = vec(s, NX, 1); int steps = s.range(1, 4), solved = 0, compared = 0, active = 0; Lim b; bool have = false; VL prev;
        for (int k = 0; k < steps; k++) {
            double tf = t0 + len; m.set_time_limits(t0, tf); Tr q = transcribe(y, d, t0, tf); VL z = k ? prev : VL(VL::Zero(NV)); if (!feasible(y, q, x0, z)) { if (k == 0) throw pbt::Discard(); c.label("no reference trajectory"); break; }
            // limits around a trajectory that satisfies the dynamics, or the limits of the previous step if they still admit the trajectory
            auto inside = [&] { for (int n = 0; n < N; n++) { for (int i = 0; i < NX; i++) if (n && (z(xi(n, i)) < b.xl(i, n) + 0.02 || z(xi(n, i)) > b.xu(i, n) - 0.02)) return false; for (int i = 0; i < NU; i++) if (z(ui(n, i)) < b.ul(i, n) + 0.02 || z(ui(n, i)) > b.uu(i, n) - 0.02) return false; for (int i = 0; i < NG; i++) { L g = path(y, q, z, n, i); if (g < b.gl(n * NG + i) + 0.02 || g > b.gu(n * NG + i) - 0.02) return false; } } for (int i = 0; i < NP; i++) if (z(pi(i)) < b.pl(i) + 0.02 || z(pi(i)) > b.pu(i) - 0.02) return false; return true; };
            if (!have || !inside() || s.flag(0.3)) {
                have = true; b.xl = MD::Constant(NX, N, -sq::INF); b.xu = -b.xl; b.ul = MD::Constant(NU, N, -sq::INF); b.uu = -b.ul; b.gl = VD::Constant(NG * N, -sq::INF); b.gu = -b.gl; b.pl = VD::Constant(NP, -sq::INF); b.pu = -b.pl; bool pn = s.flag(0.2);
                auto lim = [&](double lo, double hi, double& l, double& u) { int t = s.range(0, 3); if (t == 1 || t == 3) l = lo - s.real(0.05, 1); if (t == 2 || t == 3) u = hi + s.real(0.05, 1); };
                for (int i = 0; i < NX; i++) { double lo = 1e9, hi = -1e9, l = -sq::INF, u = sq::INF; for (int n = 1; n < N; n++) { lo = std::min(lo, double(z(xi(n, i)))); hi = std::max(hi, double(z(xi(n, i)))); } lim(lo, hi, l, u); b.xl.row(i).setConstant(l); b.xu.row(i).setConstant(u); if (s.flag(0.3)) lim(double(z(xi(N - 1, i))), double(z(xi(N - 1, i))), b.xl(i, N - 1), b.xu(i, N - 1)); }
                for (int i = 0; i < NU; i++) { double lo = 1e9, hi = -1e9, l = -sq::INF, u = sq::INF; for (int n = 0; n < N; n++) { lo = std::min(lo, double(z(ui(n, i)))); hi = std::max(hi, double(z(ui(n, i)))); } lim(lo, hi, l, u); b.ul.row(i).setConstant(l); b.uu.row(i).setConstant(u); if (pn) for (int n = 0; n < N; n++) lim(double(z(ui(n, i))), double(z(ui(n, i))), b.ul(i, n), b.uu(i, n)); }
                for (int i = 0; i < NG; i++) { double lo = 1e9, hi = -1e9, l = -sq::INF, u = sq::INF; for (int n = 0; n < N; n++) { L g = path(y, q, z, n, i); lo = std::min(lo, double(g)); hi = std::max(hi, double(g)); } lim(lo, hi, l, u); for (int n = 0; n < N; n++) { b.gl(n * NG + i) = l; b.gu(n * NG + i) = u; } }
                for (int i = 0; i < NP; i++) lim(double(z(pi(i))), double(z(pi(i))), b.pl(i), b.pu(i));
                VD xl = b.xl.col(1), xu = b.xu.col(1); m.state_bounds(xl, xu); VD fl = b.xl.col(N - 1), fu = b.xu.col(N - 1); m.final_state_bounds(fl, fu);
                if (!pn) { VD ul = b.ul.col(0), uu = b.uu.col(0); if (s.flag()) m.control_bounds(ul, uu); else { m.u_lower_bound(ul); m.u_upper_bound(uu); } } else { typename C::traj_control_t l, u; for (int n = 0; n < N; n++) for (int i = 0; i < NU; i++) { l((N - 1 - n) * NU + i) = b.ul(i, n); u((N - 1 - n) * NU + i) = b.uu(i, n); } m.control_trajecotry_bounds(l, u); }
                set_g(m, b, std::integral_constant<bool, (NG > 0)>()); set_p(m, b, std::integral_constant<bool, (NP > 0)>());
            }
            state_t xs = x0; if (s.flag()) m.initial_conditions(xs); else m.initial_conditions(xs, xs);
            int warm = k ? s.range(0, 3) : 0; typename C::traj_state_t xg; typename C::traj_control_t ug; typename C::dual_var_t lg;
            if (warm == 1) { xg.setZero(); ug.setZero(); m.x_guess(xg); m.u_guess(ug); } if (warm == 2) { lg.setZero(); m.lam_guess(lg); } if (warm == 3) { for (int i = 0; i < NX * N; i++) xg(i) = s.sym(1); m.x_guess(xg); }
            c.say("t0", t0).say("tf", tf).say("start", warm).mat("x0", x0.transpose()).mat("xl", b.xl).mat("xu", b.xu).mat("ul", b.ul).mat("uu", b.uu).mat("gl", b.gl.head(NG).transpose()).mat("gu", b.gu.head(NG).transpose());
            auto& sol = m.solver(); sol.m_qp_solver.clear(); sol.stalls = 0; m.solve(); NO_NAN_BOUNDS(sol.m_qp_solver); if (sol.m_qp_solver.bad) { c.label("diverged"); break; }
            bool inner = true; for (int v : sol.m_qp_solver.status) inner &= v == int(SOLVED); const bool ok = m.info().status.value == sqp_status_t::SOLVED;
            if (!ok) { c.label("not solved"); if (lq && inner && !sol.stalls) c.label("linear-quadratic, inner problems solved, not solved"); if (getenv("SHOW")) fprintf(stderr, "NS lq %d inner %d stalls %d it %d al %g p %g d %g v %g\n", lq, inner, sol.stalls, m.info().iter, sol.last_alpha, m.primal_norm(), m.dual_norm(), m.constr_violation()); CHECK(!(lq && inner && !sol.stalls), "linear-quadratic problem with exactly solved inner problems is not solved in " << m.info().iter << " iterations"); break; }
            solved++; const MD X = m.solution_x_reshaped(), U = m.solution_u_reshaped(); VL w(NV); for (int n = 0; n < N; n++) { for (int i = 0; i < NX; i++) w(xi(n, i)) = X(i, n); for (int i = 0; i < NU; i++) w(ui(n, i)) = U(i, n); } VD pv = getp(m, std::integral_constant<bool, (NP > 0)>()); for (int i = 0; i < NP; i++) w(pi(i)) = pv(i);
            const L tol = st.eps_prim + 1e-12L * (1 + w.cwiseAbs().maxCoeff()) * (P + 1) * (P + 1);
            for (int i = 0; i < NX; i++) CHECK(std::abs(X(i, 0) - x0(i)) <= tol, "step " << k << ": the trajectory starts at x(" << i << ") = " << X(i, 0) << ", initial state " << x0(i));
            for (int n = 0; n < N; n++) { for (int i = 0; i < NX; i++) if (n) CHECK(X(i, n) >= b.xl(i, n) - tol && X(i, n) <= b.xu(i, n) + tol, "step " << k << ": state " << i << " at node " << n << " is " << X(i, n) << ", limits " << b.xl(i, n) << ", " << b.xu(i, n));
                for (int i = 0; i < NU; i++) CHECK(U(i, n) >= b.ul(i, n) - tol && U(i, n) <= b.uu(i, n) + tol, "step " << k << ": control " << i << " at node " << n << " is " << U(i, n) << ", limits " << b.ul(i, n) << ", " << b.uu(i, n));
                for (int i = 0; i < NG; i++) { L g = path(y, q, w, n, i); CHECK(g >= b.gl(n * NG + i) - tol && g <= b.gu(n * NG + i) + tol, "step " << k << ": path constraint " << i << " at node " << n << " is " << double(g) << ", limits " << b.gl(n * NG + i) << ", " << b.gu(n * NG + i)); } }
            for (int i = 0; i < NP; i++) CHECK(pv(i) >= b.pl(i) - tol && pv(i) <= b.pu(i) + tol, "parameter outside its limits");
            VL df = q.M * w - q.r; for (int n = 0; n < N; n++) for (int i = 0; i < NX; i++) { if (y.nl(i) != 0) { L a = 0; for (int j = 0; j < NX; j++) a += L(y.W(i, j)) * w(xi(n, j)); df(n * NX + i) -= q.sg * y.nl(i) * std::sin(a); } CHECK(std::abs(df(n * NX + i)) <= tol, "step " << k << ": the dynamics of state " << i << " are violated at node " << n << " by " << double(df(n * NX + i))); }
            if (lq) {   // reference optimum
                std::vector<std::pair<int, std::pair<L, L>>> ineq; ML Cm = ML::Zero(2 * (NV + NG * N), NV); VL cv(2 * (NV + NG * N)); int rows = 0; auto add = [&](const VL& a, double l, double u) { if (std::isfinite(l)) { Cm.row(rows) = -a.transpose(); cv(rows++) = -l; } if (std::isfinite(u)) { Cm.row(rows) = a.transpose(); cv(rows++) = u; } };
                for (int n = 0; n < N; n++) { for (int i = 0; i < NX; i++) if (n) add(VL::Unit(NV, xi(n, i)), b.xl(i, n), b.xu(i, n)); for (int i = 0; i < NU; i++) add(VL::Unit(NV, ui(n, i)), b.ul(i, n), b.uu(i, n)); for (int i = 0; i < NG; i++) add(q.G.row(n * NG + i).transpose(), b.gl(n * NG + i), b.gu(n * NG + i)); } for (int i = 0; i < NP; i++) add(VL::Unit(NV, pi(i)), b.pl(i), b.pu(i));
                ML E(N * NX + NX, NV); VL e(N * NX + NX); E.topRows(N * NX) = q.M; e.head(N * NX) = q.r; E.bottomRows(NX).setZero(); for (int i = 0; i < NX; i++) { E(N * NX + i, xi(0, i)) = 1; e(N * NX + i) = x0(i); } VL zs = z;
                if (!ipm(q.H, q.h, E, e, Cm.topRows(rows), cv.head(rows), zs)) c.label("no reference optimum");
                else { compared++; VL slack = cv.head(rows) - Cm.topRows(rows) * zs; for (int i = 0; i < rows; i++) active += slack(i) < 1e-6L; const L err = (w - zs).cwiseAbs().maxCoeff(); auto J = [&](const VL& v) { return 0.5L * v.dot(q.H * v) + q.h.dot(v); };
                    if (getenv("SHOW")) fprintf(stderr, "LQ it %d inner %d err %Lg eps %g gap %Lg act %d\n", m.info().iter, inner, err, st.eps_prim, J(w) - J(zs), active);
                    if (inner) CHECK(err <= 20 * st.eps_prim, "step " << k << ": the trajectory differs from the optimum of the transcribed problem by " << double(err) << ", costs " << double(J(w)) << " and " << double(J(zs))); }
            }
            // next step of the closed loop: the controller's own prediction at a later time
            prev = w; double dt = s.real(0.05, 0.5) * len; int how = s.range(0, 2); if (how == 0) x0 = m.solution_x_at(t0 + dt); else if (how == 1) { int n = s.range(1, N - 1); x0 = m.solution_x_at(n); dt = double(q.t(n)) - t0; } else { x0 = m.solution_x_at(t0 + dt); for (int i = 0; i < NX; i++) x0(i) += s.sym(0.2); }
            if (s.flag(0.7)) t0 += dt; if (s.flag(0.3)) len = s.real(0.4, 2.5); if (s.flag(0.2)) { d = vec(s, ND, 1); m.set_static_parameters(d); }
        }
        c.label("linear-quadratic", lq); c.label("closed loop of two or more solved steps", solved > 1); c.label("optimum compared", compared > 0); c.label("active limits at the optimum", active > 0); c.nt(solved > 0);
    }
    static L path(const Sys& y, const Tr& q, const VL& z, int n, int i) { return q.G.row(n * NG + i).dot(z) + y.gn * std::sin(z(xi(n, 0))); }
    static void set_g(C& m, const Lim& b, std::true_type) { con_t l = b.gl.head(NG), u = b.gu.head(NG); m.constraints_bounds(l, u); } static void set_g(C&, const Lim&, std::false_type) {}
    static void set_p(C& m, const Lim& b, std::true_type) { par_t l = b.pl, u = b.pu; m.parameters_bounds(l, u); } static void set_p(C&, const Lim&, std::false_type) {}
    static VD getp(C& m, std::true_type) { return m.solution_p(); } static VD getp(C&, std::false_type) { return VD(0); }
};
template <int NX, int NU, int NP, int NG, int P, int S, int FMT, template <class, class...> class SQ> constexpr int H25<NX, NU, NP, NG, P, S, FMT, SQ>::NV;
template <int NX, int NU, int NP, int NG, int P, int S, int FMT, template <class, class...> class SQ> constexpr int H25<NX, NU, NP, NG, P, S, FMT, SQ>::N;
}
#define LOOP(Q, NX, NU, NP, NG, P, S, FMT, SQ) static pbt::Reg PBT_CAT(r_, __LINE__)("x" #NX "_u" #NU "_p" #NP "_g" #NG "_o" #P "_s" #S "_" #FMT "_" #SQ, m25::H25<NX, NU, NP, NG, P, S, FMT, m25::SQ>::prop, Q, Q * 20);
