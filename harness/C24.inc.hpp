// Interpolation of state and control trajectories in time against barycentric interpolation in the enclosing segment.
#include "mpc_common.hpp"
namespace {
using namespace mp; using pbt::Src; using pbt::Ctx; using L = long double;
template <int NX, int NU, int P, int S, int FMT, class Sc> struct H24 {
    using C = Ctl<NX, NU, 0, 0, 0, P, S, FMT, Sc>; static constexpr int N = P * S + 1;
    template <class G> static void check(const char* w, const G& got, const MD& v, L t, L t0, L tf, bool node, int at) {
        const L eps = std::numeric_limits<Sc>::epsilon(), h = (tf - t0) / S, T = std::max(std::abs(t0), std::abs(tf)); oc::Coll<P> co; L c[P + 1]; for (int k = 0; k <= P; k++) c[k] = (1 - co.c[k]) / 2;   // 0..1 ascending
        L best = 1e300L; std::vector<std::pair<L, L>> opt;   // (value, tolerance) in every admissible segment, per component
        CHECK(got.size() == v.rows(), w << " has the wrong size");
        for (int i = 0; i < v.rows(); i++) {
            bool ok = false; L wv = 0, wt = 0;
            for (int q = 0; q < S; q++) {
                L z = (t - t0) / h - q; const L slack = 32 * eps * (1 + T / h); if (z < -slack || z > 1 + slack) continue;
                L val = 0, mag = 0, slope = 0; for (int a = 0; a <= P; a++) { L b = 1, m = 1; for (int j = 0; j <= P; j++) if (j != a) { b *= (z - c[j]) / (c[a] - c[j]); m *= (std::abs(z) + c[j]) / std::abs(c[a] - c[j]); } val += b * v(i, q * P + a); mag += m * std::abs(v(i, q * P + a)); 
                    L sl = 0; for (int k = 0; k <= P; k++) if (k != a) { L r = 1 / std::abs(c[a] - c[k]); for (int j = 0; j <= P; j++) if (j != a && j != k) r *= (std::abs(z - c[j])) / std::abs(c[a] - c[j]); sl += r; } slope += sl * std::abs(v(i, q * P + a)); }
                L amp = 1; for (int a = 0; a <= P; a++) { L m = 1; for (int j = 0; j <= P; j++) if (j != a) m *= (c[a] + c[j]) / std::abs(c[a] - c[j]); amp = std::max(amp, m); }   // the basis is normalised by evaluating monomials
                L nodeerr = 0; for (int a = 0; a < P; a++) nodeerr = std::max(nodeerr, 16 * eps * (1 + T / h) / (c[a + 1] - c[a]));   // node positions carry the rounding of absolute time
                L tol = 40 * eps * (P + 1) * mag * amp + 64 * eps * (1 + T / h) * slope + nodeerr * (P + 1) * mag; L e = std::abs(L(got(i)) - val); if (e <= tol) ok = true; wv = val; wt = std::max(wt, tol);
            }
            CHECK(ok, w << "(t = " << double(t) << ")(" << i << ") is " << double(got(i)) << ", the collocation polynomial gives " << double(wv) << ", horizon [" << double(t0) << ", " << double(tf) << "], tolerance " << double(wt));
            if (node) CHECK(std::abs(L(got(i)) - v(i, at)) <= 2 * wt, w << " at the time of node " << at << " is " << double(got(i)) << ", value of the node " << v(i, at) << " tolerance " << double(wt));
        }
    }
    static void prop(Src& s, Ctx& c) {
        auto o = make<C>(); auto& m = *o; int n = s.range(1, 4); bool off = false, inner = false; double t0 = 0, tf = 1; using state_t = typename C::state_t; using control_t = typename C::control_t;
        typename C::traj_state_t xg; typename C::traj_control_t ug; xg.setZero(); ug.setZero(); MD X = MD::Zero(NX, N), U = MD::Zero(NU, N);
        for (int step = 0; step < n; step++) {
            if (s.flag(step ? 0.5 : 0.8)) {
                t0 = s.flag(0.3) ? 0 : s.sym(s.pick({5.0, 50.0, 0.5})); tf = t0 + s.logreal(std::is_same<Sc, float>::value ? 0.2 : 0.05, 8); t0 = double(Sc(t0)); tf = double(Sc(tf)); m.set_time_limits(Sc(t0), Sc(tf)); c.say("t0", t0).say("tf", tf); }
            if (step == 0 || s.flag(0.6)) { int kind = s.range(0, 2); double a = s.pick({1.0, 30.0});
                for (int k = 0; k < N; k++) { double tt = double(k) / N; for (int i = 0; i < NX; i++) X(i, k) = double(Sc(kind == 0 ? s.sym(a) : kind == 1 ? a * tt + i : a * std::sin(4 * tt + i))); for (int i = 0; i < NU; i++) U(i, k) = double(Sc(kind == 0 ? s.sym(a) : kind == 1 ? i - a * tt : a * std::cos(3 * tt + i))); }
                for (int k = 0; k < N; k++) { for (int i = 0; i < NX; i++) xg((N - 1 - k) * NX + i) = Sc(X(i, k)); for (int i = 0; i < NU; i++) ug((N - 1 - k) * NU + i) = Sc(U(i, k)); }
                m.x_guess(xg); m.u_guess(ug); c.mat("x", X).mat("u", U); }
            off |= t0 != 0; const C& k = m; int q = s.range(1, 4);
            for (int i = 0; i < q; i++) {
                int kind = s.range(0, 4); Sc t; bool node = false; int at = 0;
                if (kind == 0) { at = s.range(0, N - 1); t = k.time_grid(at); node = true; } else if (kind == 1) { at = P * s.range(0, S); t = k.time_grid(at); node = true; if (s.flag(0.3)) t = std::nextafter(t, s.flag() ? Sc(1e9) : Sc(-1e9)); } else if (kind == 2) { at = s.flag() ? N - 1 : 0; t = Sc(at ? tf : t0); node = true; }
                else { t = Sc(t0 + (tf - t0) * s.real(0, 1)); inner = true; }
                c.say("t", t); check("solution_x_at", k.solution_x_at(t), X, t, t0, tf, node, at); check("solution_u_at", k.solution_u_at(t), U, t, t0, tf, node, at);
            }
        }
        c.label("non-zero start time", off); c.label("between nodes", inner); c.nt(inner && N > 2);
    }
};
}
#define INTP(Q, NX, NU, P, S, FMT, SC) static pbt::Reg PBT_CAT(r_, __LINE__)("x" #NX "_u" #NU "_o" #P "_s" #S "_" #FMT "_" #SC, H24<NX, NU, P, S, FMT, SC>::prop, Q, Q * 10);
