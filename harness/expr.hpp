// Random straight-line programs evaluated with any scalar type, and an independent second-order jet
// (value, gradient, Hessian in long double, together with a first-order rounding-error magnitude for each).
#pragma once
#include <Eigen/Dense>
#include "autodiff/AutoDiffScalar.h"
#include "pbt.hpp"
namespace ex {
using L = long double;
/** number of differentiated inputs is a run-time value (0 for a constant), so that everything below is compiled once */
struct Jet {
    static constexpr int MAX = 12;
    int n; L v, vm, g_[MAX], gm_[MAX], h_[MAX * MAX], hm_[MAX * MAX];
    Jet() : n(0), v(0), vm(0) {}
    Jet(double c) : n(0), v(c), vm(std::abs(L(c))) {}
    Jet(const Jet& o) { *this = o; }
    Jet& operator=(const Jet& o) { n = o.n; v = o.v; vm = o.vm; std::copy_n(o.g_, n, g_); std::copy_n(o.gm_, n, gm_); std::copy_n(o.h_, n * n, h_); std::copy_n(o.hm_, n * n, hm_); return *this; }
    static Jet var(double x, int i, int n) { if (n > MAX) { fprintf(stderr, "too many inputs\n"); abort(); } Jet j(x); j.size(n); for (int k = 0; k < n; k++) j.g_[k] = j.gm_[k] = k == i; std::fill_n(j.h_, n * n, 0); std::fill_n(j.hm_, n * n, 0); return j; }
    void size(int m) { n = m; }
    L g(int i) const { return n ? g_[i] : 0; } L gm(int i) const { return n ? gm_[i] : 0; }
    L h(int i, int k) const { return n ? h_[i * n + k] : 0; } L hm(int i, int k) const { return n ? hm_[i * n + k] : 0; }
    void scale_h(L c) { for (int i = 0; i < n * n; i++) { h_[i] *= c; hm_[i] *= std::abs(c); } }
    bool curved() const { for (int i = 0; i < n * n; i++) if (h_[i] != 0) return true; return false; }
    bool finite() const { if (!std::isfinite(v) || !(vm < 1e9L)) return false; for (int i = 0; i < n; i++) if (!(gm_[i] < 1e12L)) return false; for (int i = 0; i < n * n; i++) if (!(hm_[i] < 1e15L)) return false; return true; }
    /** fills gradient and Hessian from functions of the indices */
    template <class F, class FM, class H, class HM> void fill(int m, F f, FM fm, H hh, HM hhm) { n = m; for (int i = 0; i < n; i++) { g_[i] = f(i); gm_[i] = fm(i); for (int k = 0; k < n; k++) { h_[i * n + k] = hh(i, k); hm_[i * n + k] = hhm(i, k); } } }
};
#define EX_ABS(x) std::abs(x)
inline Jet lin(const Jet& a, const Jet& b, L c) { Jet r; r.v = a.v + c * b.v; r.vm = a.vm + b.vm; L d = std::abs(c); r.fill(std::max(a.n, b.n), [&](int i) { return a.g(i) + c * b.g(i); }, [&](int i) { return a.gm(i) + d * b.gm(i); }, [&](int i, int k) { return a.h(i, k) + c * b.h(i, k); }, [&](int i, int k) { return a.hm(i, k) + d * b.hm(i, k); }); return r; }
inline Jet operator+(const Jet& a, const Jet& b) { return lin(a, b, 1); }
inline Jet operator-(const Jet& a, const Jet& b) { return lin(a, b, -1); }
inline Jet operator*(const Jet& a, const Jet& b) {
    Jet r; r.v = a.v * b.v; L A = std::abs(a.v), B = std::abs(b.v); r.vm = a.vm * B + A * b.vm; if (A * B > 1e6L) throw pbt::Discard{};
    r.fill(std::max(a.n, b.n), [&](int i) { return a.g(i) * b.v + b.g(i) * a.v; }, [&](int i) { return a.gm(i) * B + EX_ABS(a.g(i)) * b.vm + b.gm(i) * A + EX_ABS(b.g(i)) * a.vm; },
        [&](int i, int k) { return a.h(i, k) * b.v + b.h(i, k) * a.v + a.g(i) * b.g(k) + b.g(i) * a.g(k); },
        [&](int i, int k) { auto m = [&](int p, int q) { return a.gm(p) * EX_ABS(b.g(q)) + EX_ABS(a.g(p)) * b.gm(q); }; return a.hm(i, k) * B + EX_ABS(a.h(i, k)) * b.vm + b.hm(i, k) * A + EX_ABS(b.h(i, k)) * a.vm + m(i, k) + m(k, i); });
    return r;
}
/** composition with a scalar function given its derivatives 0..3 at a.v */
inline Jet un(const Jet& a, L f, L f1, L f2, L f3) {
    Jet r; r.v = f; L F1 = std::abs(f1), F2 = std::abs(f2), F3 = std::abs(f3); r.vm = std::abs(f) + F1 * a.vm;
    r.fill(a.n, [&](int i) { return f1 * a.g(i); }, [&](int i) { return F1 * (a.gm(i) + EX_ABS(a.g(i))) + F2 * a.vm * EX_ABS(a.g(i)); },
        [&](int i, int k) { return f1 * a.h(i, k) + f2 * a.g(i) * a.g(k); },
        [&](int i, int k) { L p = EX_ABS(a.g(i)), q = EX_ABS(a.g(k)); return F1 * (a.hm(i, k) + EX_ABS(a.h(i, k))) + F2 * (a.vm * EX_ABS(a.h(i, k)) + p * a.gm(k) + a.gm(i) * q + p * q) + F3 * a.vm * p * q; });
    return r;
}
inline Jet operator-(const Jet& a) { return Jet(-1.0) * a; }
inline Jet inv(const Jet& a) { L x = a.v; return un(a, 1 / x, -1 / (x * x), 2 / (x * x * x), -6 / (x * x * x * x)); }
inline Jet operator/(const Jet& a, const Jet& b) { return a * inv(b); }
#define EX_MIXED(OP) inline Jet operator OP(const Jet& a, double b) { return a OP Jet(b); } inline Jet operator OP(double a, const Jet& b) { return Jet(a) OP b; } \
    inline Jet& operator OP##=(Jet& a, const Jet& b) { Jet t = a OP b; a = t; return a; } inline Jet& operator OP##=(Jet& a, double b) { Jet t = a OP b; a = t; return a; }
EX_MIXED(+) EX_MIXED(-) EX_MIXED(*) EX_MIXED(/)
#undef EX_MIXED
inline bool decide(const Jet& a, const Jet& b) { if (std::abs(a.v - b.v) < 1e-7L * (1 + a.vm + b.vm)) throw pbt::Discard{}; return a.v < b.v; }
inline bool operator<(const Jet& a, const Jet& b) { return decide(a, b); }
inline bool operator>(const Jet& a, const Jet& b) { return decide(b, a); }
inline bool operator<(const Jet& a, double b) { return decide(a, Jet(b)); }
inline bool operator>(const Jet& a, double b) { return decide(Jet(b), a); }
inline bool operator<(double a, const Jet& b) { return decide(Jet(a), b); }
inline bool operator>=(const Jet& a, double b) { return !decide(a, Jet(b)); }
inline bool operator<=(const Jet& a, const Jet& b) { return decide(a, b); }
inline Jet sin(const Jet& a) { L s = std::sin(a.v), c = std::cos(a.v); return un(a, s, c, -s, -c); }
inline Jet cos(const Jet& a) { L s = std::sin(a.v), c = std::cos(a.v); return un(a, c, -s, -c, s); }
inline Jet exp(const Jet& a) { L e = std::exp(a.v); return un(a, e, e, e, e); }
inline Jet log(const Jet& a) { L x = a.v; return un(a, std::log(x), 1 / x, -1 / (x * x), 2 / (x * x * x)); }
inline Jet sqrt(const Jet& a) { L x = a.v, q = std::sqrt(x); return un(a, q, 0.5L / q, -0.25L / (q * x), 0.375L / (q * x * x)); }
inline Jet powc(const Jet& a, double c) { L x = a.v, k = c; return un(a, std::pow(x, k), k * std::pow(x, k - 1), k * (k - 1) * std::pow(x, k - 2), k * (k - 1) * (k - 2) * std::pow(x, k - 3)); }
inline Jet tan(const Jet& a) { L t = std::tan(a.v), s = 1 + t * t; return un(a, t, s, 2 * t * s, s * (2 + 6 * t * t)); }
inline Jet asin(const Jet& a) { L x = a.v, q = 1 - x * x, r = std::sqrt(q); return un(a, std::asin(x), 1 / r, x / (q * r), (1 + 2 * x * x) / (q * q * r)); }
inline Jet acos(const Jet& a) { L x = a.v, q = 1 - x * x, r = std::sqrt(q); return un(a, std::acos(x), -1 / r, -x / (q * r), -(1 + 2 * x * x) / (q * q * r)); }
inline Jet tanh(const Jet& a) { if (std::abs(a.v) > 5000) throw pbt::Discard{}; L t = std::tanh(a.v), ch = std::cosh(a.v), s = 1 / (ch * ch); return un(a, t, s, -2 * t * s, s * (6 * t * t - 2)); }
inline Jet sinh(const Jet& a) { L s = std::sinh(a.v), c = std::cosh(a.v); return un(a, s, c, s, c); }
inline Jet cosh(const Jet& a) { L s = std::sinh(a.v), c = std::cosh(a.v); return un(a, c, s, c, s); }
inline Jet abs(const Jet& a) { return decide(a, Jet(0.0)) ? -a : a; }
inline Jet abs2(const Jet& a) { return a * a; }
inline Jet floor(const Jet& a) { L f = std::floor(a.v); if (a.v - f < 1e-7L * (1 + a.vm) || f + 1 - a.v < 1e-7L * (1 + a.vm)) throw pbt::Discard{}; return Jet(double(f)); }
inline Jet (min)(const Jet& a, const Jet& b) { return decide(a, b) ? a : b; }
inline Jet (max)(const Jet& a, const Jet& b) { return decide(a, b) ? b : a; }
/** the angle of (x = b, y = a), composed from log/inv derivatives of the plane */
inline Jet atan2(const Jet& a, const Jet& b) {
    // gradient (b da - a db)/(a^2+b^2): differentiate the two factors by jet arithmetic
    Jet q = inv(a * a + b * b), A = b * q, B = a * q; Jet r; r.v = std::atan2(a.v, b.v); r.vm = std::abs(r.v) + std::abs(A.v) * a.vm + std::abs(B.v) * b.vm; L X = std::abs(A.v), Y = std::abs(B.v);
    r.fill(std::max(a.n, b.n), [&](int i) { return A.v * a.g(i) - B.v * b.g(i); }, [&](int i) { return A.vm * EX_ABS(a.g(i)) + X * a.gm(i) + B.vm * EX_ABS(b.g(i)) + Y * b.gm(i); },
        [&](int i, int k) { return A.v * a.h(i, k) - B.v * b.h(i, k) + a.g(i) * A.g(k) - b.g(i) * B.g(k); },
        [&](int i, int k) { auto m = [&](int p, int t) { return EX_ABS(a.g(p)) * A.gm(t) + a.gm(p) * EX_ABS(A.g(t)) + EX_ABS(b.g(p)) * B.gm(t) + b.gm(p) * EX_ABS(B.g(t)); }; return A.vm * EX_ABS(a.h(i, k)) + X * a.hm(i, k) + B.vm * EX_ABS(b.h(i, k)) + Y * b.hm(i, k) + m(i, k) + m(k, i); });
    return r;
}
// ---- generic helpers
template <class T> struct depth { static constexpr int v = 0; };
template <class D> struct depth<Eigen::AutoDiffScalar<D>> { static constexpr int v = 1 + depth<typename Eigen::internal::remove_all<D>::type::Scalar>::v; };
template <class T> struct base { using type = T; };
template <class D> struct base<Eigen::AutoDiffScalar<D>> { using type = typename base<typename Eigen::internal::remove_all<D>::type::Scalar>::type; };
template <> struct base<Jet> { using type = double; };
inline double powc(double x, double c) { return std::pow(x, c); }
inline float powc(float x, double c) { return std::pow(x, float(c)); }
template <class D> typename std::enable_if<(depth<Eigen::AutoDiffScalar<D>>::v == 1), Eigen::AutoDiffScalar<D>>::type powc(const Eigen::AutoDiffScalar<D>& x, double c) { return pow(x, typename D::Scalar(c)); }
template <class D> typename std::enable_if<(depth<Eigen::AutoDiffScalar<D>>::v == 2), Eigen::AutoDiffScalar<D>>::type powc(const Eigen::AutoDiffScalar<D>& x, double c) { Eigen::AutoDiffScalar<D> l = log(x); return exp(c * l); }
inline double abs2(double x) { return x * x; }
inline float abs2(float x) { return x * x; }
template <class T> T vec3(int kind, const T& a, const T& b, const T& d, typename base<T>::type c) {
    using S = typename base<T>::type; Eigen::Matrix<T, 3, 1> x; x << a, b, d; Eigen::Matrix<S, 3, 3> Q; Q << c, 0.5, 0, -0.25, 1, c, 0.125, 0, -0.75;
    switch (kind) {
    case 0: return x.dot(x);
    case 1: return x.norm();
    case 2: { Eigen::Matrix<T, 3, 1> y = Q.template cast<T>() * x; return x.dot(y); }
    case 3: { Eigen::Matrix<T, 3, 1> y = Q * x; return y(0) * y(1) + y(2); }
    case 4: return x.squaredNorm() - T(c);
    default: return x.sum() + x.prod();
    }
}
inline Jet vec3(int kind, const Jet& a, const Jet& b, const Jet& d, double c) {
    Jet y0 = c * a + 0.5 * b, y1 = -0.25 * a + b + c * d, y2 = 0.125 * a - 0.75 * d, sq = a * a + b * b + d * d;
    switch (kind) {
    case 0: return sq;
    case 1: if (sq.v < 1e-4L) throw pbt::Discard{}; return sqrt(sq);
    case 2: return a * y0 + b * y1 + d * y2;
    case 3: return y0 * y1 + y2;
    case 4: return sq - c;
    default: return a + b + d + a * b * d;
    }
}
enum { NOPS = 52, NSMOOTH = 44 };   // operations >= NSMOOTH have kinks
struct Ins { int op, a, b; double c; int pc; };   // pc >= 0: the constant is plain input pc (plus c)
struct Prog { int nin = 0; std::vector<Ins> ins; std::vector<std::pair<int, double>> out; };
template <class T> T apply(int op, const T& a, const T& b, double c_) {
    using std::sin; using std::cos; using std::exp; using std::log; using std::sqrt; using std::tan; using std::asin; using std::acos; using std::tanh; using std::sinh; using std::cosh; using std::abs; using std::atan2; using std::floor; using std::min; using std::max; using S = typename base<T>::type; const S c = S(c_);
    T r;
    switch (op) {
    case 0: r = a + b; break;
    case 1: r = a - b; break;
    case 2: r = a * b; break;
    case 3: { T d = b * b + S(2); r = a / d; break; }
    case 4: r = a + c; break;
    case 5: r = c + a; break;
    case 6: r = a - c; break;
    case 7: r = c - a; break;
    case 8: r = a * c; break;
    case 9: r = c * a; break;
    case 10: r = a / (c * c + S(0.5)); break;
    case 11: { T d = b * b + S(1.5); r = c / d; break; }
    case 12: r = -a; break;
    case 13: r = sin(a); break;
    case 14: r = cos(a); break;
    case 15: { T d = tanh(a); r = exp(d); break; }
    case 16: r = log(a * a + S(1.5)); break;
    case 17: r = sqrt(a * a + S(1)); break;
    case 18: { T d = sin(a); r = tan(d); break; }
    case 19: { T d = sin(a); d *= S(0.75); r = asin(d); break; }
    case 20: { T d = cos(a); d = d * S(0.75); r = acos(d); break; }
    case 21: r = tanh(a); break;
    case 22: { T d = sin(a); r = sinh(d); break; }
    case 23: { T d = cos(a); r = cosh(d); break; }
    case 24: r = abs2(a); break;
    case 25: { T d = a * a + S(0.5); r = powc(d, c); break; }
    case 26: { T d = b * b + S(1); r = atan2(a, d); break; }
    case 27: r = a; r += b; r *= a; r -= c; r /= (c * c + S(1)); break;
    case 28: r = a; r *= r; r += r; break;
    case 29: r = a * b + sin(a) * c - b / (a * a + S(2)); break;
    case 30: { T d = b * b + S(1); r = a; r /= d; r -= b; break; }
    case 31: r = T(c); r += a; r *= c; break;
    case 32: r = a * (b - c) + (c - a) * b; break;
    case 33: r = a * a * a; break;
    case 34: r = sin(a * b + c); break;
    case 35: r = exp(sin(a) * S(0.5)) * b; break;
    case 36: r = a - a * b; break;
    case 37: r = T(S(1)) - a; r = r * r - r; break;
    case 38: case 39: case 40: case 41: case 42: case 43: { T d = a + b; r = vec3(op - 38, a, b, d, c); break; }
    // kinks
    case 44: r = abs(a); break;
    case 45: r = min(a, b); break;
    case 46: r = max(a, b); break;
    case 47: { bool z = a < b; r = z ? T(a * b) : T(a - b); break; }
    case 48: { T d(c); r = max(a, d); break; }
    case 49: { bool z = a > c; if (z) { r = a; r *= b; } else r = b; break; }
    case 50: { T f = floor(a); r = a - f + b; break; }
    default: r = (c < a) ? T(a * S(2)) : T(b + a); break;
    }
    return r;
}
template <class T> T run(const Prog& p, const T* in, const double* plain = nullptr) {
    std::vector<T, Eigen::aligned_allocator<T>> r; r.reserve(p.nin + p.ins.size());
    for (int i = 0; i < p.nin; i++) r.push_back(in[i]);
    for (auto& k : p.ins) { double c = k.c + (k.pc >= 0 && plain ? plain[k.pc] : 0); r.push_back(apply<T>(k.op, r[k.a], r[k.b], c)); }
    using S = typename base<T>::type; T s = T(S(0)); bool first = true;
    for (auto& o : p.out) { if (first) { s = r[o.first] * S(o.second); first = false; } else s += r[o.first] * S(o.second); }
    return s;
}
/** random program over nin differentiated inputs and npl plain inputs */
inline Prog gen(pbt::Src& s, int nin, int npl, int maxlen, bool kinks = false) {
    Prog p; p.nin = nin; int n = s.range(0, maxlen);
    for (int i = 0; i < n; i++) {
        Ins k; int tot = nin + i; k.op = s.range(0, (kinks ? NOPS : NSMOOTH) - 1);
        auto pick = [&] { return s.flag(0.4) && i > 0 ? nin + s.range(0, i - 1) : s.range(0, tot - 1); };
        k.a = pick(); k.b = pick(); k.c = s.sym(2); k.pc = npl && s.flag(0.4) ? s.range(0, npl - 1) : -1; p.ins.push_back(k);
    }
    int m = s.range(1, 3); for (int i = 0; i < m; i++) { int tot = nin + n; p.out.push_back({i == 0 ? tot - 1 - s.range(0, std::min(tot - 1, 2)) : s.range(0, tot - 1), s.flag(0.7) ? 1 : s.away(0.25, 2)}); }
    return p;
}
/** quadratic in the inputs */
inline std::string text(const Prog& p) {
    std::ostringstream o; o << std::setprecision(5);
    for (size_t i = 0; i < p.ins.size(); i++) { auto& k = p.ins[i]; o << "r" << p.nin + i << "=op" << k.op << "(r" << k.a << ",r" << k.b << "," << k.c; if (k.pc >= 0) o << "+p" << k.pc; o << ") "; }
    o << "out"; for (auto& t : p.out) o << " " << t.second << "*r" << t.first; return o.str();
}
constexpr double EPS = 2.220446049250313e-16;
inline bool near(double got, L want, L mag, double k = 24, double eps = EPS) { return std::isfinite(got) && std::abs(L(got) - want) <= k * eps * mag + L(eps) * eps; }
}  // namespace ex
