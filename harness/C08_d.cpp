// Comparisons, aliasing, constructors, constants.
#include "expr.hpp"
namespace {
using namespace ex;
using V = Eigen::Matrix<double, 3, 1>; using A1 = Eigen::AutoDiffScalar<V>; using A2 = Eigen::AutoDiffScalar<Eigen::Matrix<A1, 3, 1>>;
static A1 rnd1(pbt::Src& s, double v) { A1 a; a.value() = v; for (int i = 0; i < 3; i++) a.derivatives()(i) = s.sym(2); return a; }
static void compare(pbt::Src& s, pbt::Ctx& c) {
    double v = s.sym(2), w = s.flag(0.3) ? v : s.flag(0.3) ? std::nextafter(v, s.flag() ? 9 : -9) : s.sym(2); A1 a = rnd1(s, v), b = rnd1(s, w); c.say("a", v).say("b", w);
#define CMP(OP) CHECK((a OP b) == (v OP w), "a " #OP " b for " << v << " and " << w); CHECK((a OP w) == (v OP w), "a " #OP " constant for " << v << " and " << w); CHECK((v OP b) == (v OP w), "constant " #OP " b for " << v << " and " << w); CHECK(((a + 0.0) OP (b + 0.0)) == (v OP w), "expression " #OP " expression");
    CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=)
    A2 p, q; p.value() = a; q.value() = b; for (int i = 0; i < 3; i++) p.derivatives()(i) = q.derivatives()(i) = rnd1(s, 1);
#undef CMP
#define CMP(OP) CHECK((p OP q) == (v OP w), "nested a " #OP " b for " << v << " and " << w); CHECK((p OP w) == (v OP w), "nested a " #OP " constant"); CHECK((v OP q) == (v OP w), "constant " #OP " nested b");
    CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=)
    using std::min; using std::max;
    if (v != w) { A1 m = min(a, b), M = max(a, b); bool l = v < w; CHECK(m.value() == std::min(v, w) && M.value() == std::max(v, w) && m.derivatives() == (l ? a : b).derivatives() && M.derivatives() == (l ? b : a).derivatives(), "min/max of " << v << " and " << w); }
    { A1 z(w), m = min(a, z), M = max(z, a); CHECK(z.derivatives().isZero(0), "constant with derivatives"); if (v != w) CHECK(m.value() == std::min(v, w) && M.value() == std::max(v, w) && m.derivatives() == (v < w ? a : z).derivatives() && M.derivatives() == (v < w ? z : a).derivatives(), "min/max with a constant"); }
    c.nt(v == w || std::abs(v - w) < 1e-12 || s.flag(0.0) || true);
}
static bool same(const A1& a, double v, const V& d) { return std::abs(a.value() - v) <= 8 * EPS * (1 + std::abs(v)) && (a.derivatives() - d).cwiseAbs().maxCoeff() <= 64 * EPS * (1 + d.cwiseAbs().maxCoeff()); }
static void alias(pbt::Src& s, pbt::Ctx& c) {
    double v = s.away(0.25, 2), w = s.away(0.25, 2), k = s.away(0.25, 2); const A1 a = rnd1(s, v), b = rnd1(s, w); const V da = a.derivatives(), db = b.derivatives(); A1 r; c.say("a", v).say("b", w).say("k", k).mat("da", da.transpose()).mat("db", db.transpose());
#define EXPECT(CODE, VAL, DER) r = a; CODE; CHECK(same(r, VAL, V(DER)), #CODE << " gives " << r.value() << " [" << r.derivatives().transpose() << "], expected " << (VAL) << " [" << V(DER).transpose() << "]");
    EXPECT(r += r, 2 * v, 2 * da) EXPECT(r -= r, 0., V::Zero()) EXPECT(r *= r, v * v, 2 * v * da) EXPECT(r /= r, 1., V::Zero())
    EXPECT(r = r * b + r, v * w + v, w * da + v * db + da) EXPECT(r = b / r, w / v, (db * v - w * da) / (v * v)) EXPECT(r = r - b * r, v - v * w, da - w * da - v * db)
    EXPECT(r += r * b, v + v * w, da + w * da + v * db) EXPECT(r *= b + r, v * (v + w), (v + w) * da + v * (da + db)) EXPECT(r /= r * r, 1 / v, -da / (v * v))
    EXPECT(r += k, v + k, da) EXPECT(r -= k, v - k, da) EXPECT(r *= k, v * k, k * da) EXPECT(r /= k, v / k, da / k)
    EXPECT(r = k / r, k / v, -k * da / (v * v)) EXPECT(r = k - r, k - v, -da) EXPECT(r = k + r, k + v, da) EXPECT(r = r + k, k + v, da) EXPECT(r = r - k, v - k, da) EXPECT(r = -r, -v, -da) EXPECT(r = A1(k), k, V::Zero())
    EXPECT(A1 t(r); t *= 2.0; r = r + t, 3 * v, 3 * da) EXPECT(r = conj(r) * real(r), v * v, 2 * v * da) EXPECT(r = A1(k, 3, 1) * r, k * v, V(k * da + v * V::Unit(1)))
    EXPECT(std::swap(r, r), v, da)
    { Eigen::Matrix<A1, 3, 1> x; x << a, b, A1(k); x(0) = x(0) * x(1) + x(2); CHECK(same(x(0), v * w + k, V(w * da + v * db)), "x(0) = x(0) x(1) + x(2)"); CHECK(same(x(1), w, db) && same(x(2), k, V::Zero()), "operands changed");
      x << a, b, A1(k); x = (x + x).eval(); CHECK(same(x(0), 2 * v, V(2 * da)) && same(x(2), 2 * k, V::Zero()), "x = x + x"); x = x * A1(k); CHECK(same(x(1), 2 * k * w, V(2 * k * db)), "x = x * k"); x.setZero(); CHECK(same(x(0), 0, V::Zero()), "setZero"); x.setConstant(a); CHECK(same(x(2), v, da), "setConstant");
      Eigen::Matrix<A1, 2, 2> M; M << a, b, A1(1.0), a; Eigen::Matrix<A1, 2, 1> y; y << b, a; Eigen::Matrix<A1, 2, 1> z = M * y; CHECK(same(z(0), 2 * v * w, V(2 * (w * da + v * db))) && same(z(1), w + v * v, V(db + 2 * v * da)), "matrix product"); CHECK(same(M.determinant(), v * v - w, V(2 * v * da - db)), "determinant"); }
    CHECK(a.value() == v && a.derivatives() == da && b.value() == w && b.derivatives() == db, "operands changed"); c.nt();
}
/** every function on its own over its whole domain, axes and other special points included */
static double point(pbt::Src& s) { switch (s.range(0, 7)) { case 0: return 0; case 1: return s.flag() ? 1 : -1; case 2: return s.flag() ? 0.5 : -0.5; case 3: return s.range(-4, 4); case 4: return (s.flag() ? 1 : -1) * s.logreal(1e-9, 1e-2); case 5: return s.sym(5); case 6: return (s.flag() ? 1 : -1) * s.logreal(5, 700); default: return s.real(-1, 1); } }
template <class T> T fun(int op, const T& a, const T& b, double k) {
    using std::sin; using std::cos; using std::exp; using std::log; using std::sqrt; using std::tan; using std::asin; using std::acos; using std::tanh; using std::sinh; using std::cosh; using std::abs; using std::atan2; using std::floor; using std::min; using std::max; T r;
    switch (op) {
    case 0: r = sin(a); break; case 1: r = cos(a); break; case 2: r = exp(a); break; case 3: r = log(a); break; case 4: r = sqrt(a); break; case 5: r = tan(a); break; case 6: r = asin(a); break; case 7: r = acos(a); break; case 8: r = tanh(a); break; case 9: r = sinh(a); break; case 10: r = cosh(a); break;
    case 11: r = abs(a); break; case 12: r = abs2(a); break; case 13: r = floor(a); break; case 14: case 15: case 16: r = atan2(a, b); break; case 17: r = a / b; break; case 18: r = k / b; break; case 19: r = a * b; break; case 20: r = min(a, b); break; default: r = max(a, b); break;
    }
    return r;
}
static bool domain(int op, double a, double b) {
    switch (op) { case 2: case 9: case 10: return std::abs(a) < 25; case 3: case 4: return a > 1e-12; case 5: return std::abs(std::cos(a)) > 1e-3; case 6: case 7: return std::abs(a) < 1 - 1e-6; case 11: return a != 0; case 13: return a != std::floor(a); case 14: case 15: case 16: return std::hypot(a, b) > 1e-4 && !(a == 0 && b < 0); case 17: case 18: return std::abs(b) > 1e-4; case 20: case 21: return a != b; default: return true; }
}
static void points(pbt::Src& s, pbt::Ctx& c) {
    int op = s.range(0, 21); double va = point(s), vb = point(s), k = point(s); c.say("function", op).say("a", va).say("b", vb).say("k", k); if (!domain(op, va, vb)) throw pbt::Discard{};
    bool same_arg = (op == 12 || op == 19) && s.flag(0.2);
    auto s1 = [](double v, int i) { return A1(v, 3, i); };
    auto s2 = [&](double v, int i) { A2 a; a.value() = s1(v, i); for (int q = 0; q < 3; q++) { a.derivatives()(q).value() = q == i; a.derivatives()(q).derivatives().setZero(); } return a; };
    Jet ja = Jet::var(va, 0, 3), jb = Jet::var(vb, 1, 3); if (same_arg) { vb = va; jb = ja; } Jet j = op == 11 ? (va < 0 ? -ja : ja) : fun(op, ja, jb, k); if (!j.finite()) throw pbt::Discard{};
    A1 r1 = fun(op, s1(va, 0), same_arg ? s1(va, 0) : s1(vb, 1), k); A2 r2 = fun(op, s2(va, 0), same_arg ? s2(va, 0) : s2(vb, 1), k);
    CHECK(near(r1.value(), j.v, j.vm) && near(r2.value().value(), j.v, j.vm), "value " << r1.value() << ", " << r2.value().value() << " expected " << double(j.v));
    for (int i = 0; i < 3; i++) {
        CHECK(near(r1.derivatives()(i), j.g(i), j.gm(i)), "derivative " << i << " is " << r1.derivatives()(i) << " expected " << double(j.g(i)));
        CHECK(near(r2.value().derivatives()(i), j.g(i), j.gm(i)) && near(r2.derivatives()(i).value(), j.g(i), j.gm(i)), "nested derivative " << i << " is " << r2.value().derivatives()(i) << ", " << r2.derivatives()(i).value() << " expected " << double(j.g(i)));
        for (int q = 0; q < 3; q++) CHECK(near(r2.derivatives()(i).derivatives()(q), j.h(i, q), j.hm(i, q), 64), "second derivative " << i << "," << q << " is " << r2.derivatives()(i).derivatives()(q) << " expected " << double(j.h(i, q)));
    }
    c.label("on an axis", va == 0 || (vb == 0 && op >= 14)); c.label("large argument", std::abs(va) > 5); c.nt();
}
/** powers with a constant exponent: any base with a whole exponent, positive base otherwise */
static void powers(pbt::Src& s, pbt::Ctx& c) {
    double v = point(s), y = s.flag() ? s.range(0, 6) : s.flag(0.4) ? s.range(-4, -1) : s.sym(3.5); c.say("base", v).say("exponent", y); bool whole = y == std::floor(y); if ((v < 0 && !whole) || (v == 0 && (y < 0 || (!whole && y < 1)))) throw pbt::Discard{};
    A1 x = rnd1(s, v), r = pow(x, y); L d = y == 0 ? 0 : L(y) * std::pow(L(v), L(y) - 1), f = std::pow(L(v), L(y)); if (std::abs(d) > 1e12L || std::abs(f) > 1e12L) throw pbt::Discard{}; L dm = 1 + std::abs(y);
    CHECK(near(r.value(), f, std::abs(f) * dm), "value " << r.value() << " expected " << double(f)); for (int i = 0; i < 3; i++) CHECK(near(r.derivatives()(i), d * x.derivatives()(i), std::abs(d * x.derivatives()(i)) * dm), "derivative " << i << " is " << r.derivatives()(i) << " expected " << double(d * x.derivatives()(i)));
    c.label("zero base", v == 0); c.label("negative base", v < 0); c.nt();
}
/** assigning a plain number to a scalar that carries derivatives makes it a constant */
static void const_assign(pbt::Src&, pbt::Ctx&) {
    A1 x(2.0, 3, 0), r = x * x; r = 1.0; CHECK(r.derivatives().isZero(0), "after r = x*x; r = 1.0; the derivatives of r are " << r.derivatives().transpose());
}
}
static pbt::Reg r1("compare", compare, 20000, 400000);
static pbt::Reg r2("alias", alias, 20000, 400000);
static pbt::Reg r3("points", points, 60000, 1200000);
static pbt::Reg r4("powers", powers, 20000, 400000);
static pbt::RegFinding f1("const_assign", const_assign);
