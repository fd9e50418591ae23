// Equidistant cubic spline: segment choice, value and first / second derivatives.
#include "poly_common.hpp"
#include <Eigen/Dense>
#include "autodiff/AutoDiffScalar.h"
#include "polynomials/splines.hpp"
namespace {
using namespace pc; using pbt::Src; using pbt::Ctx;
template <class Sc> void prop(Src& s, Ctx& c) {
    using D1 = Eigen::Matrix<Sc, 2, 1>; using A1 = Eigen::AutoDiffScalar<D1>; using D2 = Eigen::Matrix<A1, 2, 1>; using A2 = Eigen::AutoDiffScalar<D2>;
    using Spl = polympc::EquidistantCubicSpline<Sc>; using CM = typename Spl::coeffs_matrix_type;
    Spl sp; CM C; Sc L = 1; bool edge = false, joint = false;
    int rounds = s.range(1, 3);
    for (int r = 0; r < rounds; r++) {
        int n = s.range(1, 7); C.resize(4, n); for (int j = 0; j < n; j++) for (int i = 0; i < 4; i++) C(i, j) = Sc(s.sym(2));
        L = s.flag(0.5) ? Sc(s.pick({1.0, 0.5, 2.0, 0.25})) : Sc(s.real(0.1, 3));
        c.say("segments", n).say("length", L).mat("coeffs", C);
        if (s.flag(0.5)) sp = Spl(C, L); else { sp.coefficients() = C; sp.segment_length() = L; }
        CHECK(sp.coefficients() == C && sp.segment_length() == L, "stored table differs");
        for (int k = 0; k < 6; k++) {
            int kind = s.range(0, 9); Sc x; if (kind > 5) kind = kind % 5;
            if (kind == 0) x = L * Sc(s.real(0, n)); else if (kind == 1) x = L * Sc(s.range(0, n)); else if (kind == 2) x = L * Sc(n); else if (kind == 3) x = L * Sc(n + s.real(0, 3)); else if (kind == 5) x = L * Sc(std::exp2(s.range(5, 40))) * (s.flag() ? Sc(-1) : Sc(1)); else x = -L * Sc(s.real(0, 3));
            LD q = LD(x) / LD(L); c.label("far away", std::abs(q) > 1e9); long id = long(std::floor(q)); std::vector<long> cand{id};
            bool exact = std::abs(q - std::round(q)) <= 4 * std::numeric_limits<Sc>::epsilon() * (1 + std::abs(q));
            bool dy = L == 1 || L == Sc(0.5) || L == 2 || L == Sc(0.25);     // division exact: the joint belongs to the segment starting there
            if (exact && !dy) { cand.push_back(id - 1); cand.push_back(id + 1); }
            edge = edge || q >= n || q < 0; joint = joint || exact;
            auto pick = [&](LD got, std::function<LD(const Poly&)> e, std::function<LD(const Poly&)> mag, const char* what) {
                std::ostringstream o; for (long ii : cand) { long i = std::max(0L, std::min(ii, long(n - 1))); Poly p; p.a = {C(0, i), C(1, i), C(2, i), C(3, i)}; LD v = e(p); o << (double)v << " "; if (std::abs(got - v) <= 30 * std::numeric_limits<Sc>::epsilon() * mag(p)) return; }
                CHECK(false, what << " at " << x << " (x/L=" << (double)q << ", " << n << " segments) is " << (double)got << " expected " << o.str());
            };
            LD X = x; auto m0 = [X](const Poly& p) { return 1e-300L + p.mag(X); };
            pick(sp.eval(x), [X](const Poly& p) { return p(X); }, m0, "value");
            // x as a function of two variables: x = x0 + a*(v0) + b*(v1)^2 at v = (0, v1)
            Sc a = Sc(s.sym(2)), b = Sc(s.sym(1)), v1 = Sc(s.real(0.5, 1.5));
            A1 y1(x); y1.derivatives() << a, 2 * b * v1;
            A1 z1 = sp.eval(y1);
            auto m1 = [&, X](const Poly& p) { return 1e-300L + (p.mag(X) + std::abs(p.a[1]) + 2 * std::abs(p.a[2] * X) + 3 * std::abs(p.a[3] * X * X)) * (1 + std::abs(LD(a)) + 2 * std::abs(LD(b) * v1)); };
            pick(z1.value(), [X](const Poly& p) { return p(X); }, m0, "value (first order)");
            for (int i = 0; i < 2; i++) { LD g = y1.derivatives()(i); pick(z1.derivatives()(i), [X, g](const Poly& p) { return p.d(X) * g; }, m1, "first derivative"); }
            A2 y2; y2.value() = y1; for (int i = 0; i < 2; i++) { y2.derivatives()(i).value() = y1.derivatives()(i); y2.derivatives()(i).derivatives().setZero(); }
            y2.derivatives()(1).derivatives()(1) = 2 * b;
            A2 z2 = sp.eval(y2);
            auto m2 = [&, X](const Poly& p) { LD g = 1 + std::abs(LD(a)) + 2 * std::abs(LD(b) * v1); return 1e-300L + 10 * (p.mag(X) + std::abs(p.a[1]) + std::abs(p.a[2]) * (2 + std::abs(X)) + 6 * std::abs(p.a[3]) * (1 + std::abs(X) + X * X)) * g * g; };
            pick(z2.value().value(), [X](const Poly& p) { return p(X); }, m0, "value (second order)");
            for (int i = 0; i < 2; i++) {
                LD gi = y1.derivatives()(i); pick(z2.derivatives()(i).value(), [X, gi](const Poly& p) { return p.d(X) * gi; }, m1, "first derivative (second order)");
                pick(z2.value().derivatives()(i), [X, gi](const Poly& p) { return p.d(X) * gi; }, m1, "first derivative (value part)");
                for (int j = 0; j < 2; j++) { LD gj = y1.derivatives()(j), h = i == 1 && j == 1 ? 2 * LD(b) : 0; pick(z2.derivatives()(i).derivatives()(j), [X, gi, gj, h](const Poly& p) { return p.dd(X) * gi * gj + p.d(X) * h; }, m2, "second derivative"); }
            }
        }
    }
    c.label("outside or last point", edge); c.label("joint", joint); c.nt(edge || joint);
}
pbt::Reg a("spline_double", prop<double>, 20000, 400000), b("spline_float", prop<float>, 10000, 200000);
}
