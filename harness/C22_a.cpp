// Coefficient-polynomial helpers against exact convolution / differentiation.
#include "pbt.hpp"
#include "polynomials/polynomial_math.hpp"
namespace {
using pbt::Src; using pbt::Ctx;
template <class Sc, int N> void prop(Src& s, Ctx& c) {
    using V = Eigen::Matrix<Sc, N, 1>;
    auto gen = [&]() { V v = V::Zero(); int k = s.range(0, 5); int hi = s.range(0, N); for (int i = 0; i < N; i++) v(i) = k == 0 ? Sc(0) : i >= hi && k < 3 ? Sc(0) : (k == 4 && s.flag(0.6)) ? Sc(0) : Sc(s.away(0.01, 4)); if (s.flag(0.4)) v *= Sc(s.logreal(sizeof(Sc) == 8 ? 1e-40 : 1e-9, sizeof(Sc) == 8 ? 1e40 : 1e9)); if (s.flag(0.2)) for (int i = 0; i < N; i++) v(i) *= Sc(s.logreal(1e-7, 1e7)); return v; };
    V p = gen(), q = gen(); c.mat("p", p.transpose()).mat("q", q.transpose());
    Eigen::Matrix<Sc, N, 3> holder; holder.setConstant(Sc(7)); holder.col(1) = p;
    int form = s.range(0, 2);
    V r = form == 0 ? polympc::polymath::poly_mul(p, q) : form == 1 ? polympc::polymath::poly_mul(holder.col(1), q) : polympc::polymath::poly_mul(q, p);
    int terms = 0;
    for (int k = 0; k < N; k++) {
        long double e = 0, m = 0; int t = 0;
        for (int i = 0; i <= k; i++) { long double z = (long double)p(i) * q(k - i); e += z; m += std::abs(z); t += z != 0; }
        terms = std::max(terms, t);
        CHECK(std::abs((long double)r(k) - e) <= 100 * std::numeric_limits<Sc>::epsilon() * m, "coefficient " << k << " of the product is " << r(k) << " expected " << (double)e);
    }
    V d = form == 1 ? polympc::polymath::poly_diff(holder.col(1)) : polympc::polymath::poly_diff(p);
    for (int k = 0; k < N; k++) {
        long double e = k + 1 < N ? (long double)(k + 1) * p(k + 1) : 0.0L;
        CHECK(std::abs((long double)d(k) - e) <= 10 * std::numeric_limits<Sc>::epsilon() * std::abs(e), "coefficient " << k << " of the derivative is " << d(k) << " expected " << (double)e);
    }
    // product rule, truncated at the storage order: (pq)' = p'q + pq' for orders below the last
    V dp = polympc::polymath::poly_diff(p), dq = polympc::polymath::poly_diff(q), lhs = polympc::polymath::poly_diff(polympc::polymath::poly_mul(p, q));
    V rhs = polympc::polymath::poly_mul(dp, q) + polympc::polymath::poly_mul(p, dq);
    for (int k = 0; k + 1 < N; k++) CHECK(std::abs((long double)lhs(k) - rhs(k)) <= 2000.0L * std::numeric_limits<Sc>::epsilon() * N * (long double)p.cwiseAbs().sum() * q.cwiseAbs().sum(), "product rule at order " << k);
    c.label("zero factor", p.isZero() || q.isZero()); c.label("both longer than one term", terms > 1);
    c.label("coefficients below epsilon", (p.cwiseAbs().array() < std::numeric_limits<Sc>::epsilon() && p.array() != 0).any()); c.nt(terms > 1 || p.isZero() || q.isZero());
}
#define R(N) pbt::Reg r##N("poly_double_" #N, prop<double, N>, 15000, 200000)
R(2); R(3); R(4); R(6); R(9);
pbt::Reg rf("poly_float_5", prop<float, 5>, 15000, 200000);
}
