#pragma once
#include "poly_common.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/splines.hpp"
namespace {
using namespace pc; using pbt::Src; using pbt::Ctx;
static Poly g_poly;                                             // the integrand type must be default constructible
struct Integrand { double operator()(const double& x) const { return double(g_poly(x)); } };
struct IntegrandF { float operator()(const float& x) const { return float(g_poly(x)); } };

template <class B, bool CHEB> void prop(Src& s, Ctx& c) {
    using Sc = typename B::scalar_t;
    const int N = B::POLY_ORDER; const LD eps = std::numeric_limits<Sc>::epsilon();
    const LD u = CHEB ? 1 : (std::is_same<Sc, double>::value ? std::pow(LD(6), N - 2) : 0);   // monomial-basis root finding of the Legendre nodes: documented limitation, error grows with the order
    const LD tolx = (CHEB ? 50 * eps : 20 * eps * (1 + u));
    B b;
    typename B::nodes_t x = B::compute_nodes(); typename B::diff_mat_t D = B::compute_diff_matrix(); typename B::q_weights_t w = B::compute_int_weights(), qw = B::compute_quad_weights(), nf = B::compute_norm_factors();
    CHECK((b.CPoints() - x).cwiseAbs().maxCoeff() == 0 && (b.D() - D).cwiseAbs().maxCoeff() == 0 && (b.QWeights() - qw).cwiseAbs().maxCoeff() == 0 && (b.NFactors() - nf).cwiseAbs().maxCoeff() == 0, "object and static tables differ");
    CHECK(int(B::NUM_NODES) == N + 1, "node count");
    // nodes: ordered, end points included, interior nodes are the extrema of the top basis polynomial
    for (int i = 0; i <= N; i++) {
        CHECK(x(i) >= Sc(-1 - tolx) && x(i) <= Sc(1 + tolx), "node " << i << " = " << x(i));
        if (i) CHECK(CHEB ? x(i) < x(i - 1) : x(i) > x(i - 1), "nodes not ordered at " << i);
        if (CHEB) CHECK(std::abs(LD(x(i)) - std::cos(M_PIl * i / N)) <= tolx, "Chebyshev node " << i << " = " << x(i));
        else { int k = N; LD t = x(i); LD dP = i == 0 || i == N ? 0 : LD(k) * (t * legP(k, t) - legP(k - 1, t)) / (t * t - 1); CHECK(std::abs(dP) <= tolx * N * N * N * 10, "Legendre node " << i << " = " << x(i) << " is not an extremum: " << (double)dP); }
    }
    CHECK(std::abs(std::abs(LD(x(0))) - 1) <= tolx && std::abs(std::abs(LD(x(N))) - 1) <= tolx, "end points");
    // differentiation
    Poly p = gen(s, N); c.say("N", N).say("poly", str(p));
    Eigen::Matrix<LD, Eigen::Dynamic, 1> v(N + 1), dv(N + 1); LD vm = 0;
    for (int i = 0; i <= N; i++) { v(i) = p(x(i)); dv(i) = p.d(x(i)); vm = std::max(vm, p.mag(1)); }
    Eigen::Matrix<LD, Eigen::Dynamic, 1> got = D.template cast<LD>() * v;
    for (int i = 0; i <= N; i++) CHECK(std::abs(got(i) - dv(i)) <= (CHEB ? 200 * eps : 100 * tolx) * N * N * N * N * vm, "derivative at node " << i << " is " << (double)got(i) << " expected " << (double)dv(i));
    // quadrature
    Poly q = gen(s, CHEB ? (N % 2 ? N : N + 1) : 2 * N - 1); c.say("integrand", str(q));
    LD I = 0; for (int i = 0; i <= N; i++) I += LD(w(i)) * q(x(i));
    CHECK(std::abs(I - q.integral(-1, 1)) <= 100 * tolx * N * q.mag(1), "integral over [-1,1] is " << (double)I << " expected " << (double)q.integral(-1, 1));
    for (int i = 0; i <= N; i++) CHECK(w(i) > 0, "non-positive weight " << w(i));
    // weights for the orthogonality density
    Poly z = gen(s, 2 * N - 1); LD Q = 0, E = 0;
    for (int i = 0; i <= N; i++) Q += LD(qw(i)) * z(x(i));
    if (CHEB) { LD m = M_PIl; for (size_t k = 0; k < z.a.size(); k += 2) { E += z.a[k] * m; m *= LD(k + 1) / LD(k + 2); } } else E = z.integral(-1, 1);
    CHECK(std::abs(Q - E) <= 300 * tolx * N * z.mag(1), "weighted integral is " << (double)Q << " expected " << (double)E);
    // integrate() over any interval
    LD t0 = s.sym(3), t1 = t0 + s.real(0.1, 4); if (s.flag(0.1)) std::swap(t0, t1);
    Sc a = Sc(t0), bb = Sc(t1); g_poly = gen(s, CHEB ? N : std::min(2 * N - 1, 9)); c.say("t0", a).say("t1", bb).say("f", str(g_poly));
    LD R = std::is_same<Sc, double>::value ? LD(b.template integrate<Integrand>(a, bb)) : LD(b.template integrate<IntegrandF>(a, bb));
    LD mg = std::max(g_poly.mag(a), g_poly.mag(bb));
    CHECK(std::abs(R - g_poly.integral(a, bb)) <= 300 * tolx * N * (1 + mg) * (1 + std::abs(LD(bb) - LD(a))) * N, "integrate(" << a << "," << bb << ") = " << (double)R << " expected " << (double)g_poly.integral(a, bb));
    // composite wrapper forwards
    using Sp = polympc::Spline<B, 3>;
    CHECK(int(Sp::NUM_NODES) == 3 * N + 1 && int(Sp::POLY_ORDER) == N && int(Sp::NUM_SEGMENTS) == 3, "composite sizes");
    CHECK(Sp::compute_nodes() == x && Sp::compute_diff_matrix() == D && Sp::compute_int_weights() == w && Sp::compute_quad_weights() == qw && Sp::compute_norm_factors() == nf, "composite tables differ from the basis");
    c.nt(vm > 0 && p.a.size() > 1 && q.mag(1) > 0);
}
}
#define CH(N, Sc) pbt::Reg rc##N##Sc("chebyshev_" #N "_" #Sc, prop<polympc::Chebyshev<N, polympc::GAUSS_LOBATTO, Sc>, true>, 5000, 100000)
#define LE(N, Sc) pbt::Reg rl##N##Sc("legendre_" #N "_" #Sc, prop<polympc::Legendre<N, polympc::GAUSS_LOBATTO, Sc>, false>, 1500, 20000)
