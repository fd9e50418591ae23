#pragma once
#include "poly_common.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/projection.hpp"
#include "polynomials/splines.hpp"
namespace {
using namespace pc; using pbt::Src; using pbt::Ctx;
template <class B, bool CHEB> void proj(Src& s, Ctx& c) {
    using Sc = typename B::scalar_t;
    const int N = B::POLY_ORDER; const LD eps = std::numeric_limits<Sc>::epsilon();
    const LD tol = CHEB ? 200 * eps * N * N : 200 * eps * (1 + std::pow(LD(6), N - 2)) * N;
    B basis;
    for (int k = 0; k < 4; k++) {   // basis polynomials evaluate to their textbook values, end points included
        int n = s.range(0, N); Sc x = s.flag(0.3) ? Sc(s.pick({1.0, -1.0, 0.0})) : Sc(s.real(-1, 1));
        LD e = CHEB ? chebT(n, x) : legP(n, x), g = basis.eval(x, n);
        CHECK(std::abs(g - e) <= tol, "basis polynomial " << n << " at " << x << " is " << (double)g << " expected " << (double)e);
        if (CHEB) {}
    }
    // orthonormality of the discrete inner product with the advertised factors
    auto x = basis.CPoints(); auto w = basis.QWeights(); auto nf = basis.NFactors();
    int i = s.range(0, N), j = s.range(0, N); LD ip = 0; for (int k = 0; k <= N; k++) ip += LD(basis.eval(x(k), i)) * LD(basis.eval(x(k), j)) * w(k);
    CHECK(std::abs(ip * nf(i) - (i == j ? 1 : 0)) <= tol * 10, "normalised product of basis polynomials " << i << "," << j << " is " << double(ip * nf(i)));
    // projection over an interval
    Poly p = gen(s, N);
    Sc a = Sc(s.sym(5)), b = a + Sc(s.real(0.1, 6)); bool dflt = s.flag(0.2); if (dflt) { a = -1; b = 1; }
    LD sc = (LD(b) - a) / 2, dl = (LD(b) + a) / 2;
    auto f = [&](const Sc& t) -> Sc { return Sc(p((LD(t) - dl) / sc)); };
    c.say("N", N).say("poly", str(p)).say("a", a).say("b", b);
    bool again = s.flag(0.4);
    Poly p0 = again ? gen(s, N) : p; auto f0 = [&](const Sc& t) -> Sc { return Sc(p0(t)); };
    Projection<B> pr = again ? Projection<B>(f0, Sc(-2), Sc(3)) : dflt ? Projection<B>(f) : Projection<B>(f, a, b);
    if (again) { if (dflt) pr.project(f); else pr.project(f, a, b); }
    LD m = p.mag(1); LD tloc = 4 * eps * (std::abs(LD(a)) + std::abs(LD(b))) / sc;   // rounding of the interval map
    for (int k = 0; k < 5; k++) {
        Sc t = k == 0 ? a : k == 1 ? b : Sc(a + (b - a) * Sc(s.real(0, 1)));
        LD e = p((LD(t) - dl) / sc), g = pr.eval(t);
        CHECK(std::abs(g - e) <= (tol * 20 + tloc * N * N) * (m + 1e-300L), "expansion at " << t << " is " << (double)g << " expected " << (double)e);
    }
    // coefficients are those of the expansion in the basis: reconstruct with the textbook basis
    LD t = s.real(-1, 1), r = 0; for (int k = 0; k <= N; k++) r += LD(pr.coeff(k)) * (CHEB ? chebT(k, t) : legP(k, t));
    CHECK(std::abs(r - p(t)) <= (tol * 20 + tloc * N * N) * (m + 1e-300L), "coefficients do not reproduce the function at " << (double)t << ": " << (double)r << " vs " << (double)p(t));
    int deg = 0; for (size_t k = 0; k < p.a.size(); k++) if (p.a[k] != 0) deg = k;
    c.label("top degree", deg == N); c.nt(deg >= 1);
}
template <class Sc, int ROWS, int COLS> void lagrange(Src& s, Ctx& c) {
    const int n = COLS == Eigen::Dynamic ? s.range(2, 8) : COLS, rows = ROWS == Eigen::Dynamic ? s.range(1, 4) : ROWS;
    Eigen::Matrix<Sc, COLS, 1> nodes(n); double cur = s.sym(1.5);
    for (int i = 0; i < n; i++) { nodes(i) = Sc(cur); cur += s.real(0.15, 0.6); }
    if (s.flag(0.5)) nodes.reverseInPlace();
    if (s.flag(0.3)) { for (int i = n - 1; i > 0; i--) std::swap(nodes(i), nodes(s.range(0, i))); }
    Eigen::Matrix<Sc, COLS, COLS> basis(n, n); polympc::LagrangeSpline::compute_lagrange_basis(nodes, basis);
    Eigen::Matrix<Sc, ROWS, COLS> val(rows, n); for (int i = 0; i < rows; i++) for (int j = 0; j < n; j++) val(i, j) = Sc(s.sym(3));
    c.mat("nodes", nodes.transpose()).mat("values", val);
    const LD eps = std::numeric_limits<Sc>::epsilon();
    for (int k = 0; k < 4; k++) {
        int at = k < 2 ? s.range(0, n - 1) : -1;
        Sc x = at >= 0 ? nodes(at) : Sc(s.real(nodes.minCoeff() - 0.3, nodes.maxCoeff() + 0.3));
        Eigen::Matrix<Sc, ROWS, 1> g = polympc::LagrangeSpline::eval(x, val, basis);
        CHECK(g.rows() == rows, "result size " << g.rows());
        for (int r = 0; r < rows; r++) {
            LD e = 0, mag = 0;
            for (int i = 0; i < n; i++) {
                LD l = 1, cf = 1; for (int j = 0; j < n; j++) if (j != i) { l *= (LD(x) - nodes(j)) / (LD(nodes(i)) - nodes(j)); cf *= (std::abs(LD(x)) + std::abs(LD(nodes(j)))) / std::abs(LD(nodes(i)) - nodes(j)); }
                e += l * val(r, i); mag += cf * std::abs(LD(val(r, i))); }
            LD nm = 0; for (int i = 0; i < n; i++) { LD cf = 1; for (int j = 0; j < n; j++) if (j != i) cf *= (std::abs(LD(nodes(i))) + std::abs(LD(nodes(j)))) / std::abs(LD(nodes(i)) - nodes(j)); nm = std::max(nm, cf); }
            CHECK(std::abs(LD(g(r)) - e) <= 100 * n * eps * (1 + nm) * (mag + 1e-300L), "interpolant row " << r << " at " << x << " is " << g(r) << " expected " << (double)e);
            if (at >= 0) CHECK(std::abs(LD(g(r)) - val(r, at)) <= 100 * n * eps * (1 + nm) * (mag + 1e-300L), "nodal value not returned at node " << at);
        }
    }
    c.nt(n > 2);
}
}
#define CH(N, Sc) pbt::Reg rc##N##Sc("project_chebyshev_" #N "_" #Sc, proj<polympc::Chebyshev<N, polympc::GAUSS_LOBATTO, Sc>, true>, 8000, 100000)
#define LE(N, Sc) pbt::Reg rl##N##Sc("project_legendre_" #N "_" #Sc, proj<polympc::Legendre<N, polympc::GAUSS_LOBATTO, Sc>, false>, 2500, 20000)
