#pragma once
#include "pbt.hpp"
#include <array>
namespace pc {
using LD = long double;
/** polynomial with monomial coefficients, evaluated in extended precision */
struct Poly {
    std::vector<LD> a;
    LD operator()(LD x) const { LD r = 0; for (size_t i = a.size(); i-- > 0;) r = r * x + a[i]; return r; }
    LD d(LD x) const { LD r = 0; for (size_t i = a.size(); i-- > 1;) r = r * x + LD(i) * a[i]; return r; }
    LD dd(LD x) const { LD r = 0; for (size_t i = a.size(); i-- > 2;) r = r * x + LD(i) * LD(i - 1) * a[i]; return r; }
    LD prim(LD x) const { LD r = 0; for (size_t i = a.size(); i-- > 0;) r = r * x + a[i] / LD(i + 1); return r * x; }
    LD integral(LD l, LD u) const { return prim(u) - prim(l); }
    LD mag(LD x) const { LD r = 0, p = 1; for (auto c : a) { r += std::abs(c) * p; p *= std::abs(x); } return r; }
};
/** degree <= deg; sometimes a single Chebyshev or Legendre polynomial, sometimes a monomial */
inline Poly gen(pbt::Src& s, int deg) {
    Poly p; p.a.assign(deg + 1, 0);
    switch (s.range(0, 4)) {
    case 0: p.a[s.range(0, deg)] = s.away(0.2, 3); break;
    case 1: { int n = s.range(0, deg); std::vector<LD> t0(deg + 1, 0), t1(deg + 1, 0); t0[0] = 1; if (deg >= 1) t1[1] = 1;     // T_n
              if (n == 0) { p.a = t0; break; }
              for (int k = 1; k < n; k++) { std::vector<LD> t(deg + 1, 0); for (int i = 0; i + 1 <= deg; i++) t[i + 1] = 2 * t1[i]; for (int i = 0; i <= deg; i++) t[i] -= t0[i]; t0 = t1; t1 = t; }
              p.a = t1; break; }
    default: for (auto& c : p.a) c = s.sym(2);
    }
    return p;
}
inline std::string str(const Poly& p) { std::ostringstream o; for (auto c : p.a) o << (double)c << " "; return o.str(); }
inline LD chebT(int n, LD x) { LD a = 1, b = x; if (n == 0) return 1; for (int k = 1; k < n; k++) { LD t = 2 * x * b - a; a = b; b = t; } return b; }
inline LD legP(int n, LD x) { LD a = 1, b = x; if (n == 0) return 1; for (int k = 1; k < n; k++) { LD t = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = t; } return b; }
}
