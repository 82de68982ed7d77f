#pragma once
#include "vh.hpp"
namespace vh {
// Gram matrix of the deg-th time derivatives of the basis on an interval of length tau, and
// its derivative with respect to tau, by Gauss quadrature in long double
struct Gram { std::vector<ld> g, dg, ag; int dim; ld G(int i, int j) const { return g[i * dim + j]; } ld D(int i, int j) const { return dg[i * dim + j]; } ld A(int i, int j) const { return ag[i * dim + j]; } };
inline Gram ref_gram(const RefBasis& b, ld tau, int deg) {
  Gram r; r.dim = b.dim; r.g.assign(b.dim * b.dim, 0); r.dg = r.ag = r.g;
  std::vector<ld> x, w; ref_gauss(b.kind == B0101 ? 40 : b.dim + 1, x, w);
  int pieces = b.kind == B0101 ? 3 : 1;
  for (int p = 0; p < pieces; p++)
    for (size_t q = 0; q < x.size(); q++) {
      ld s = -1 + (2.0L * p + 1 + x[q]) / pieces, ww = w[q] / pieces;
      auto f = b.deriv(s, tau, deg), d = b.deriv_tau(s, tau, deg);
      for (int i = 0; i < b.dim; i++) for (int j = 0; j < b.dim; j++) {
        // integral over the interval = tau/2 * integral over the window
        r.g[i * b.dim + j] += ww * tau / 2 * f[i] * f[j];
        r.ag[i * b.dim + j] += ww * tau / 2 * fabsl(f[i] * f[j]);
        r.dg[i * b.dim + j] += ww * (f[i] * f[j] / 2 + tau / 2 * (d[i] * f[j] + f[i] * d[j]));
      }
    }
  return r;
}
}  // namespace vh
