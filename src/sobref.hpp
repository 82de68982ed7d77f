// Reference Sobolev cost of the interpolating spline and its gradient with respect to the
// interval lengths (dense long double solve, Gauss quadrature).
#pragma once
#include "gram.hpp"
#include "interp.hpp"
namespace vh {
using Terms = std::vector<std::pair<std::size_t, double>>;
// dense long double solver for the one-component interpolation system
struct Solver {
  int N; std::vector<ld> a; std::vector<int> piv; bool ok = true;
  Solver(std::vector<ld> m, int n) : N(n), a(std::move(m)), piv(n) {
    std::vector<ld> rs(N);
    for (int i = 0; i < N; i++) { ld s = 0; for (int j = 0; j < N; j++) s = std::max(s, fabsl(a[i * N + j])); rs[i] = s ? s : 1; }
    for (int k = 0; k < N; k++) {
      int p = k; ld best = -1;
      for (int i = k; i < N; i++) { ld v = fabsl(a[i * N + k]) / rs[i]; if (v > best) { best = v; p = i; } }
      piv[k] = p; std::swap(rs[p], rs[k]);
      if (p != k) for (int j = 0; j < N; j++) std::swap(a[p * N + j], a[k * N + j]);
      if (a[k * N + k] == 0) { ok = false; return; }
      for (int i = k + 1; i < N; i++) { ld f = a[i * N + k] /= a[k * N + k]; if (f != 0) for (int j = k + 1; j < N; j++) a[i * N + j] -= f * a[k * N + j]; }
    }
  }
  std::vector<ld> solve(std::vector<ld> b) const {
    for (int k = 0; k < N; k++) { std::swap(b[k], b[piv[k]]); }
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) b[i] -= a[i * N + j] * b[j];
    for (int i = N - 1; i >= 0; i--) { for (int j = i + 1; j < N; j++) b[i] -= a[i * N + j] * b[j]; b[i] /= a[i * N + i]; }
    return b;
  }
};
struct SobRef { ld cost = 0, scale = 0; std::vector<ld> grad, gscale; };

inline SobRef reference(const RefBasis& b, const VX& taus, const MX& wp, const Terms& terms, bool gradient) {
  int n = (int)taus.size(), codom = (int)wp.cols(), dim = b.dim, N = n * dim;
  auto rows = interp_rows(n, dim);
  EndTable T(b, taus);
  std::vector<ld> A((size_t)N * N, 0);
  for (int r = 0; r < N; r++) for (auto& t : rows[r].t) { auto& v = T.val(t); for (int j = 0; j < dim; j++) A[(size_t)r * N + t.interval * dim + j] += t.sign * v[j]; }
  Solver S(A, N);
  SobRef out; out.grad.assign(n, 0); out.gscale.assign(n, 0);
  // weighted Gram matrices per interval
  std::vector<std::vector<ld>> G(n, std::vector<ld>(dim * dim, 0)), D = G, GA = G;
  for (int i = 0; i < n; i++) for (auto& w : terms) {
    Gram g = ref_gram(b, taus(i), (int)w.first);
    for (int q = 0; q < dim * dim; q++) { G[i][q] += w.second * g.g[q]; D[i][q] += w.second * g.dg[q]; GA[i][q] += fabsl(w.second) * g.ag[q]; }
  }
  // rounding floor: coefficients carry errors relative to the largest of them, and the basis
  // functions have derivatives of this size even when the spline's own derivative vanishes
  BasisScale bs(b);
  std::vector<ld> fl(n, 0);
  for (int i = 0; i < n; i++) for (auto& w : terms) { ld m = 0; for (int j = 0; j < dim; j++) m = std::max(m, bs(j, 1, taus(i), (int)w.first)); fl[i] += fabsl(w.second) * m * m * taus(i); }
  for (int k = 0; k < codom; k++) {
    std::vector<ld> rhs(N, 0);
    for (int r = 0; r < N; r++) if (rows[r].waypoint >= 0) rhs[r] = wp(rows[r].waypoint, k);
    auto c = S.solve(rhs);
    auto prod = [&](const std::vector<std::vector<ld>>& M, const std::vector<ld>& u, const std::vector<ld>& v, int only, bool abs) {
      ld r = 0;
      for (int i = 0; i < n; i++) if (only < 0 || only == i)
        for (int p = 0; p < dim; p++) for (int q = 0; q < dim; q++) { ld t = u[i * dim + p] * M[i][p * dim + q] * v[i * dim + q]; r += abs ? fabsl(t) : t; }
      return r;
    };
    ld cm = 0; for (ld v : c) cm = std::max(cm, fabsl(v));
    ld fsum = 0; for (ld v : fl) fsum += v;
    out.scale += 1e-12L * cm * cm * fsum;
    for (int p = 0; p < n; p++) out.gscale[p] += 1e-12L * cm * cm * fsum * (1 + 2 * dim) / taus(p);
    out.cost += prod(G, c, c, -1, false); out.scale += prod(GA, c, c, -1, true);
    if (gradient) for (int p = 0; p < n; p++) {
      std::vector<ld> q(N, 0);
      for (int r = 0; r < N; r++) for (auto& t : rows[r].t) if (t.interval == p) { auto& v = T.dtau(t); for (int j = 0; j < dim; j++) q[r] -= t.sign * v[j] * c[t.interval * dim + j]; }
      auto dc = S.solve(q);
      out.grad[p] += prod(D, c, c, p, false) + 2 * prod(G, c, dc, -1, false);
      out.gscale[p] += prod(GA, c, c, p, true) * (1 + 2 * b.dim) / taus(p) + 2 * prod(GA, c, dc, -1, true);
    }
  }
  return out;
}
}  // namespace vh
