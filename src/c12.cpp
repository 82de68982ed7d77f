#include "vh.hpp"
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
using namespace vh;
using namespace gsplines::collocation;

static void audit_rule(Ctx& x, int n, const VX& p, const VX& w, const std::string& tag) {
  if (!x.check(p.size() == n && w.size() == n, "size", tag)) return;
  auto rp = ref_gll_nodes(n); auto rw = ref_gll_weights(n);
  x.check(p(0) == -1.0 && p(n - 1) == 1.0, "ends", tag);
  for (int i = 0; i < n; i++) {
    x.close(p(i), rp[i], 1, 1e-13 * (1 + 0.05 * n), "node", tag + " node " + std::to_string(i));
    x.close(w(i), rw[i], rw[i], 1e-11 * (1 + n), "weight", tag + " weight " + std::to_string(i));
    if (i) x.check(p(i) > p(i - 1), "increasing", tag);
    x.check(w(i) > 0, "positive", tag);
    x.close(p(i), -(ld)p(n - 1 - i), 1, 1e-15, "symmetric", tag);
  }
  // integrates Legendre polynomials (well conditioned basis of all polynomials) and random ones
  for (int d = 0; d <= 2 * n - 3; d++) {
    if (n > 12 && !x.rng.chance(0.3) && d < 2 * n - 5) continue;
    ld s = 0;
    for (int i = 0; i < n; i++) { ld a, b, c; legP(d, p(i), a, b, c); s += (ld)w(i) * a; }
    x.close((double)s, d == 0 ? 2 : 0, 1, 1e-12 * (1 + n), "exactness", tag + " degree " + std::to_string(d));
    x.count("polynomials integrated");
  }
  x.nontrivial = true;
}
static void rule(Ctx& x) {
  Rng& g = x.rng;
  // every small count in turn, larger ones at random
  int n = x.id < 400 ? 2 + (int)(x.id % 60) : (int)g.irange(2, 90);
  x.dv("n", n);
  auto pw = legendre_gauss_lobatto_points_and_weights(n);
  std::string tag = "n=" + std::to_string(n);
  audit_rule(x, n, pw.first, pw.second, tag);
  x.check(same_bits(pw.first, legendre_gauss_lobatto_points(n)), "points-only", tag);
  x.check(same_bits(pw.second, legendre_gauss_lobatto_weights(n)), "weights-only", tag);
}
static void domain(Ctx& x) {
  Rng& g = x.rng;
  int n = (int)g.irange(2, 20), m = (int)(g.chance(0.2) ? g.irange(1, 40) : g.irange(1, 6));
  bool uneq = g.chance(0.6);
  double t0 = g.chance(0.2) ? 0 : g.uni(-20, 20);
  VX taus(m);
  double T = g.chance(0.2) ? g.logu(1e-6, 1e5) : g.logu(0.05, 100);
  T = (t0 + T) - t0;  // as the ends of the domain, which are doubles, have it
  bool wide = g.chance(0.3);
  for (int i = 0; i < m; i++) taus(i) = uneq ? (wide ? g.logu(1e-6, 1e3) : g.logu(0.05, 10)) : T / m;
  x.dv("n", n); x.dv("m", m); x.dv("t0", t0); x.d("taus " + vec_str(taus, 6)); x.d(uneq ? "unequal" : "equal");
  VX p = uneq ? legendre_gauss_lobatto_points(t0, n, taus) : legendre_gauss_lobatto_points(std::make_tuple(t0, t0 + T), n, m);
  VX w = uneq ? legendre_gauss_lobatto_weights(n, taus) : legendre_gauss_lobatto_weights(std::make_tuple(t0, t0 + T), n, m);
  std::string tag = "n=" + std::to_string(n) + " start " + std::to_string(t0) + (uneq ? " unequal " : " equal ") + vec_str(taus, 8);
  if (!x.check(p.size() == n * m && w.size() == n * m, "domain-size", tag)) return;
  auto rp = ref_gll_nodes(n); auto rw = ref_gll_weights(n);
  ld left = t0, tot = 0, end = t0, sum = 0;
  for (int i = 0; i < m; i++) sum += (ld)taus(i);
  end += sum;
  ld big = fabsl((ld)t0) + fabsl(end);
  for (int i = 0; i < m; i++) {
    for (int q = 0; q < n; q++) {
      x.close(p(i * n + q), left + (1 + rp[q]) / 2 * (ld)taus(i), big, 4e-14, "domain-node", tag + " interval " + std::to_string(i) + " node " + std::to_string(q));
      x.close(w(i * n + q), rw[q] * (ld)taus(i) / 2, rw[q] * (ld)taus(i) / 2, 1e-10, "domain-weight", tag + " interval " + std::to_string(i));
      tot += (ld)w(i * n + q);
    }
    left += (ld)taus(i);
  }
  x.close((double)tot, sum, sum, 1e-12, "weights-sum", tag);
  x.nontrivial = true;
  x.count(uneq ? "unequal partitions" : "equal partitions");
}
// the polynomial whose zeros are the interior nodes, as the library offers it
static void node_polynomial(Ctx& x) {
  Rng& g = x.rng;
  int n = (int)g.irange(2, 60);
  x.dv("n", n);
  for (int q = 0; q < 6; q++) {
    double t = g.chance(0.15) ? g.sgn() : g.chance(0.1) ? 0 : g.uni(-1, 1);
    x.dv("t", t);
    std::vector<ld> P(n + 2), D(n + 2);
    P[0] = 1; P[1] = t; D[0] = 0; D[1] = 1;
    for (int k = 2; k <= n + 1; k++) { P[k] = ((2 * k - 1) * (ld)t * P[k - 1] - (k - 1) * P[k - 2]) / k; D[k] = D[k - 2] + (2 * k - 1) * P[k - 1]; }
    auto [q0, q1, ln] = q_and_evaluation(t, n);
    std::string tag = "n=" + std::to_string(n) + " t=" + std::to_string(t);
    x.close(q0, P[n + 1] - P[n - 1], 2, 1e-12 * n, "node-polynomial", tag);
    x.close(q1, D[n + 1] - D[n - 1], (2 * n + 1), 1e-12 * n, "node-polynomial-derivative", tag);
    x.close(ln, P[n], 1, 1e-12 * n, "legendre-value", tag);
  }
}
static void register_all() { scenario("node-polynomial", node_polynomial, 1); scenario("rule", rule, 2); scenario("domain", domain, 2); }
VH_MAIN
