#include "gram.hpp"
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
using namespace vh;
using gsplines::basis::BasisLagrange;

static void gram(Ctx& x, bool high) {
  Rng& g = x.rng;
  auto b = high ? make_basis(g.chance(0.5) ? LEG : GLL, (int)g.irange(11, 18), g) : random_basis(g, 1, 10);
  int dim = b.ref.dim;
  BasisScale sc(b.ref);
  std::unique_ptr<gsplines::basis::Basis> own;
  gsplines::basis::Basis* lib = b.lib.get();
  if (g.chance(0.3)) { own = b.lib->clone(); lib = own.get(); x.d("clone"); }
  else if (g.chance(0.2)) { own = b.lib->clone(); auto o2 = own->move_clone(); own = std::move(o2); lib = own.get(); x.d("move_clone"); }
  x.d(b.str());
  for (int q = 0; q < 3; q++) {
    double tau = b.ref.kind == B0101 ? g.logu(0.2, 4.5) / (double)b.ref.k() : g.chance(0.2) ? g.logu(1e-5, 1e5) : g.logu(0.02, 50);
    int deg = b.ref.kind == B0101 ? (int)g.irange(0, 3) : (int)g.irange(0, std::min(dim + 2, 9));
    bool wrt = g.chance(0.45);
    x.dv("tau", tau); x.dv("deg", deg); x.dv("wrt", wrt);
    Gram G = ref_gram(b.ref, tau, deg);
    double pre = g.chance(0.5) ? 0 : g.uni(-3, 3);
    MX big = MX::Constant(dim + 3, dim + 2, 11.0);
    Eigen::Ref<MX> m = big.block(1, 2, dim, dim);
    m.setConstant(pre);
    if (b.ref.kind == B0101 && wrt && deg != 1 && deg != 3) {
      // not provided: refused, and nothing is written
      bool t = throws([&] { lib->add_derivative_matrix_deriv_wrt_tau(tau, deg, m); });
      if (t) { x.count("refused 0101 length derivatives"); x.check((m.array() == pre).all(), "refused-but-written", b.str()); continue; }
    } else if (wrt) lib->add_derivative_matrix_deriv_wrt_tau(tau, deg, m);
    else lib->add_derivative_matrix(tau, deg, m);
    for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) {
      ld e = wrt ? G.D(i, j) : G.G(i, j);
      ld sci = sc(i, 1, tau, deg), scj = sc(j, 1, tau, deg);
      ld size = sci * scj * tau * (wrt ? (1 + 2 * deg + (b.ref.kind == B0101 ? 4 * fabsl(tau * b.ref.k()) : 0)) / tau : 1);
      std::ostringstream o; o.precision(17); o << b.str() << " tau=" << tau << " deg=" << deg << (wrt ? " d/dtau" : "") << " (" << i << "," << j << ")";
      x.close(m(i, j), (ld)pre + e, size * 1e-9L * (b.ref.kind == LAG ? 100 : 1) + 1e-14L * fabsl((ld)pre) + 1e-290L, 1.0, wrt ? "gram-length-derivative" : "gram", o.str());
      if (fabsl(e) > 0.01L * size) x.nontrivial = true;
    }
    x.count("gram entries", dim * dim);
    // nothing outside the view was touched
    bool out = true;
    for (int i = 0; i < big.rows(); i++) for (int j = 0; j < big.cols(); j++)
      if (!(i >= 1 && i < 1 + dim && j >= 2 && j < 2 + dim)) out &= big(i, j) == 11.0;
    x.check(out, "wrote-outside", b.str());
  }
}
static VX nodes(Rng& g, int n, bool wide) {
  RefBasis dummy;
  auto b = make_basis(LAG, n, g);
  VX r(n); for (int i = 0; i < n; i++) r(i) = (double)b.ref.nodes[i];
  if (wide) r = (r.array() * g.uni(0.3, 4) + g.uni(-3, 3)).matrix();
  return r;
}
// exact derivative of the Lagrange functions, as a matrix of nodal values
static void ops(Ctx& x) {
  Rng& g = x.rng;
  int n = (int)g.size(1, 10, 16);
  VX p = nodes(g, n, g.chance(0.3));
  RefBasis r; r.kind = LAG; r.dim = n; for (int i = 0; i < n; i++) r.nodes.push_back(p(i));
  x.d("nodes " + vec_str(p, 12));
  VX bw = BasisLagrange::barycentric_weights(p);
  x.check(bw.size() == n, "weights-size");
  for (int i = 0; i < n && bw.size() == n; i++) {
    ld e = 1; for (int j = 0; j < n; j++) if (j != i) e /= (ld)p(i) - (ld)p(j);
    x.close(bw(i), e, fabsl(e), 1e-11, "barycentric-weight", vec_str(p, 12));
  }
  int deg = (int)g.irange(0, n + 2);
  x.dv("deg", deg);
  MX D = g.chance(0.3) && deg == 1 ? BasisLagrange::derivative_matrix(p) : BasisLagrange::derivative_matrix(p, deg);
  if (!x.check(D.rows() == n && D.cols() == n, "derivative-matrix-size")) return;
  std::vector<ld> rowmax(n, 0);
  ld all = 1;
  // rounding grows like the product of the lower order matrices
  ld grow = 1;
  for (int k = 1; k <= deg; k++) {
    ld m = 0;
    for (int i = 0; i < n; i++) { auto js = r.jets(p(i), 1, std::min(k, std::max(0, n - 1))); for (int j = 0; j < n; j++) m = std::max(m, fabsl(js[j].d(std::min(k, std::max(0, n - 1))))); }
    all = std::max(all * n * 4, m);
  }
  ld mind = 1e9; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) mind = std::min(mind, fabsl((ld)p(i) - (ld)p(j)));
  (void)grow;
  for (int i = 0; i < n; i++) {
    auto js = r.jets(p(i), 1, deg);
    for (int j = 0; j < n; j++)
      x.close(D(i, j), js[j].d(deg), all + 1e-12L, deg <= n - 1 ? 1e-8 : 1e-7, "derivative-matrix", vec_str(p, 12) + " deg " + std::to_string(deg) + " (" + std::to_string(i) + "," + std::to_string(j) + ")");
  }
  x.count("derivative matrix entries", n * n);
}
static void change(Ctx& x) {
  Rng& g = x.rng;
  int n = (int)g.size(1, 9, 16), m = (int)g.size(1, 12, 80);
  VX p = nodes(g, n, g.chance(0.3));
  VX q(m);
  int coincide = 0;
  double lo = p.minCoeff(), hi = p.maxCoeff(), len = std::max(0.5, hi - lo);
  for (int i = 0; i < m; i++) {
    int t = (int)g.irange(0, 3);
    if (t == 0) { q(i) = p(g.irange(0, n - 1)); coincide++; }
    else if (t == 1) q(i) = g.uni(lo - 0.1 * len, hi + 0.1 * len);
    else q(i) = g.uni(lo, hi);
  }
  x.d("old " + vec_str(p, 12) + " new " + vec_str(q, 12));
  MX M = BasisLagrange::change_interpolation_points(p, q);
  if (!x.check(M.rows() == m && M.cols() == n, "change-size")) return;
  RefBasis r; r.kind = LAG; r.dim = n; for (int i = 0; i < n; i++) r.nodes.push_back(p(i));
  for (int i = 0; i < m; i++) {
    auto f = r.deriv(q(i), 2, 0), f1 = r.deriv(q(i), 2, 1);
    ld s = 0; for (ld v : f) s += fabsl(v);
    bool near = false; for (int j = 0; j < n; j++) if (q(i) != p(j) && std::fabs(q(i) - p(j)) < 4e-9 * (1 + std::fabs(p(j)))) near = true;
    if (near) continue;
    for (int j = 0; j < n; j++) x.close(M(i, j), f[j], s + fabsl(f1[j]) * 1e-3L * len, 1e-9, "change-of-nodes", vec_str(p, 12) + " -> " + vec_str(q, 12) + " row " + std::to_string(i));
    // reproduces polynomials of degree n-1
    ld c = g.uni(-1, 1), v = 0, sc = 0;
    for (int j = 0; j < n; j++) { ld t = powl((ld)p(j) - c, n - 1) * (ld)M(i, j); v += t; sc += fabsl(t); }
    x.close((double)v, powl((ld)q(i) - c, n - 1), sc + 1e-12L, 1e-8, "reproduces-polynomials", vec_str(p, 12));
  }
  x.count("coinciding nodes", coincide); x.count("node changes");
}
static void register_all() {
  scenario("gram", [](Ctx& x) { gram(x, false); }, 5);
  scenario("gram-high", [](Ctx& x) { gram(x, true); }, 1);
  scenario("node-operators", ops, 3);
  scenario("change-of-nodes", change, 3);
}
VH_MAIN
