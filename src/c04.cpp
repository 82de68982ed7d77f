#include "interp.hpp"
#include <gsplines/Functions/FunctionExpression.hpp>
using namespace vh;
using gsplines::GSpline;
using gsplines::Interpolator;

static std::map<int,double> worst;
// residual of every row of the definition, in long double, against the coefficients returned
static void audit_coeff(Ctx& x, const RefBasis& b, const VX& taus, const MX& wp, const VX& c, const std::string& tag) {
  int n = (int)taus.size(), codom = (int)wp.cols(), dim = b.dim;
  if (!x.check(c.size() == (long)n * codom * dim, "coefficient-count", tag)) return;
  EndTable T(b, taus);
  for (auto& row : interp_rows(n, dim))
    for (int k = 0; k < codom; k++) {
      ld r = 0, sc = 0;
      for (auto& t : row.t) {
        auto& v = T.val(t);
        for (int j = 0; j < dim; j++) {
          ld q = (ld)t.sign * v[j] * (ld)c((t.interval * codom + k) * dim + j);
          r += q; sc += fabsl(q);
        }
      }
      ld want = row.waypoint < 0 ? 0 : (ld)wp(row.waypoint, k);
      sc += fabsl(want);
      // magnitude the row could have for coefficients of this size
      ld cm = 0, vm = 0;
      for (auto& t : row.t) { for (ld q : T.val(t)) vm = std::max(vm, fabsl(q)); for (int j = 0; j < dim; j++) cm = std::max(cm, fabsl((ld)c((t.interval * codom + k) * dim + j))); }
      sc = std::max(sc, vm * cm);
      x.checks++;
      if (fabsl(want) > 0) x.nontrivial = true;
      if (!(fabsl(r - want) <= (ld)interp_tol(b) * sc) || !std::isfinite((double)r)) {
        std::ostringstream o; o.precision(17);
        o << tag << " " << row.what << " interval " << row.t[0].interval << " order " << row.t[0].deg << " component " << k
          << " got " << (double)r << " want " << (double)want << " scale " << (double)sc;
        x.fail(std::string("row:") + row.what, o.str());
      }
      if (sc > 0) worst[b.dim] = std::max(worst[b.dim], (double)(fabsl(r - want) / sc));
      x.count(row.waypoint >= 0 ? "waypoint rows" : row.t.size() == 2 ? "continuity rows" : "rest rows");
    }
}
// the same facts read from the returned spline itself
static void audit_spline(Ctx& x, const RefBasis& b, const VX& taus, const MX& wp, const GSpline& f, const std::string& tag) {
  int n = (int)taus.size(), codom = (int)wp.cols();
  x.check(f.get_domain().first == 0.0, "domain-start", tag);
  x.close(f.get_domain().second, taus.sum(), taus.sum(), 1e-13, "domain-end", tag);
  x.check(same_bits(f.get_interval_lengths(), taus), "interval-lengths", tag);
  x.check(f.get_codom_dim() == (size_t)codom && f.get_number_of_intervals() == (size_t)n, "shape", tag);
  audit_coeff(x, b, taus, wp, f.get_coefficients(), tag);
  VX bp(n + 1); bp(0) = 0; for (int i = 0; i < n; i++) bp(i + 1) = bp(i) + taus(i);
  MX v = f(bp), w2 = f.get_waypoints();
  double cm = f.get_coefficients().cwiseAbs().maxCoeff();
  double gr = b.kind == B0101 ? std::exp(taus.maxCoeff() * (double)b.k()) : 1;
  if (b.kind == LAG) { ld m = 0; for (double s : {-1.0, 1.0}) for (ld q : b.deriv(s, 1, 0)) m = std::max(m, fabsl(q)); gr = 1 + (double)m; }
  for (int i = 0; i <= n; i++)
    for (int k = 0; k < codom; k++) {
      double sc = b.dim * cm * gr + std::fabs(wp(i, k));
      x.close(v(i, k), wp(i, k), sc + 1e-300, interp_tol(b), "value-at-breakpoint", tag + " " + std::to_string(i));
      if (w2.rows() == n + 1) x.close(w2(i, k), wp(i, k), sc + 1e-300, interp_tol(b), "get_waypoints", tag);
    }
  x.check(w2.rows() == n + 1 && w2.cols() == codom, "get_waypoints-shape", tag);
}
static void go(Ctx& x, int dmax, int nmax, int cmax) {
  Rng& g = x.rng;
  auto b = random_basis(g, 2, dmax, true);
  int n = (int)(g.chance(0.25) ? g.irange(1, 2) : g.irange(1, nmax)), codom = (int)g.irange(1, cmax);
  int style = (int)g.irange(0, 3);
  x.d(b.str()); x.dv("n", n); x.dv("codom", codom); x.dv("style", style);
  VX taus = interp_taus(g, b.ref, n, style);
  MX wp = interp_wp(g, n, codom);
  x.d("taus=" + vec_str(taus, 4)); 
  std::string tag = b.str() + " n=" + std::to_string(n) + " codom=" + std::to_string(codom) + " taus=" + vec_str(taus, 5);
  int how = (int)g.irange(0, 4);
  x.dv("how", how);
  if (how == 0) { audit_spline(x, b.ref, taus, wp, gsplines::interpolate(taus, wp, *b.lib), tag + " free function"); return; }
  if (how == 1 && b.ref.kind == LEG) {
    audit_spline(x, b.ref, taus, wp, gsplines::pw_polynomial_interpolation(taus, wp, b.ref.dim), tag + " polynomial");
    return;
  }
  if (how == 2) {  // strided and row-major views as arguments
    MX big = MX::Constant(2 * (n + 1) + 3, codom + 2, 7.5);
    big.block(1, 1, n + 1, codom) = wp;
    VX bt(n + 4); bt.setConstant(-3); bt.segment(2, n) = taus;
    Eigen::Matrix<double, -1, -1, Eigen::RowMajor> rm = wp;
    GSpline f = gsplines::interpolate(bt.segment(2, n), big.block(1, 1, n + 1, codom), *b.lib);
    audit_spline(x, b.ref, taus, wp, f, tag + " views");
    GSpline h = gsplines::interpolate(taus, rm, *b.lib);
    audit_spline(x, b.ref, taus, wp, h, tag + " row major");
    return;
  }
  // one interpolator, many different requests in arbitrary order
  Interpolator ip(codom, n, *b.lib);
  int steps = (int)g.irange(2, 7);
  std::string hist;
  for (int q = 0; q < steps; q++) {
    if (g.chance(0.6)) taus = q && g.chance(0.3) ? near_by(g, taus) : interp_taus(g, b.ref, n, (int)g.irange(0, 3));
    if (g.chance(0.6)) wp = q && g.chance(0.3) ? near_by(g, wp) : interp_wp(g, n, codom);
    std::string tg = b.str() + " n=" + std::to_string(n) + " codom=" + std::to_string(codom) + " taus=" + vec_str(taus, 5) + " after " + hist;
    if (g.chance(0.25)) { std::string h = spoil(g, ip, b.ref.dim, n, codom, g.chance(0.5) ? taus : interp_taus(g, b.ref, n, 0), interp_wp(g, n, codom)); hist += h; tg += h; x.count("odd requests before"); }
    int op = (int)g.irange(0, 3);
    if (op == 0) { VX c = ip.solve_interpolation(taus, wp); audit_coeff(x, b.ref, taus, wp, c, tg + "solve"); hist += "solve,"; }
    else if (op == 1) { audit_spline(x, b.ref, taus, wp, ip.interpolate(taus, wp), tg + "interpolate"); hist += "interpolate,"; }
    else if (op == 2) {
      VX c = ip.solve_interpolation(taus, wp);
      VX t2 = g.chance(0.5) ? taus : interp_taus(g, b.ref, n, (int)g.irange(0, 3));
      ip.get_coeff_derivative_wrt_tau(c, t2, g.irange(0, n - 1));
      hist += "sensitivity,"; x.count("sensitivity calls before");
      VX c2 = ip.solve_interpolation(taus, wp);
      audit_coeff(x, b.ref, taus, wp, c2, tg + "sensitivity,solve");
    } else {  // two interpolators alive at once; spline survives later calls
      GSpline f = ip.interpolate(taus, wp);
      Interpolator other(codom, n, *b.lib);
      VX t2 = interp_taus(g, b.ref, n, 0); MX w2 = interp_wp(g, n, codom);
      other.interpolate(t2, w2); ip.interpolate(t2, w2);
      audit_spline(x, b.ref, taus, wp, f, tg + "kept while reused");
      hist += "other,";
    }
  }
}
static void register_all() {
  scenario("ordinary", [](Ctx& x) { go(x, 6, 6, 4); }, 4);
  scenario("high-dim", [](Ctx& x) { go(x, 10, 3, 2); }, 1);
  scenario("long", [](Ctx& x) { go(x, 4, 30, 2); }, 1);
  scenario("wide", [](Ctx& x) { go(x, 6, 3, 9); }, 1);
}
int main(int argc, char** argv) { register_all(); int r = vh::harness_main(argc, argv); for (auto& w : worst) fprintf(stderr, "worst dim %d %g\n", w.first, w.second); return r; }
