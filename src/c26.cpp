// C26: the approximate comparisons of numbers, matrices and splines.
#include "vh.hpp"
#include <gsplines/Tools.hpp>
using namespace vh;
namespace tl = gsplines::tools;

// Differences are drawn at least a fifth of the tolerance away from it, on either side:
// where exactly the comparison switches is not claimed.
static double away(Rng& g, double tol, bool inside) { return inside ? (g.chance(0.3) ? 0.0 : tol * (g.chance(0.3) ? g.uni(0.3, 0.8) : g.logu(1e-6, 0.3))) : tol * (g.chance(0.3) ? g.uni(1.25, 3) : g.logu(3, 1e6)); }
static void numbers(Ctx& c) {
  Rng& g = c.rng;
  for (int q = 0; q < 20; q++) {
    double tol = g.logu(1e-10, 1e-2), a = g.sgn() * g.logu(1e-3, 1e6);
    bool small = g.chance(0.4), inside = g.chance(0.5);
    if (small) a = g.chance(0.4) ? 0.0 : g.sgn() * tol * g.uni(0, 0.5);
    else a = std::fabs(a) < 10 * tol ? 1.0 : a;
    double d = away(g, tol, inside) * (small ? 1 : std::fabs(a)) * g.sgn();
    if (small && inside) d = g.sgn() * tol * g.uni(0, 0.3);
    double b = a + d;
    if (g.chance(0.1)) { inside = true; double sg = g.sgn(); a = sg * tol * g.uni(0.8, 0.97); b = sg * tol * g.uni(1.02, 1.3); c.count("straddling the tolerance"); }
    std::ostringstream o; o.precision(17); o << a << " " << b << " tol " << tol;
    c.d(o.str());
    c.check(tl::approx_equal(a, b, tol) == inside && tl::approx_equal(b, a, tol) == inside, "numbers", o.str());
    c.check(tl::approx_equal(a, a, tol), "numbers-reflexive", o.str());
    c.check(tl::approx_equal(-a, -b, tol) == inside, "numbers-sign", o.str());
    double z = g.sgn() * away(g, tol, inside);
    c.check(tl::approx_zero(z, tol) == inside, "zero-number", std::to_string(z));
    c.nontrivial = true;
  }
}
static MX rmat(Rng& g, long r, long k, double mag) { MX m(r, k); Vals v(g, -1, 1); for (long i = 0; i < m.size(); i++) m.data()[i] = mag * v(); return m; }
static void matrices(Ctx& c) {
  Rng& g = c.rng;
  for (int q = 0; q < 8; q++) {
    double tol = g.logu(1e-10, 1e-2);
    long r = g.size(1, 5, 20), k = g.size(1, 5, 20);
    bool small = g.chance(0.3), inside = g.chance(0.5);
    MX a = rmat(g, r, k, small ? 0.3 * tol : g.logu(1e-2, 1e4));
    double mx = a.cwiseAbs().maxCoeff();
    if (!small && mx < 10 * tol) { a(0, 0) = 1; mx = 1; }
    MX b = a;
    long i = g.irange(0, r - 1), j = g.irange(0, k - 1);
    double d = (small && inside) ? tol * g.uni(0, 0.2) : away(g, tol, inside) * (small ? 1 : mx);
    b(i, j) += g.sgn() * d;
    if (g.chance(0.15)) {  // one of them below the tolerance, the other not, and close
      inside = true; a = rmat(g, r, k, 0.3 * tol); double sg = g.sgn(); a(i, j) = sg * tol * g.uni(0.8, 0.97); b = a; b(i, j) = sg * tol * g.uni(1.02, 1.3); c.count("straddling the tolerance");
    }
    std::ostringstream o; o.precision(9); o << r << "x" << k << " max " << mx << " change " << d << " at " << i << "," << j << " tol " << tol;
    c.d(o.str());
    c.check(tl::approx_equal(a, b, tol) == inside && tl::approx_equal(b, a, tol) == inside, "matrices", o.str());
    c.check(tl::approx_equal(a, MX(a), tol), "matrices-reflexive", o.str());
    MX other(r + (g.chance(0.5) ? 1 : 0), k); if (other.rows() == r) other.resize(r, k + 1);
    other.setZero();
    c.check(!tl::approx_equal(a, other, tol) && !tl::approx_equal(other, a, tol), "matrices-shape", o.str());
    if (r != k) c.check(!tl::approx_equal(a, MX(Eigen::Map<MX>(a.data(), k, r)), tol), "matrices-reshaped", o.str());
    MX z = rmat(g, r, k, (g.chance(0.5) ? 0.3 : 0.8) * tol);
    c.check(tl::approx_zero(z, tol), "zero-matrix", o.str());
    z(i, j) = g.sgn() * away(g, tol, false);
    c.check(!tl::approx_zero(z, tol), "nonzero-matrix", o.str());
    c.nontrivial = true;
  }
}
static void splines(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b = random_basis(g, 1, 8);
  RefSpline r = random_ref_spline(g, b.ref, (int)g.irange(1, 5), (int)g.irange(1, 3), false);
  if (r.coeff.cwiseAbs().maxCoeff() < 0.05) r.coeff(0) = 1;
  double tol = g.logu(1e-8, 1e-3);
  bool inside = g.chance(0.4);
  RefSpline m = r;
  int what = (int)g.irange(0, 2);
  double mx = r.coeff.cwiseAbs().maxCoeff(), mt = r.taus.maxCoeff();
  if (what == 0) m.coeff(g.irange(0, m.coeff.size() - 1)) += g.sgn() * away(g, tol, inside) * mx;
  if (what == 1) m.taus(g.irange(0, m.n() - 1)) += std::min(away(g, tol, inside), 10.0) * mt;
  if (what == 2) { if (std::fabs(m.t0) < 0.1) m.t0 = r.t0 = 1.5; m.t0 += g.sgn() * away(g, tol, inside) * std::fabs(r.t0); }
  c.d(b.str()); c.dv("what", what); c.dv("inside", inside); c.dv("tol", tol); c.d(vec_str(r.coeff, 3)); c.d(vec_str(m.coeff, 3));
  c.count(std::string(inside ? "close-" : "far-") + (what == 0 ? "coefficients" : what == 1 ? "lengths" : "start"));
  gsplines::GSpline A = to_lib(r, *b.lib), B = to_lib(m, *b.lib->clone());
  c.check(tl::approx_equal(A, B, tol) == inside && tl::approx_equal(B, A, tol) == inside, "splines", "what " + std::to_string(what) + (inside ? " inside" : " outside"));
  c.check(tl::approx_equal(A, gsplines::GSpline(A), tol), "splines-reflexive", "");
  // another basis of the same dimension with the same numbers
  if (b.ref.dim > 1) {
    std::unique_ptr<gsplines::basis::Basis> o;
    if (b.ref.kind == LEG) o = std::make_unique<gsplines::basis::BasisLagrange>(VX::LinSpaced(b.ref.dim, -1, 1)); else o = std::make_unique<gsplines::basis::BasisLegendre>(b.ref.dim);
    c.check(!tl::approx_equal(A, to_lib(r, *o), tol), "splines-basis", "");
  }
  RefSpline z = r; for (long i = 0; i < z.coeff.size(); i++) z.coeff(i) = tol * g.uni(-0.3, 0.3);
  c.check(tl::approx_zero(to_lib(z, *b.lib), tol), "zero-spline", "");
  z.coeff(g.irange(0, z.coeff.size() - 1)) = g.sgn() * away(g, tol, false);
  c.check(!tl::approx_zero(to_lib(z, *b.lib), tol), "nonzero-spline", "");
  c.nontrivial = true;
}
static void register_all() { scenario("numbers", numbers, 1); scenario("matrices", matrices, 2); scenario("splines", splines, 3); }
VH_MAIN
