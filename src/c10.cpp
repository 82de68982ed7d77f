#include "vh.hpp"
#include <gsplines/Tools.hpp>
using namespace vh;
using gsplines::GSpline;

static GSpline lib_spline(const RefSpline& r, const gsplines::basis::Basis& b) { return to_lib(r, b); }

// result must be the spline with exactly those coefficients in the same space
static void expect(Ctx& c, const GSpline& s, const RefSpline& shape, const VX& coeff, const gsplines::basis::Basis& b, const std::string& key) {
  c.count("results");
  double t1 = shape.t0 + shape.taus.sum();
  double len = shape.taus.sum();
  c.check(std::fabs(s.get_domain().first - shape.t0) <= 1e-8 * len && std::fabs(s.get_domain().second - t1) <= 1e-8 * len, key + ":domain", "");
  c.check((int)s.get_codom_dim() == shape.codom, key + ":codomain", "");
  c.check((int)s.get_number_of_intervals() == shape.n() && (s.get_interval_lengths() - shape.taus).cwiseAbs().maxCoeff() <= 1e-7 * len, key + ":intervals", "");
  c.check(s.get_basis() == b && s.get_basis_dim() == b.get_dim(), key + ":basis", "");
  if (!c.check(s.get_coefficients().size() == coeff.size(), key + ":size", "")) return;
  double sc = coeff.cwiseAbs().maxCoeff();
  double err = (s.get_coefficients() - coeff).cwiseAbs().maxCoeff();
  c.check(err <= 8 * EPS * (sc + 1e-300), key + ":coefficients", "err " + std::to_string(err) + " of " + std::to_string(sc));
  RefSpline q = shape;
  q.coeff = coeff;
  VX t(4);
  for (int i = 0; i < 4; i++) t(i) = shape.t0 + len * c.rng.uni(0, 1);
  MX v = s(t);
  auto bp = q.bps();
  for (int i = 0; i < 4; i++) {
    bool near = false;
    for (ld x : bp) near = near || fabsl(x - t(i)) < 1e-6L * len;
    if (near) continue;
    for (int k = 0; k < q.codom; k++) {
      ld scl, r = q.at(q.piece(t(i)), k, t(i), 0, &scl);
      c.close(v(i, k), r, scl + 1e-3L * sc, 1e-9, key + ":value");
    }
  }
}
static VX random_coeff(Rng& g, long n) {
  VX v(n);
  Vals val(g, -2, 2);
  for (long i = 0; i < n; i++) v(i) = val();
  return v;
}
static void algebra(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b = random_basis(g, 1, 9);
  int n = (int)g.size(1, 6, 24), k = (int)g.size(1, 4, 9);
  RefSpline r = random_ref_spline(g, b.ref, n, k, g.chance(0.5));
  RefSpline r2 = r;
  r2.coeff = random_coeff(g, r.coeff.size());
  c.d(b.str()); c.dv("n", n); c.dv("codom", k); c.dv("t0", r.t0); c.d(vec_str(r.coeff, 2));
  GSpline A = lib_spline(r, *b.lib), B = lib_spline(r2, *b.lib->clone());
  const GSpline &a = A, &d = B;
  const VX ca = r.coeff, cb = r2.coeff;
  auto E = [&](const GSpline& s, const VX& x, const char* key) { expect(c, s, r, x, *b.lib, key); };
  E(a + d, ca + cb, "add/cc");
  E(a + GSpline(d), ca + cb, "add/cr");
  E(GSpline(a) + d, ca + cb, "add/rc");
  E(GSpline(a) + GSpline(d), ca + cb, "add/rr");
  E(a - d, ca - cb, "sub/cc");
  E(a - GSpline(d), ca - cb, "sub/cr");
  E(GSpline(a) - d, ca - cb, "sub/rc");
  E(GSpline(a) - GSpline(d), ca - cb, "sub/rr");
  double s = g.num(-5, 5);
  E(s * a, s * ca, "scale/lc");
  E(a * s, s * ca, "scale/rc");
  E(s * GSpline(a), s * ca, "scale/lr");
  E(GSpline(a) * s, s * ca, "scale/rr");
  E(-a, -ca, "neg/c");
  E(-GSpline(a), -ca, "neg/r");
  GSpline p(a);
  GSpline& back = (p += d);
  c.check(&back == &p, "add-assign:returns-self", "");
  E(p, ca + cb, "add-assign");
  p -= d;
  p -= d;
  E(p, (ca + cb) - cb - cb, "sub-assign");
  GSpline q(a);
  q += q;
  E(q, ca + ca, "self-add-assign");
  E(a + a, ca + ca, "self-add");
  E(a - a, VX::Zero(ca.size()), "self-sub");
  E(a, ca, "operand-a");
  E(d, cb, "operand-b");
  c.check(a.same_vector_space(d) && d.same_vector_space(a), "same-space", "");
  // longer random linear combination
  GSpline acc(a);
  VX cc = ca;
  for (int i = 0; i < 5; i++) {
    double w = g.uni(-1, 1);
    switch (g.irange(0, 3)) {
      case 0: { GSpline t = std::move(acc) + w * d; acc.~GSpline(); new (&acc) GSpline(std::move(t)); cc += w * cb; break; }
      case 1: { GSpline t = w * d - acc; acc.~GSpline(); new (&acc) GSpline(std::move(t)); cc = w * cb - cc; break; }
      case 2: { GSpline t = -(std::move(acc) * w); acc.~GSpline(); new (&acc) GSpline(std::move(t)); cc *= -w; break; }
      default: acc -= d; cc -= cb;
    }
  }
  c.check((acc.get_coefficients() - cc).cwiseAbs().maxCoeff() <= 1e-13 * (1 + cc.cwiseAbs().maxCoeff() + cb.cwiseAbs().maxCoeff()*10), "combination:coefficients", "");
  c.check(acc.same_vector_space(a), "combination:space", "");
}
// a spline that differs from r in exactly one respect
static std::string mutate(Ctx& c, const RefSpline& r, const BasisPair& b, RefSpline& m, std::unique_ptr<gsplines::basis::Basis>& mb, bool coeff_too) {
  Rng& g = c.rng;
  m = r;
  mb = b.lib->clone();
  for (;;) {
    switch (g.irange(0, coeff_too ? 6 : 5)) {
      case 0: m.t0 += g.sgn() * g.logu(1e-3, 5); return "domain";
      case 1: {
        int i = (int)g.irange(0, m.n() - 1);
        m.taus(i) *= 1 + g.logu(g.chance(0.5) ? 2e-3 : 1e-5 * m.taus.maxCoeff() / m.taus(i), 1);
        return "interval";
      }
      case 2: {
        if (m.n() < 2) break;
        // same total length, moved breakpoint
        int i = (int)g.irange(0, m.n() - 2);
        double dt = std::min(0.3 * std::min(m.taus(i), m.taus(i + 1)), g.logu(1e-5, 1) * m.taus.maxCoeff());
        if (dt < 1e-5 * m.taus.maxCoeff()) break;
        m.taus(i) += dt; m.taus(i + 1) -= dt;
        return "breakpoint";
      }
      case 3: {
        if (b.ref.kind == B0101) { double al = b.ref.alpha > 0.5 ? b.ref.alpha * 0.7 : b.ref.alpha + 0.2; mb = std::make_unique<gsplines::basis::Basis0101>(al); return "alpha"; }
        if (b.ref.kind == LAG && b.ref.dim > 1) {
          VX x(b.ref.dim);
          for (int i = 0; i < b.ref.dim; i++) x(i) = (double)b.ref.nodes[i];
          int i = (int)g.irange(0, b.ref.dim - 1);
          double gap = 10;
          for (int j = 0; j < b.ref.dim; j++) if (j != i) gap = std::min(gap, std::fabs(x(j) - x(i)));
          x(i) += 0.3 * gap;
          mb = std::make_unique<gsplines::basis::BasisLagrange>(x);
          return "node";
        }
        break;
      }
      case 4: {  // other family of the same dimension
        if (b.ref.kind == LEG && b.ref.dim >= 2) mb = std::make_unique<gsplines::basis::BasisLagrangeGaussLobatto>(b.ref.dim);
        else if (b.ref.kind == LEG) break;
        else mb = std::make_unique<gsplines::basis::BasisLegendre>(b.ref.dim);
        return "family";
      }
      case 5: {  // other codomain, same everything else
        m.codom += 1;
        m.coeff = random_coeff(g, (long)m.n() * m.codom * m.b.dim);
        return "codomain";
      }
      default: {
        long i = g.irange(0, m.coeff.size() - 1);
        double mx = m.coeff.cwiseAbs().maxCoeff();
        if (mx == 0) mx = 1;
        m.coeff(i) += g.sgn() * mx * g.logu(1e-4, 2);
        return "coefficient";
      }
    }
  }
}
static void refused(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b = random_basis(g, 1, 8);
  RefSpline r = random_ref_spline(g, b.ref, (int)g.size(1, 5, 20), (int)g.size(1, 3, 8), g.chance(0.5)), m;
  std::unique_ptr<gsplines::basis::Basis> mb;
  std::string what = mutate(c, r, b, m, mb, false);
  c.d(b.str()); c.d(what); c.dv("t0", r.t0); c.d(vec_str(r.taus, 3)); c.d(vec_str(m.taus, 3));
  c.count("refused-" + what);
  GSpline A = lib_spline(r, *b.lib), B = to_lib(m, *mb);
  const GSpline &a = A, &d = B;
  auto T = [&](const char* key, std::function<void()> f) { c.check(throws(f), std::string(key) + ":accepted-different-" + what, ""); c.nontrivial = true; };
  T("add/cc", [&] { a + d; });
  T("add/cr", [&] { a + GSpline(d); });
  T("add/rc", [&] { GSpline(a) + d; });
  T("add/rr", [&] { GSpline(a) + GSpline(d); });
  T("sub/cc", [&] { a - d; });
  T("sub/cr", [&] { a - GSpline(d); });
  T("sub/rc", [&] { GSpline(a) - d; });
  T("sub/rr", [&] { GSpline(a) - GSpline(d); });
  T("add-assign", [&] { A += d; });
  T("sub-assign", [&] { A -= d; });
  c.check(!a.same_vector_space(d) && !d.same_vector_space(a), "same-space:different-" + what, "");
  c.check(same_bits(a.get_coefficients(), r.coeff) && same_bits(d.get_coefficients(), m.coeff), "refused:operand-changed", what);
}
static void equality(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b = random_basis(g, 1, 8);
  RefSpline r = random_ref_spline(g, b.ref, (int)g.size(1, 5, 20), (int)g.size(1, 3, 8), g.chance(0.5)), m;
  std::unique_ptr<gsplines::basis::Basis> mb;
  std::string what = mutate(c, r, b, m, mb, true);
  c.d(b.str()); c.d(what); c.dv("t0", r.t0); c.d(vec_str(r.coeff, 3)); c.d(vec_str(m.coeff, 3));
  c.count("equal-" + what);
  GSpline a = lib_spline(r, *b.lib), d = to_lib(m, *mb);
  GSpline copy(a), moved_src(a), moved(std::move(moved_src));
  auto cl = a.clone();
  c.check(a == a && !(a != a), "equality:not-reflexive", "");
  c.check(a == copy && copy == a && !(a != copy), "equality:copy", "");
  c.check(a == moved && !(moved != a), "equality:moved", "");
  c.check(a == *cl && !(*cl != a), "equality:clone", "");
  GSpline same = lib_spline(r, *b.lib->clone());
  c.check(a == same && same == a, "equality:rebuilt", "");
  c.check(!(a == d) && !(d == a), "equality:different-" + what, "");
  c.check((a != d) && (d != a), "inequality:different-" + what, "");
  c.check(!(a * 0.5 == a) || r.coeff.cwiseAbs().maxCoeff() < 1e-6, "equality:half", "");
  {  // against the zero of the space, from both sides, and a spline in which only one entry is not zero
    RefSpline z = r; z.coeff.setZero();
    GSpline zero = to_lib(z, *b.lib);
    bool far = r.coeff.cwiseAbs().maxCoeff() > 1e-4, tiny = r.coeff.isZero(0);
    if (far) c.check(!(zero == a) && !(a == zero) && a != zero && zero != a, "equality:zero-and-not", "");
    if (tiny) c.check(zero == a && a == zero && !(a != zero), "equality:zeros", "");
    long i = g.irange(0, z.coeff.size() - 1);
    z.coeff(i) = g.sgn() * g.logu(1e-3, 1e3);
    GSpline one = to_lib(z, *b.lib);
    c.check(!(zero == one) && !(one == zero) && zero != one && one != zero, "equality:zero-and-one-entry", "");
    c.check(one == GSpline(one) && !(one == -one) && !(-one == one), "equality:opposite", "");
  }
  c.nontrivial = true;
}
static void random_maker(Ctx& c) {
  Rng& g = c.rng;
  double a = g.chance(0.4) ? 0.0 : g.uni(-3, 3);
  std::pair<double,double> d{a, a + g.logu(0.5, 10)};
  int k = (int)g.size(1, 4, 9);
  BasisPair b = random_basis(g, 2, 6, true, false);
  GSpline s = g.chance(0.5) ? gsplines::random_gspline(d, k) : gsplines::random_gspline(d, k, *b.lib);
  c.dv("a", a); c.dv("b", d.second); c.d(b.str());
  double tol = 1e-9 * (1 + std::fabs(a) + std::fabs(d.second));
  c.check(std::fabs(s.get_domain().first - d.first) < tol && std::fabs(s.get_domain().second - d.second) < tol, "random:domain", "");
  c.check(std::fabs(s.get_interval_lengths().sum() - (d.second - d.first)) < tol, "random:lengths", "");
  c.check((int)s.get_codom_dim() == k, "random:codomain", "");
}
static void register_all() {
  scenario("algebra", algebra, 3);
  scenario("refused", refused, 3);
  scenario("equality", equality, 3);
  scenario("random", random_maker, 1);
}
VH_MAIN
