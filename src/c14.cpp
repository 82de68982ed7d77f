// C14: collocation splines hold and combine nodal values.
#include "funcs.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
using namespace vh;
using gsplines::GSpline;
namespace cl = gsplines::collocation;
using GLLS = cl::GaussLobattoLagrangeSpline;

struct Shape { Dom d; int k, n, m; VX ta; };
static std::vector<ld> ref_points(const Shape& s) {
  std::vector<ld> r, x = ref_gll_nodes(s.m);
  ld l = s.d.first;
  for (int i = 0; i < s.n; i++) { for (ld q : x) r.push_back(l + (q + 1) * (ld)s.ta(i) / 2); l += (ld)s.ta(i); }
  return r;
}
static Shape random_shape(Rng& g, bool equal) {
  Shape s;
  s.d = random_dom(g); s.k = (int)g.size(1, 3, 7); s.n = (int)g.size(1, 5, 14); s.m = (int)g.size(2, 9, 16);
  double len = s.d.second - s.d.first;
  s.ta = VX::Constant(s.n, len / s.n);
  if (!equal) { bool wide = g.chance(0.2); for (int i = 0; i < s.n; i++) s.ta(i) = wide ? g.logu(0.02, 20) : g.uni(1, 4); s.ta *= len / s.ta.sum(); }
  return s;
}
// nodal values: row per node (interval-major), column per component
static GLLS from_values(const Shape& s, const MX& v) {
  VX co((long)s.n * s.m * s.k);
  for (int i = 0; i < s.n; i++) for (int c = 0; c < s.k; c++) for (int j = 0; j < s.m; j++) co((i * s.k + c) * s.m + j) = v(i * s.m + j, c);
  return GLLS(s.d, s.k, s.n, s.m, co, s.ta);
}
static MX random_values(Rng& g, const Shape& s, int k, bool positive = false) {
  MX v((long)s.n * s.m, k);
  Vals val(g, -2, 2);
  for (long i = 0; i < v.size(); i++) v.data()[i] = positive ? g.uni(0.3, 2) : val();
  return v;
}
// q must be a collocation spline of that shape (k components) with those nodal values
static void expect(Ctx& c, const GLLS& q, Shape s, int k, const MX& v, const std::string& key, double rel = 1e-12) {
  c.count("results");
  double len = s.d.second - s.d.first, tol = 1e-9 * (1 + std::fabs(s.d.first) + std::fabs(s.d.second));
  c.check(std::fabs(q.get_domain().first - s.d.first) <= tol && std::fabs(q.get_domain().second - s.d.second) <= tol, key + ":domain", "");
  c.check((int)q.get_codom_dim() == k, key + ":codomain", std::to_string(q.get_codom_dim()));
  c.check((int)q.get_nglp() == s.m && (int)q.get_basis_dim() == s.m, key + ":nodes", "");
  if (!c.check((int)q.get_number_of_intervals() == s.n, key + ":intervals", "")) return;
  if (!c.check(q.get_interval_lengths().size() == s.n && (q.get_interval_lengths() - s.ta).cwiseAbs().maxCoeff() <= 1e-9 * len, key + ":lengths", vec_str(q.get_interval_lengths()) + " expected " + vec_str(s.ta))) return;
  VX dd = q.get_domain_discretization();
  auto p = ref_points(s);
  if (!c.check(dd.size() == (long)p.size(), key + ":discretization-size", "")) return;
  for (long i = 0; i < dd.size(); i++) if (!c.close(dd(i), p[i], 1 + fabsl(p[i]) + len, 1e-9, key + ":discretization")) return;
  if (!c.check(q.get_coefficients().size() == v.size(), key + ":size", "")) return;
  double sc = 0;
  for (long i = 0; i < v.size(); i++) if (std::isfinite(v.data()[i])) sc = std::max(sc, std::fabs(v.data()[i]));
  for (long i = 0; i < v.rows(); i++) {
    VX at = q.value_at(i);
    if (!c.check(at.size() == k, key + ":value_at-size", "")) return;
    for (int j = 0; j < k; j++)
      if (!c.close(at(j), v(i, j), std::fabs(v(i, j)) + 1e-3 * sc, rel, key + ":nodal-value", "node " + std::to_string(i) + " comp " + std::to_string(j))) return;
  }
  // and as a function, inside the pieces, it is the polynomial through the nodal values
  RefSpline r;
  r.b.kind = GLL; r.b.dim = s.m; r.b.nodes = ref_gll_nodes(s.m); r.t0 = s.d.first; r.taus = s.ta; r.codom = k;
  r.coeff.resize(v.size());
  for (int i = 0; i < s.n; i++) for (int cc = 0; cc < k; cc++) for (int j = 0; j < s.m; j++) r.coeff((i * k + cc) * s.m + j) = v(i * s.m + j, cc);
  VX t(3);
  std::vector<int> pc;
  ld l = s.d.first;
  std::vector<ld> lb; for (int i = 0; i < s.n; i++) { lb.push_back(l); l += s.ta(i); }
  for (int i = 0; i < 3; i++) { int a = (int)c.rng.irange(0, s.n - 1); pc.push_back(a); t(i) = (double)(lb[a] + (ld)s.ta(a) * c.rng.uni(0.05, 0.95)); }
  MX w = q(t);
  for (int i = 0; i < 3; i++) for (int j = 0; j < k; j++) { ld scl, x = r.at(pc[i], j, t(i), 0, &scl); if (scl < 1e100L) c.close(w(i, j), x, scl + 1e-6L * sc, 1e-8, key + ":function"); }
}
static void approximate(Ctx& c) {
  Rng& g = c.rng;
  Shape s = random_shape(g, true);
  bool poly = g.chance(0.4);
  c.dv("k", s.k); c.dv("n", s.n); c.dv("m", s.m); c.dv("d", s.d.first);
  Fn f;
  if (poly) {  // a spline of that degree on those intervals
    Kind kd = g.pick(std::vector<Kind>{LEG, LAG, GLL});
    BasisPair b = make_basis(kd, s.m, g);
    auto S = std::make_shared<RSplineFn>();
    S->dom = s.d; S->codom = s.k; S->s.b = b.ref; S->s.t0 = s.d.first; S->s.codom = s.k;
    int n1 = 1;  // the pieces of the function are the intervals themselves, or it is one polynomial
    if (g.chance(0.5)) n1 = s.n;
    S->s.taus = VX::Constant(n1, (s.d.second - s.d.first) / n1);
    S->s.coeff.resize((long)n1 * s.k * s.m);
    for (long i = 0; i < S->s.coeff.size(); i++) S->s.coeff(i) = g.uni(-1, 1);
    if (n1 > 1) {  // continuous at the breakpoints, where both sides are collocation points
      Shape q = s;
      f.lib = nullptr;
      RefBasis gb; gb.kind = GLL; gb.dim = s.m; gb.nodes = ref_gll_nodes(s.m);
      S->s.b = gb;
      for (int i = 1; i < n1; i++) for (int cc = 0; cc < s.k; cc++) S->s.coeff(((i)*s.k + cc) * s.m) = S->s.coeff(((i - 1) * s.k + cc) * s.m + s.m - 1);
      gsplines::basis::BasisLagrangeGaussLobatto lb(s.m);
      f.lib = std::make_unique<GSpline>(s.d, s.k, n1, lb, S->s.coeff, S->s.taus);
    } else f.lib = std::make_unique<GSpline>(s.d, s.k, 1, *b.lib, S->s.coeff, S->s.taus);
    f.ref = S;
  } else f = random_fn(g, s.d, s.k, (int)g.irange(1, 3));
  c.d(f.ref->str());
  auto p = ref_points(s);
  GLLS a = GLLS::approximate(*f.lib, s.m, s.n);
  GLLS b(*f.lib, s.n, s.m);
  c.check(same_bits(a.get_coefficients(), b.get_coefficients()) && b.get_nglp() == a.get_nglp() && b.get_number_of_intervals() == a.get_number_of_intervals(), "constructor:differs-from-approximate", "");
  c.check((int)a.get_nglp() == s.m && (int)a.get_number_of_intervals() == s.n && (int)a.get_codom_dim() == s.k, "approximate:shape", "");
  c.check(a.get_domain() == f.lib->get_domain(), "approximate:domain", "");
  VX dd = a.get_domain_discretization();
  if (!c.check(dd.size() == (long)p.size(), "approximate:discretization-size", "")) return;
  for (long i = 0; i < dd.size(); i++) {
    if (!c.close(dd(i), p[i], 1 + fabsl(p[i]), 1e-9, "approximate:discretization")) return;
    std::vector<ld> val, sc;
    // the collocation point may round to the other side of a break of the function
    if (!ref_value(*f.ref, dd(i), 0, val, sc, mix(c.id, i), poly, DELTA * 1e-6L * (1 + fabsl((ld)s.d.first) + fabsl((ld)s.d.second)))) { c.count("skipped"); continue; }
    VX at = a.value_at(i);
    for (int j = 0; j < s.k; j++) c.close(at(j), val[j], sc[j] + 1e-12L, 1e-7, "approximate:nodal-value", f.ref->str());
  }
  if (poly) {
    VX t(6);
    for (int i = 0; i < 6; i++) t(i) = s.d.first + (s.d.second - s.d.first) * g.uni(0.001, 0.999);
    MX w = a(t), x = (*f.lib)(t);
    double scl = 1 + dynamic_cast<GSpline*>(f.lib.get())->get_coefficients().cwiseAbs().maxCoeff();
    // Lagrange bases of badly placed nodes amplify rounding
    double amp = f.lib ? 1 : 1;
    MX nod = MX::Zero(p.size(), s.k);
    for (size_t i = 0; i < p.size(); i++) nod.row(i) = a.value_at(i).transpose();
    amp = std::max(1.0, nod.cwiseAbs().maxCoeff());
    c.check((w - x).cwiseAbs().maxCoeff() <= 1e-8 * amp * scl, "approximate:polynomial-not-reproduced", f.ref->str() + " err " + std::to_string((w - x).cwiseAbs().maxCoeff()));
    c.count("polynomials");
  }
  // identity
  GLLS id = GLLS::identity(s.d, s.m, s.n);
  MX iv(p.size(), 1);
  for (size_t i = 0; i < p.size(); i++) iv(i, 0) = (double)p[i];
  Shape s1 = s; s1.k = 1;
  expect(c, id, s1, 1, iv, "identity", 1e-8);
  // zero spline
  GLLS z(s.d, s.k, s.n, s.m);
  expect(c, z, s, s.k, MX::Zero(p.size(), s.k), "zero");
}
static void algebra(Ctx& c) {
  Rng& g = c.rng;
  Shape s = random_shape(g, g.chance(0.4));
  c.dv("k", s.k); c.dv("n", s.n); c.dv("m", s.m); c.d(vec_str(s.ta, 3));
  Shape s1 = s; s1.k = 1;
  MX va = random_values(g, s, s.k), vb = random_values(g, s, s.k), vs = random_values(g, s1, 1), vp = random_values(g, s1, 1, true);
  c.dv("v", va(0, 0));
  const GLLS a = from_values(s, va), b = from_values(s, vb), q = from_values(s1, vs), p = from_values(s1, vp);
  auto E = [&](const GLLS& x, const MX& v, const char* key, int k = -1, double rel = 1e-12) { expect(c, x, s, k < 0 ? s.k : k, v, key, rel); };
  E(a, va, "construct");
  double w = g.num(-3, 3);
  VX x(s.k);
  Vals xv(g, -2, 2);
  for (int i = 0; i < s.k; i++) x(i) = xv();
  MX X = x.transpose().replicate(va.rows(), 1);
  MX prod = va.array().colwise() * vs.col(0).array();
  E(a * q, prod, "mul/cc"); E(a * GLLS(q), prod, "mul/cr"); E(GLLS(a) * q, prod, "mul/rc"); E(GLLS(a) * GLLS(q), prod, "mul/rr");
  E(q * a, prod, "lmul/cc"); E(q * GLLS(a), prod, "lmul/cr"); E(GLLS(q) * a, prod, "lmul/rc"); E(GLLS(q) * GLLS(a), prod, "lmul/rr");
  MX sq = vs.array() * vs.array();
  E(q * q, sq, "square/cc", 1); { GLLS t(q); E(t * t, sq, "square/self", 1); GLLS t2(q); E(std::move(t2) * q, sq, "square/rc", 1); }
  E(a + b, va + vb, "add/cc"); E(a + GLLS(b), va + vb, "add/cr"); E(GLLS(a) + b, va + vb, "add/rc"); E(GLLS(a) + GLLS(b), va + vb, "add/rr");
  E(a - b, va - vb, "sub/cc"); E(a - GLLS(b), va - vb, "sub/cr"); E(GLLS(a) - b, va - vb, "sub/rc"); E(GLLS(a) - GLLS(b), va - vb, "sub/rr");
  E(w * a, w * va, "scale/lc"); E(w * GLLS(a), w * va, "scale/lr"); E(a * w, w * va, "scale/rc"); E(GLLS(a) * w, w * va, "scale/rr");
  E(x + a, va + X, "vec+/lc"); E(x + GLLS(a), va + X, "vec+/lr"); E(a + x, va + X, "vec+/rc"); E(GLLS(a) + x, va + X, "vec+/rr");
  E(x - a, X - va, "vec-/lc"); E(x - GLLS(a), X - va, "vec-/lr"); E(a - x, va - X, "vec-/rc"); E(GLLS(a) - x, va - X, "vec-/rr");
  E(-a, -va, "neg/c"); E(-GLLS(a), -va, "neg/r");
  MX inv = w / vp.array();
  E(w / p, inv, "quotient/c", 1); E(w / GLLS(p), inv, "quotient/r", 1);
  MX nrm = va.rowwise().norm();
  E(cl::norm(a), nrm, "norm", 1);
  double ex = g.chance(0.5) ? (double)g.irange(-3, 4) : g.uni(-2, 3);
  MX pw = vp.array().pow(ex);
  E(cl::pow(p, ex), pw, "pow/c", 1, 1e-11); E(cl::pow(GLLS(p), ex), pw, "pow/r", 1, 1e-11);
  { MX p2 = vs.array().square(); E(cl::pow(q, 2.0), p2, "pow/square", 1, 1e-11); }
  { // integer exponents have a value for negative bases too
    int ie = (int)g.irange(1, 5);
    MX p3 = vs;
    for (int i = 1; i < ie; i++) p3 = p3.array() * vs.array();
    E(cl::pow(q, (double)ie), p3, "pow/signed", 1, 1e-11);
    MX p4 = p3.cwiseInverse();
    if (vs.cwiseAbs().minCoeff() > 1e-3) E(cl::pow(q, -(double)ie), p4, "pow/signed-inverse", 1, 1e-11);
  }
  { GLLS t(a); t += b; E(t, va + vb, "add-assign"); t -= b; t -= b; E(t, va - vb, "sub-assign", -1, 1e-11); }
  // assignments: from another spline on another domain with other interval lengths
  Shape o = random_shape(g, g.chance(0.3));
  o.k = s.k; o.n = s.n; o.m = s.m; o.ta.resize(s.n);
  for (int i = 0; i < s.n; i++) o.ta(i) = g.uni(1, 4);
  o.ta *= (o.d.second - o.d.first) / o.ta.sum();
  MX vo = random_values(g, o, o.k);
  const GLLS oo = from_values(o, vo);
  { GLLS t(a); GLLS& r = (t = oo); c.check(&r == &t, "assign:returns-self", ""); expect(c, t, o, o.k, vo, "assign"); expect(c, oo, o, o.k, vo, "assign-source"); t = t; expect(c, t, o, o.k, vo, "self-assign"); }
  { GLLS t(a), u(oo); t = std::move(u); expect(c, t, o, o.k, vo, "move-assign"); t = 2.0 * oo; expect(c, t, o, o.k, 2 * vo, "assign-temporary"); t = a * q; E(t, prod, "assign-product"); }
  { // assignment of any function keeps the proportions of the intervals
    Fn f = random_fn(g, o.d, s.k, 1);
    GLLS t(a);
    t = (const FB&)*f.lib;
    Shape e = s; e.d = o.d; e.ta = s.ta * ((o.d.second - o.d.first) / s.ta.sum());
    VX pts((long)s.n * s.m);
    auto rp = ref_points(e);
    MX v(pts.size(), s.k);
    bool ok = true;
    for (long i = 0; i < pts.size(); i++) {
      std::vector<ld> val, sc;
      pts(i) = (double)rp[i];
      if (!ref_value(*f.ref, pts(i), 0, val, sc, mix(c.id, i))) { ok = false; break; }
      auto sp = dynamic_cast<const RSplineFn*>(f.ref.get());
      if (sp) for (ld bp : sp->s.bps()) if (bp > o.d.first && bp < o.d.second && fabsl(bp - rp[i]) < 1e-6L) ok = false;
      for (int j = 0; j < s.k; j++) v(i, j) = (double)val[j];
    }
    if (ok) { expect(c, t, e, s.k, v, "assign-function", 1e-7); c.count("assigned-functions"); }
  }
  // from an array of vectors
  {
    std::vector<VX> rows;
    for (long i = 0; i < vo.rows(); i++) rows.push_back(vo.row(i).transpose());
    Shape e = s; e.d = o.d; e.ta = s.ta * ((o.d.second - o.d.first) / s.ta.sum());
    GLLS t(a);
    t.set_from_array(o.d, rows.begin(), rows.end(), [](const VX& z) { return z.transpose(); });
    expect(c, t, e, s.k, vo, "set-from-array");
    GLLS t2(a);
    t2.set_from_array(o.d, rows.begin(), rows.end());
    expect(c, t2, e, s.k, vo, "set-from-vectors");
    GLLS t3(a);
    t3.set_from_array(o.d, rows.begin(), rows.end(), [&](const VX& z) { return VX(2.0 * z); });
    expect(c, t3, e, s.k, 2 * vo, "set-from-function");
  }
  // copies, moves, conversion of a spline
  { GLLS t(a); GLLS u(std::move(t)); E(u, va, "moved"); GSpline sp(s.d, s.k, s.n, gsplines::basis::BasisLagrangeGaussLobatto(s.m), a.get_coefficients(), s.ta); GLLS v(sp); E(v, va, "from-spline"); GLLS v2(std::move(sp)); E(v2, va, "from-spline-moved"); }
  { // a spline that is not made of nodal values is not a collocation spline
    gsplines::basis::BasisLegendre lb(s.m);
    GSpline sp(s.d, s.k, s.n, lb, a.get_coefficients(), s.ta);
    c.check(throws([&] { GLLS v(sp); }), "accepted:legendre-coefficients-as-nodal-values", "");
    c.check(throws([&] { GLLS v(GSpline{sp}); }), "accepted:legendre-coefficients-as-nodal-values-moved", "");
  }
  c.check(a.same_discretization(b) && b.same_discretization(a), "same-discretization", "");
  // scaling keeps the nodal values
  double T = g.logu(0.2, 5);
  GLLS sc = a.linear_scaling_new_execution_time(T);
  Shape e = s; e.d.second = s.d.first + T; e.ta = s.ta * (T / (s.d.second - s.d.first));
  expect(c, sc, e, s.k, va, "scaled");
  E(a, va, "operand-a"); E(b, vb, "operand-b"); E(q, vs, "operand-s", 1);
}
static void register_all() {
  scenario("approximate", approximate, 2);
  scenario("algebra", algebra, 3);
}
VH_MAIN
