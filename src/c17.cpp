// C17: requests without mathematical sense throw, and everything involved is intact and usable.
#include "funcs.hpp"
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Interpolator.hpp>
using namespace vh;
using gsplines::GSpline;
using GLLS = gsplines::collocation::GaussLobattoLagrangeSpline;
namespace fa = gsplines::functional_analysis;
namespace bs = gsplines::basis;

static VX fixed_points(Dom d) {
  VX t(4);
  for (int i = 0; i < 4; i++) t(i) = d.first + (d.second - d.first) * (0.1 + 0.25 * i);
  return t;
}
static bool bits(const MX& a, const MX& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0);
}
struct Watch {  // objects that a rejected request may not change
  struct W { const FB* f; Dom d; size_t k; MX v; VX co, ta; };
  std::vector<W> w;
  void add(const FB& f) {
    W x{&f, f.get_domain(), f.get_codom_dim(), f(fixed_points(f.get_domain())), {}, {}};
    if (auto s = dynamic_cast<const gsplines::GSplineBase*>(&f)) { x.co = s->get_coefficients(); x.ta = s->get_interval_lengths(); }
    w.push_back(x);
  }
  std::string verify() const {
    for (auto& x : w) {
      if (x.f->get_domain() != x.d) return "domain";
      if (x.f->get_codom_dim() != x.k) return "codomain";
      MX v = (*x.f)(fixed_points(x.d));
      for (long i = 0; i < v.size(); i++) if (std::isfinite(x.v.data()[i]) && v.data()[i] != x.v.data()[i]) return "value";
      if (auto s = dynamic_cast<const gsplines::GSplineBase*>(x.f)) if (!same_bits(s->get_coefficients(), x.co) || !same_bits(s->get_interval_lengths(), x.ta)) return "coefficients";
    }
    return "";
  }
};
struct Refuse {
  Ctx& c; Watch& w;
  void operator()(const std::string& key, const std::function<void()>& f) {
    c.count("requests");
    c.count("req:" + key);
    bool thrown = false;
    try { f(); } catch (const std::exception&) { thrown = true; }
    c.check(thrown, "accepted:" + key, "request was not refused");
    std::string s = w.verify();
    c.check(s.empty(), "operand-changed:" + key + ":" + s, "a refused request changed the " + s + " of an object");
    c.nontrivial = true;
  }
};
static const char* CATN[] = {"cc", "cr", "rc", "rr"};
// the operation in every variant, on copies where operands are moved from
static void refuse_all(Refuse& R, const std::string& what, int op, const FB& la, const FE& a, const FE& b, bool rvalues_kept = true) {
  for (int cat = 0; cat < 4; cat++) {
    R(what + ":" + opn(op) + "/" + CATN[cat], [&] {
      FE x(a), y(b);
      if (cat == 0) apply_fe(op, 0, const_cast<FE&>(a), const_cast<FE&>(b));
      else if (cat == 1) apply_fe(op, 1, const_cast<FE&>(a), y);
      else if (cat == 2) apply_fe(op, 2, x, const_cast<FE&>(b));
      else apply_fe(op, 3, x, y);
    });
    R(what + ":base-" + opn(op) + "/" + CATN[cat], [&] {
      auto x = la.clone(); FE y(b);
      apply_fb(op, cat, *x, y);
    });
  }
  // a refused in-place or moving request leaves the target as it was
  FE x(a), y(b);
  Watch w; w.add(x); w.add(y);
  for (int cat = 1; cat < 4 && rvalues_kept; cat++) {
    try { apply_fe(op, cat, x, y); } catch (const std::exception&) {}
    std::string s = w.verify();
    R.c.check(s.empty(), "operand-changed:" + what + ":" + opn(op) + "/" + CATN[cat] + ":moved-" + s, "");
  }
  if (op == ADD || op == MUL) {
    R(what + ":" + opn(op) + "-assign-c", [&] { if (op == ADD) x += b; else x *= b; });
    R(what + ":" + opn(op) + "-assign-r", [&] { FE z(b); if (op == ADD) x += std::move(z); else x *= std::move(z); });
    std::string s = w.verify();
    R.c.check(s.empty(), "operand-changed:" + what + ":" + opn(op) + "-assign:" + s, "");
  }
}
static double bump(Rng& g) {  // noticeable change of a bound, below and above one
  static const std::vector<double> v = {1e-6, 1e-3, 0.1, 0.5, 0.9, 0.999, 1.0, 1.5, 3.0};
  return g.chance(0.5) ? g.pick(v) : g.logu(1e-6, 4);
}
static void functions_(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.irange(1, 3);
  Fn A = random_fn(g, d, k, (int)g.irange(1, 4)), B = random_fn(g, d, k, (int)g.irange(1, 3));
  // other domain: left, right or both ends differ; reductions keep it non-empty
  Dom d2 = d;
  double e = bump(g), sg = g.sgn();
  switch (g.irange(0, 2)) {
    case 0: d2.first -= e; break;
    case 1: d2.second += e; break;
    default: d2.first += sg * e; d2.second += sg * e;
  }
  Fn D2 = random_fn(g, d2, k, (int)g.irange(1, 3)), S2 = random_fn(g, d2, 1, (int)g.irange(1, 3));
  int k2 = k + (int)g.irange(1, 2);
  Fn K2 = random_fn(g, d, k2, (int)g.irange(1, 3));
  Fn V2 = random_fn(g, d, 2, (int)g.irange(1, 3)), V3 = random_fn(g, d, 3, (int)g.irange(1, 3)), V2b = random_fn(g, d, 2, (int)g.irange(1, 3));
  c.d(A.ref->str()); c.d(D2.ref->str()); c.d(K2.ref->str()); c.dv("bump", e);
  FE a = A.expr(), b = B.expr(), x2 = D2.expr(), s2 = S2.expr(), kk = K2.expr(), v2 = V2.expr(), v3 = V3.expr(), v2b = V2b.expr();
  Watch w;
  for (const FB* f : {(const FB*)&a, (const FB*)&b, (const FB*)&x2, (const FB*)&s2, (const FB*)&kk, (const FB*)&v2, (const FB*)&v3, (const FB*)&v2b, (const FB*)A.lib.get(), (const FB*)V2.lib.get()}) w.add(*f);
  Refuse R{c, w};
  switch (g.irange(0, 6)) {
    case 0: refuse_all(R, "different-domain", ADD, *A.lib, a, x2); refuse_all(R, "different-domain", SUB, *A.lib, a, x2); break;
    case 1: refuse_all(R, "different-codomain", ADD, *A.lib, a, kk); refuse_all(R, "different-codomain", SUB, *A.lib, a, kk); break;
    case 2: refuse_all(R, "different-domain", MUL, *A.lib, a, s2); break;
    case 3: refuse_all(R, "two-vectors", MUL, *V2.lib, v2, v3); refuse_all(R, "two-vectors-same", MUL, *V2.lib, v2, v2b); break;
    case 4: refuse_all(R, "vector-inner", COMP, *A.lib, a, v2); break;
    case 5: {
      // does not touch: gap or overlap of size e
      Dom dn{d.second + sg * e, d.second + sg * e + g.uni(0.5, 2)};
      Fn N = random_fn(g, dn, k, (int)g.irange(1, 3));
      FE n = N.expr();
      w.add(n);
      refuse_all(R, "gap", CAT, *A.lib, a, n);
      Dom dt{d.second, d.second + g.uni(0.5, 2)};
      Fn T = random_fn(g, dt, k2, (int)g.irange(1, 3));
      FE t = T.expr();
      w.add(t);
      refuse_all(R, "different-codomain", CAT, *A.lib, a, t);
      break;
    }
    default: {
      auto dot = [&](const std::string& what, const FB& p, const FB& q) {
        R(what + ":dot/cc", [&] { p.dot(q); });
        R(what + ":dot/cr", [&] { auto y = q.clone(); p.dot(std::move(*y)); });
        R(what + ":dot/rc", [&] { auto x = p.clone(); std::move(*x).dot(q); });
        R(what + ":dot/rr", [&] { auto x = p.clone(); auto y = q.clone(); std::move(*x).dot(std::move(*y)); });
      };
      dot("different-domain", a, x2);
      dot("different-codomain", a, kk);
      R("different-domain:l2", [&] { fa::l2_inner_product(a, x2, 4, 2); });
      R("different-codomain:l2", [&] { fa::l2_inner_product(a, kk, 4, 2); });
      R("different-domain:sobolev", [&] { fa::sobolev_inner_product(a, x2, 1, 3, 1); });
      R("vector:integral", [&] { fa::integral(v2, 4, 2); });
      R("one-node:integral", [&] { fa::integral(s2, (size_t)g.irange(0, 1), 2); });
    }
  }
  // still usable
  MX va = a(fixed_points(d)), vb = b(fixed_points(d)), vs = (a + b)(fixed_points(d));
  for (long i = 0; i < va.size(); i++) if (std::isfinite(va.data()[i] + vb.data()[i])) c.check(std::fabs(vs.data()[i] - va.data()[i] - vb.data()[i]) <= 1e-12 * (std::fabs(va.data()[i]) + std::fabs(vb.data()[i]) + 1e-300), "unusable-afterwards", "");
}
static void constructors(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b = random_basis(g, 1, 7);
  int n = (int)g.irange(1, 5), k = (int)g.irange(1, 3);
  RefSpline r = random_ref_spline(g, b.ref, n, k, g.chance(0.5));
  c.d(b.str()); c.dv("n", n); c.dv("k", k); c.d(vec_str(r.taus, 3));
  GSpline ok = to_lib(r, *b.lib);
  Watch w; w.add(ok);
  Refuse R{c, w};
  Dom d = ok.get_domain();
  auto mk = [&](const std::string& what, Dom dm, int kk, int nn, const VX& co, const VX& ta) {
    R("constructor:" + what, [&] { GSpline s(dm, kk, nn, *b.lib, co, ta); });
    R("move-constructor:" + what, [&] { VX x(co), t(ta); GSpline s(dm, kk, nn, *b.lib, std::move(x), std::move(t)); });
  };
  long e = g.pick(std::vector<long>{-1, 1, 2, -(long)b.ref.dim, (long)b.ref.dim, (long)b.ref.dim * k});
  VX bad(std::max(0L, r.coeff.size() + e));
  bad.setOnes();
  if (bad.size() != r.coeff.size()) mk("coefficients", d, k, n, bad, r.taus);
  mk("codomain", d, k + 1, n, r.coeff, r.taus);
  mk("intervals", d, k, n + 1, r.coeff, r.taus);
  VX tl(n + 1); tl.setConstant(0.5); tl.head(n) = r.taus;
  mk("more-lengths", d, k, n, r.coeff, tl);
  if (n > 1) mk("less-lengths", d, k, n, r.coeff, r.taus.head(n - 1));
  VX tn = r.taus;
  tn(g.irange(0, n - 1)) = g.chance(0.5) ? 0.0 : -g.logu(1e-3, 3);
  mk("non-positive-length", d, k, n, r.coeff, tn);
  mk("reversed-domain", {d.second, d.first - 0.25}, k, n, r.coeff, r.taus);
  // scaling
  R("execution-time", [&] { ok.linear_scaling_new_execution_time(g.chance(0.4) ? 0.0 : -g.logu(1e-3, 10)); });
  std::optional<double> none;
  std::optional<std::vector<double>> vnone;
  R("limits:none", [&] { ok.linear_scaling_new_execution_time_max_velocity_max_acceleration(none, none, 0.1); });
  R("limits:none-vector", [&] { ok.linear_scaling_new_execution_time_max_velocity_max_acceleration(vnone, vnone, 0.1); });
  std::vector<double> wrong((size_t)(k + (g.chance(0.5) ? 1 : -1)), 1.0), right((size_t)k, 1.0);
  R("limits:velocity-size", [&] { ok.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<std::vector<double>>(wrong), vnone, 0.1); });
  R("limits:acceleration-size", [&] { ok.linear_scaling_new_execution_time_max_velocity_max_acceleration(vnone, std::optional<std::vector<double>>(wrong), 0.1); });
  R("limits:one-size", [&] { ok.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<std::vector<double>>(right), std::optional<std::vector<double>>(wrong), 0.1); });
  R("limits:step", [&] { ok.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(1.0), none, g.chance(0.5) ? 0.0 : -0.1); });
  // reversed domains of elementary functions
  Dom rv{g.uni(0.1, 2), 0.0};
  R("reversed-domain:exp", [&] { fns::Exponential f(rv); });
  R("reversed-domain:const", [&] { fns::ConstFunction f(rv, 2, 1.0); });
  R("reversed-domain:poly", [&] { fns::CanonicPolynomial f(rv, VX::Ones(3)); });
  R("reversed-domain:identity", [&] { fns::Identity f(rv); });
  // bases
  R("basis:unknown", [&] { bs::get_basis(g.pick(std::vector<std::string>{"", "Legendre", "legendre ", "gauss", "basis0102", "lagrang"}), 4, std::vector<double>{}); });
  R("basis:0101-no-parameter", [&] { bs::get_basis("basis0101", 6, std::vector<double>{}); });
  R("gll:nodes", [&] { bs::BasisLagrangeGaussLobatto q((size_t)g.irange(0, 1)); });
  R("gll:points", [&] { gsplines::collocation::legendre_gauss_lobatto_points((size_t)g.irange(0, 1)); });
  R("gll:points-domain", [&] { gsplines::collocation::legendre_gauss_lobatto_points(std::make_tuple(0.0, 1.0), (size_t)g.irange(0, 1), 2); });
  R("gll:weights", [&] { gsplines::collocation::legendre_gauss_lobatto_weights((size_t)g.irange(0, 1)); });
}
static void interpolation(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b = random_basis(g, 2, 8, true);
  int n = (int)g.irange(1, 5), k = (int)g.irange(1, 3);
  VX ta(n); MX wp(n + 1, k);
  for (int i = 0; i < n; i++) ta(i) = g.uni(0.5, 2);
  for (long i = 0; i < wp.size(); i++) wp.data()[i] = g.uni(-2, 2);
  c.d(b.str()); c.dv("n", n); c.dv("k", k); c.d(vec_str(ta, 3));
  gsplines::Interpolator I(k, n, *b.lib);
  GSpline s0 = I.interpolate(ta, wp);
  Watch w; w.add(s0);
  Refuse R{c, w};
  int od = 1 + 2 * (int)g.irange(b.ref.kind == GLL ? 1 : 0, 3);
  BasisPair ob = make_basis(g.pick(std::vector<Kind>{LEG, LAG}), od, g);
  R("odd-basis:interpolator", [&] { gsplines::Interpolator J(k, n, *ob.lib); });
  R("odd-basis:interpolate", [&] { gsplines::interpolate(ta, wp, *ob.lib); });
  R("odd-basis:polynomial", [&] { gsplines::pw_polynomial_interpolation(ta, wp, od); });
  R("odd-basis:sobolev", [&] { fa::SobolevNorm q(wp, *ob.lib, {{1, 1.0}}); });
  auto both = [&](const std::string& key, const VX& t, const MX& p) {
    R(key + ":method", [&] { I.interpolate(t, p); });
    R(key + ":solve", [&] { I.solve_interpolation(t, p); });
  };
  VX t2 = ta; t2(g.irange(0, n - 1)) = g.chance(0.3) ? 0.0 : -g.logu(1e-3, 5);
  VX t3(n + 1); t3.setConstant(1.0);
  MX p2(n + 2, k), p3(n + 1, k + 1), p4(n, k); p2.setOnes(); p3.setOnes(); p4.setOnes();
  both("non-positive-length", t2, wp);
  both("more-lengths", t3, wp);
  if (n > 1) both("less-lengths", ta.head(n - 1), wp);
  both("more-waypoints", ta, p2);
  both("less-waypoints", ta, p4);
  both("more-components", ta, p3);
  if (k > 1) both("less-components", ta, wp.leftCols(k - 1));
  R("non-positive-length:function", [&] { gsplines::interpolate(t2, wp, *b.lib); });
  R("more-lengths:function", [&] { gsplines::interpolate(t3, wp, *b.lib); });
  R("more-waypoints:function", [&] { gsplines::interpolate(ta, p2, *b.lib); });
  R("one-waypoint:function", [&] { gsplines::interpolate(VX(), MX::Ones(1, k), *b.lib); });
  R("non-positive-length:polynomial", [&] { gsplines::pw_polynomial_interpolation(t2, wp, 4); });
  VX co = s0.get_coefficients();
  R("sensitivity:index", [&] { I.get_coeff_derivative_wrt_tau(co, ta, n + g.irange(0, 3)); });
  R("sensitivity:lengths", [&] { I.get_coeff_derivative_wrt_tau(co, t3, 0); });
  R("sensitivity:non-positive-length", [&] { I.get_coeff_derivative_wrt_tau(co, t2, 0); });
  R("sensitivity:coefficients", [&] { VX x(co.size() + 1); x.setOnes(); I.get_coeff_derivative_wrt_tau(x, ta, 0); });
  fa::SobolevNorm N(wp, *b.lib, {{1, 1.0}});
  double v0 = N(ta);
  R("sobolev:lengths", [&] { N(t3); });
  R("sobolev:non-positive-length", [&] { N(t2); });
  R("sobolev-gradient:lengths", [&] { VX q(n + 1); N.deriv_wrt_interval_len(t3, q); });
  R("sobolev-gradient:non-positive-length", [&] { VX q(n); N.deriv_wrt_interval_len(t2, q); });
  // after all the refused requests the objects give what they gave before
  c.check(N(ta) == v0, "unusable-afterwards:sobolev", "");
  GSpline s1 = I.interpolate(ta, wp);
  c.check((s1.get_coefficients() - co).cwiseAbs().maxCoeff() <= 1e-12 * (1e-300 + co.cwiseAbs().maxCoeff()), "unusable-afterwards:interpolator", "");
}
static void collocation(Ctx& c) {
  Rng& g = c.rng;
  namespace cl = gsplines::collocation;
  Dom d = random_dom(g);
  int k = (int)g.irange(2, 3), m = (int)g.irange(2, 6), n = (int)g.irange(1, 4);
  Fn f = random_fn(g, d, k, 1), s = random_fn(g, d, 1, 1);
  Dom d2{d.first, d.second + bump(g)};
  c.dv("m", m); c.dv("n", n); c.dv("k", k); c.d(f.ref->str()); c.dv("end", d2.second);
  GLLS v = GLLS::approximate(*f.lib, m, n), q = GLLS::approximate(*s.lib, m, n);
  GLLS vm = GLLS::approximate(*f.lib, m + 1, n), vn = GLLS::approximate(*f.lib, m, n + 1), sm = GLLS::approximate(*s.lib, m + 1, n), sn = GLLS::approximate(*s.lib, m, n + 1);
  GLLS vd(d2, k, n, m), sd(d2, 1, n, m);
  // same number of nodes and intervals on the same domain, other breakpoints
  VX tu = VX::Constant(n, (d.second - d.first) / n);
  if (n > 1) { tu(0) *= 1.3; tu(1) -= 0.3 * (d.second - d.first) / n; }
  GLLS vu(d, k, n, m, v.get_coefficients(), tu), su(d, 1, n, m, q.get_coefficients(), tu);
  Watch w;
  for (const GLLS* x : {&v, &q, &vm, &vn, &sm, &sn, &vd, &sd}) w.add(*x);
  Refuse R{c, w};
  auto mul = [&](const std::string& what, const GLLS& a, const GLLS& b) {
    R(what + ":gll-mul/cc", [&] { a * b; });
    R(what + ":gll-mul/cr", [&] { a * GLLS(b); });
    R(what + ":gll-mul/rc", [&] { GLLS(a) * b; });
    R(what + ":gll-mul/rr", [&] { GLLS(a) * GLLS(b); });
  };
  auto add = [&](const std::string& what, const GLLS& a, const GLLS& b) {
    R(what + ":gll-add/cc", [&] { a + b; });
    R(what + ":gll-add/cr", [&] { a + GLLS(b); });
    R(what + ":gll-add/rc", [&] { GLLS(a) + b; });
    R(what + ":gll-add/rr", [&] { GLLS(a) + GLLS(b); });
    R(what + ":gll-sub/cc", [&] { a - b; });
    R(what + ":gll-sub/cr", [&] { a - GLLS(b); });
    R(what + ":gll-sub/rc", [&] { GLLS(a) - b; });
    R(what + ":gll-sub/rr", [&] { GLLS(a) - GLLS(b); });
    GLLS t(a);
    R(what + ":gll-add-assign", [&] { t += b; });
    R(what + ":gll-sub-assign", [&] { t -= b; });
    c.check(same_bits(t.get_coefficients(), a.get_coefficients()), "operand-changed:" + what + ":gll-assign", "");
  };
  mul("two-vectors", v, v); mul("nodes", v, sm); mul("intervals", v, sn); mul("domain", v, sd); mul("nodes-scalar", q, vm); mul("intervals-scalar", q, vn);
  add("codomain", v, q); add("nodes", v, vm); add("intervals", v, vn); add("domain", v, vd);
  if (n > 1) { mul("breakpoints", v, su); add("breakpoints", v, vu); }
  VX x(k + 1); x.setOnes();
  R("vector-size:+l", [&] { x + v; });
  R("vector-size:+lr", [&] { x + GLLS(v); });
  R("vector-size:+r", [&] { v + x; });
  R("vector-size:+rr", [&] { GLLS(v) + x; });
  R("vector-size:-l", [&] { x - v; });
  R("vector-size:-lr", [&] { x - GLLS(v); });
  R("vector-size:-r", [&] { v - x; });
  R("vector-size:-rr", [&] { GLLS(v) - x; });
  R("divide-by-vector", [&] { 1.0 / v; });
  R("divide-by-vector-r", [&] { 1.0 / GLLS(v); });
  R("power-of-vector", [&] { cl::pow(v, 2.0); });
  R("power-of-vector-r", [&] { cl::pow(GLLS(v), 2.0); });
  auto asg = [&](const std::string& what, const GLLS& b) {
    GLLS t(v);
    R("assign-" + what, [&] { t = b; });
    R("move-assign-" + what, [&] { t = GLLS(b); });
    c.check(same_bits(t.get_coefficients(), v.get_coefficients()) && t.get_domain() == v.get_domain(), "operand-changed:assign-" + what, "");
  };
  asg("nodes", vm); asg("intervals", vn); asg("codomain", q);
  { GLLS t(v); R("assign-function-codomain", [&] { t = (const FB&)*s.lib; }); c.check(same_bits(t.get_coefficients(), v.get_coefficients()) && t.get_domain() == v.get_domain(), "operand-changed:assign-function", ""); }
  R("value-index", [&] { v.value_at((size_t)m * n + g.irange(0, 2)); });
  R("approximate-nodes", [&] { GLLS::approximate(*f.lib, (size_t)g.irange(0, 1), n); });
  R("construct-coefficients", [&] { GLLS t(d, k, n, m, VX(VX::Ones(k * n * m + 1)), VX(VX::Ones(n))); });
  { GLLS t(v); std::vector<MX> vals((size_t)n * m + 1, MX::Ones(k, 1)); auto id = [](const MX& z) -> const MX& { return z; };
    R("set-count", [&] { t.set_from_array(d2, vals.begin(), vals.end(), id); });
    vals.pop_back(); for (auto& z : vals) z = MX::Ones(k + 1, 1);
    R("set-components", [&] { t.set_from_array(d2, vals.begin(), vals.end(), id); });
    for (auto& z : vals) z = MX::Ones(k, 1);
    R("set-domain", [&] { t.set_from_array({d.second, d.first}, vals.begin(), vals.end(), id); });
    vals[g.irange(0, (long)vals.size() - 1)] = MX::Ones(k, k);
    R("set-matrix", [&] { t.set_from_array(d2, vals.begin(), vals.end(), id); });
    c.check(same_bits(t.get_coefficients(), v.get_coefficients()) && t.get_domain() == v.get_domain(), "operand-changed:set", ""); }
  // functionals on splines of another discretisation or codomain, or updated with such data
  auto rows = [](const cl::LinearFunctionalBase& L) { return MX(L.to_dense_matrix()); };
  auto intact = [&](const cl::LinearFunctionalBase& L, const MX& before, const std::string& what) { MX a = rows(L); c.check(a.rows() == before.rows() && a.cols() == before.cols() && (a.array() == before.array()).all(), "operand-changed:" + what, ""); };
  { cl::TransposeLeftMultiplication T(v); MX before = rows(T);
    R("transpose:codomain", [&] { T = q; }); R("transpose:nodes", [&] { T = vm; }); R("transpose:intervals", [&] { T = vn; });
    R("transpose:function-codomain", [&] { T = (const FB&)*s.lib; });
    R("transpose:apply-nodes", [&] { T(vm); }); R("transpose:apply-intervals", [&] { T(vn); }); R("transpose:apply-codomain", [&] { T * q; });
    intact(T, before, "transpose"); }
  { cl::MatrixLeftMultiplication M(k, m, n, 2); M.update(MX(MX::Ones(2, k))); MX before = rows(M);
    std::vector<MX> ms((size_t)n * m, MX::Ones(2, k));
    size_t at = (size_t)g.irange(0, (long)ms.size() - 1);
    for (auto& z : ms) z *= 2;
    ms[at] = MX::Ones(3, k);
    R("matrix:rows", [&] { M.update(ms.begin(), ms.end()); });
    ms[at] = MX::Ones(2, k + 1);
    R("matrix:cols", [&] { M.update(ms.begin(), ms.end()); });
    ms.pop_back();
    R("matrix:count", [&] { M.update(ms.begin(), ms.end()); });
    R("matrix:constant-shape", [&] { M.update(MX(MX::Ones(k + 1, 2))); });
    R("matrix:apply-codomain", [&] { M * q; });
    R("matrix:apply-intervals", [&] { M(vn); });
    intact(M, before, "matrix"); }
  { cl::Integral I(q); MX before = rows(I);
    R("integral:apply", [&] { I(sn); }); R("integral:lengths", [&] { I.update(VX(VX::Ones(n + 1))); });
    intact(I, before, "integral"); }
  { cl::Derivative D(v); MX before = rows(D); R("derivative:apply-nodes", [&] { D * vm; }); R("derivative:apply-intervals", [&] { D(vn); }); intact(D, before, "derivative"); }
}
static void register_all() {
  scenario("functions", functions_, 4);
  scenario("constructors", constructors, 2);
  scenario("interpolation", interpolation, 2);
  scenario("collocation", collocation, 1);
}
VH_MAIN
