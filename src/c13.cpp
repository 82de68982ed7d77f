#include "funcs.hpp"
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
using namespace vh;
namespace fa = gsplines::functional_analysis;
using Terms = std::vector<std::pair<std::size_t, double>>;
using Integrand = std::function<bool(double, ld&, ld&)>;  // value and conditioning scale at t; false: undecided

// reference: composite rule with n Gauss-Lobatto nodes on m equal intervals, and a much finer Gauss rule
struct RefInt { bool ok = true; ld rule = 0, fine = 0, scale = 0; };
static RefInt ref_int(const Integrand& f, Dom d, int n, int m, const std::vector<double>& cuts) {
  RefInt r;
  auto x = ref_gll_nodes(n), w = ref_gll_weights(n);
  ld len = ((ld)d.second - d.first) / m;
  for (int i = 0; i < m && r.ok; i++)
    for (int j = 0; j < n; j++) {
      ld v, s;
      double t = (double)(d.first + i * len + (x[j] + 1) / 2 * len);
      if (!f(t, v, s)) { r.ok = false; break; }
      r.rule += w[j] * v * len / 2; r.scale += w[j] * s * len / 2;
    }
  std::vector<ld> gx, gw;
  ref_gauss(20, gx, gw);
  std::vector<double> br{d.first};
  for (double q : cuts) if (q > br.back() && q < d.second) br.push_back(q);
  br.push_back(d.second);
  for (size_t b = 0; b + 1 < br.size() && r.ok; b++)
    for (int h = 0; h < 4 && r.ok; h++) {
      ld a = br[b] + ((ld)br[b + 1] - br[b]) * h / 4, l = ((ld)br[b + 1] - br[b]) / 4;
      for (int j = 0; j < 20; j++) {
        ld v, s;
        if (!f((double)(a + (gx[j] + 1) / 2 * l), v, s)) { r.ok = false; break; }
        r.fine += gw[j] * v * l / 2;
      }
    }
  return r;
}
// true integral up to ten times the error the rule itself has, and rounding
static void judge(Ctx& c, double got, const RefInt& r, const std::string& key, const std::string& info, double rel = 1e-9) {
  ld err = fabsl(r.rule - r.fine);
  c.count("integrals");
  if (err < 1e-9L * r.scale) c.count("resolved");
  c.close(got, r.fine, r.scale + err * 10 / rel + 1e-300L, rel, key, info);
}
// a continuous piecewise polynomial of given degree whose breaks are the m equal intervals of the domain
static Fn piecewise_poly(Rng& g, Dom d, int m, int deg, int codom) {
  int dim = std::max(2, deg + 1);
  auto S = std::make_shared<RSplineFn>();
  S->dom = d; S->codom = codom;
  RefSpline& q = S->s;
  q.b.kind = GLL; q.b.dim = dim; q.b.nodes = ref_gll_nodes(dim);
  q.t0 = d.first; q.codom = codom;
  q.taus = VX::Constant(m, (d.second - d.first) / m);
  q.coeff.resize((long)m * codom * dim);
  Vals val(g, -1, 1);
  for (long i = 0; i < q.coeff.size(); i++) q.coeff(i) = val();
  for (int i = 1; i < m; i++) for (int k = 0; k < codom; k++) q.coeff((i * codom + k) * dim) = q.coeff(((i - 1) * codom + k) * dim + dim - 1);
  if (deg == 0) for (int k = 0; k < codom; k++) for (int i = 0; i < m; i++) for (int j = 0; j < dim; j++) q.coeff((i * codom + k) * dim + j) = q.coeff(k * dim);
  Fn f;
  f.ref = S;
  f.lib = std::make_unique<gsplines::GSpline>(d, codom, m, gsplines::basis::BasisLagrangeGaussLobatto(dim), q.coeff, q.taus);
  return f;
}
static ld spline_integral(const RefSpline& q, int k) {
  auto w = ref_gll_weights(q.b.dim);
  ld r = 0;
  for (int i = 0; i < q.n(); i++) for (int j = 0; j < q.b.dim; j++) r += w[j] * (ld)q.coeff((i * q.codom + k) * q.b.dim + j) * (ld)q.taus(i) / 2;
  return r;
}
static Dom int_dom(Rng& g) {
  double a = g.chance(0.3) ? 0 : g.uni(-4, 4);
  return {a, a + g.logu(0.1, 8)};
}
static void exact_piecewise(Ctx& c) {
  Rng& g = c.rng;
  Dom d = int_dom(g);
  int n = (int)g.size(2, 14, 30), m = (int)g.size(1, 9, 40), deg = (int)g.irange(0, std::min(2 * n - 3, 16));
  if (g.chance(0.5)) deg = std::min(2 * n - 3, 16);
  Fn f = piecewise_poly(g, d, m, deg, 1);
  const RefSpline& q = static_cast<const RSplineFn*>(f.ref.get())->s;
  c.dv("n", n); c.dv("m", m); c.dv("deg", deg); c.dv("a", d.first); c.dv("b", d.second);
  double I = fa::integral(*f.lib, n, m);
  ld len = d.second - d.first;
  c.close(I, spline_integral(q, 0), len * q.coeff.cwiseAbs().maxCoeff() * q.b.dim, 1e-10, "exact-piecewise");
  // as an expression, with twice the intervals: still exact
  FE e = f.expr();
  c.close(fa::integral(e, n, 2 * m), spline_integral(q, 0), len * q.coeff.cwiseAbs().maxCoeff() * q.b.dim, 1e-10, "exact-piecewise-expression");
  if (n <= 10 && m == 1) c.close(fa::integral(*f.lib), spline_integral(q, 0), len * q.coeff.cwiseAbs().maxCoeff() * q.b.dim, 1e-10, "exact-default-arguments");
}
static void exact_poly(Ctx& c) {
  Rng& g = c.rng;
  double a = g.uni(-1.5, 1.5), b = a + g.uni(0.2, 2);
  int n = (int)g.size(2, 12, 24), m = (int)(g.chance(0.03) ? g.irange(41, 400) : g.size(1, 12, 40)), deg = g.chance(0.6) ? 2 * n - 3 : (int)g.irange(0, 2 * n - 3);
  VX p(deg + 1);
  Vals val(g, -1, 1);
  for (int i = 0; i <= deg; i++) p(i) = val();
  c.dv("n", n); c.dv("m", m); c.dv("deg", deg); c.dv("a", a); c.dv("b", b);
  fns::CanonicPolynomial f({a, b}, p);
  ld I = 0, s = 0;
  for (int i = 0; i <= deg; i++) {
    ld t = (ld)p(i) * (powl(b, i + 1) - powl(a, i + 1)) / (i + 1);
    I += t; s += fabsl((ld)p(i)) * (fabsl(powl(b, i + 1)) + fabsl(powl(a, i + 1))) / (i + 1);
  }
  c.close(fa::integral(f, n, m), I, s, 1e-11, "exact-polynomial");
}
// integral of the squared length of a path run through another function of time (default nodes, exact here)
static void along(Ctx& c) {
  Rng& g = c.rng;
  Dom d = int_dom(g);
  int k = (int)g.size(1, 4, 9), deg = (int)g.irange(0, 3), dd = (int)g.irange(0, 2);
  double len = d.second - d.first;
  VX p(dd + 1);
  for (int i = 0; i <= dd; i++) p(i) = g.uni(-1, 1);
  double lo = 1e300, hi = -1e300;
  for (int i = 0; i <= 200; i++) { double t = d.first + len * i / 200, u = 0; for (int j = dd; j >= 0; j--) u = u * t + p(j); lo = std::min(lo, u); hi = std::max(hi, u); }
  double w = hi - lo + 0.3;
  Fn f = piecewise_poly(g, {lo - 0.1 * w, hi + 0.1 * w}, 1, deg, k);
  const RefSpline& q = static_cast<const RSplineFn*>(f.ref.get())->s;
  c.dv("codom", k); c.dv("deg", deg); c.dv("inner", dd); c.dv("a", d.first); c.dv("b", d.second);
  std::vector<ld> gx, gw;
  ref_gauss(20, gx, gw);
  ld I = 0;
  for (int j = 0; j < 20; j++) {
    ld t = d.first + (gx[j] + 1) / 2 * (ld)len, u = 0;
    for (int i = dd; i >= 0; i--) u = u * t + (ld)p(i);
    std::vector<ld> a, s;
    if (!ref_value(*f.ref, (double)u, 0, a, s, 5)) { c.count("undecided"); return; }
    for (ld v : a) I += gw[j] * v * v * (ld)len / 2;
  }
  fns::CanonicPolynomial in(d, p);
  ld cm = q.coeff.cwiseAbs().maxCoeff() * q.b.dim * 4;
  c.close(gsplines::collocation::integral(in, *f.lib), I, (ld)len * k * cm * cm, 1e-9, "along");
  FE e1 = in.to_expression(), e2 = f.expr();
  c.close(gsplines::collocation::integral(e1, e2), I, (ld)len * k * cm * cm, 1e-9, "along-expressions");
  c.count("integrals along a reparametrisation");
}
static Integrand value_of(RP r) {
  return [r](double t, ld& v, ld& s) { std::vector<ld> a, b; if (!ref_value(*r, t, 0, a, b, 5)) return false; v = a[0]; s = b[0]; return true; };
}
static void smooth(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  Fn f;
  for (int k = 0; k < 40; k++) {
    f = random_fn(g, d, 1, (int)g.irange(1, 4));
    if (f.ref->smooth()) break;
    f = mk_leaf(g, d, 1);
  }
  int n = (int)g.size(2, 16, 30), m = (int)(g.chance(0.03) ? g.irange(31, 400) : g.size(1, 8, 30));
  c.dv("n", n); c.dv("m", m); c.d(f.ref->str());
  RefInt r = ref_int(value_of(f.ref), d, n, m, {});
  if (!r.ok) { c.count("undecided"); return; }
  judge(c, fa::integral(*f.lib, n, m), r, "smooth", f.ref->str());
  // refinement does not lose accuracy
  RefInt r2 = ref_int(value_of(f.ref), d, 20, 6, {});
  judge(c, fa::integral(*f.lib, 20, 6), r2, "smooth-refined", f.ref->str());
}
static Integrand sob(RP a, RP b, Terms t) {
  return [=](double x, ld& v, ld& s) {
    v = s = 0;
    for (auto& q : t) {
      std::vector<ld> a1, s1, b1, s2;
      if (!ref_value(*a, x, (int)q.first, a1, s1, 7) || !ref_value(*b, x, (int)q.first, b1, s2, 8)) return false;
      for (size_t i = 0; i < a1.size(); i++) { v += (ld)q.second * a1[i] * b1[i]; s += fabsl((ld)q.second) * s1[i] * s2[i]; }
    }
    return true;
  };
}
static Terms random_terms(Rng& g, bool nonneg, bool high = false) {
  Terms t;
  int n = (int)g.size(0, 4, 9);
  if (g.chance(0.8) && n == 0) n = 2;
  for (int i = 0; i < n; i++) t.push_back({(std::size_t)(high ? g.irange(0, 6) : g.irange(0, 3)), nonneg ? (g.chance(0.15) ? 1.0 : g.logu(0.05, 5)) : g.num(-2, 2)});
  if (!t.empty() && g.chance(0.25)) t.push_back(t[g.next() % t.size()]);  // the same term twice counts twice
  return t;
}
static Fn smooth_fn(Rng& g, Dom d, int k) {
  for (int i = 0; i < 60; i++) {
    Fn f = random_fn(g, d, k, (int)g.irange(1, 2));
    if (f.ref->smooth() && f.ref->cost(3) < 400) return f;
  }
  return mk_leaf(g, d, k);
}
static void products(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.size(1, 3, 7), n = (int)g.size(3, 12, 24), m = (int)g.size(1, 4, 20);
  Fn f = smooth_fn(g, d, k), h = smooth_fn(g, d, k);
  bool high = g.chance(0.4);
  if (high) { if (g.chance(0.5)) f = mk_leaf(g, d, k); if (g.chance(0.5)) h = mk_leaf(g, d, k); }
  Terms t = random_terms(g, false, high && f.ref->cost(6) < 400 && h.ref->cost(6) < 400);
  std::ostringstream o;
  for (auto& q : t) o << q.first << ":" << q.second << " ";
  c.dv("n", n); c.dv("m", m); c.d(o.str()); c.d(f.ref->str()); c.d(h.ref->str());
  RefInt r = ref_int(sob(f.ref, h.ref, t), d, n, m, {});
  if (!r.ok) { c.count("undecided"); return; }
  double fh = fa::sobolev_semi_inner_product(*f.lib, *h.lib, t, n, m), hf = fa::sobolev_semi_inner_product(*h.lib, *f.lib, t, n, m);
  if (t.empty()) { c.check(fh == 0 && hf == 0, "product:empty", ""); return; }
  judge(c, fh, r, "semi-inner-product", o.str(), 1e-8);
  judge(c, hf, r, "symmetry", o.str(), 1e-8);
  // a function with itself, the weights of any sign
  RefInt rq = ref_int(sob(f.ref, f.ref, t), d, n, m, {});
  if (rq.ok) judge(c, fa::sobolev_semi_inner_product(*f.lib, *f.lib, t, n, m), rq, "self-product", o.str(), 1e-8);
  // bilinear, in the first argument
  Fn p = smooth_fn(g, d, k);
  double a = g.num(-2, 2), b = g.num(-2, 2);
  RefInt rp = ref_int(sob(p.ref, h.ref, t), d, n, m, {});
  if (rp.ok) {
    FE lin = a * f.expr() + b * p.expr();
    double l = fa::sobolev_semi_inner_product(lin, *h.lib, t, n, m), ph = fa::sobolev_semi_inner_product(*p.lib, *h.lib, t, n, m);
    ld s = fabsl((ld)a) * r.scale + fabsl((ld)b) * rp.scale;
    c.close(l, (ld)a * fh + (ld)b * ph, s, 1e-8, "bilinear");
  }
  double dg = (double)g.irange(0, 2);
  int deg = (int)dg;
  Terms s1;
  for (int i = 0; i <= deg; i++) s1.push_back({(std::size_t)i, 1.0});
  RefInt rs = ref_int(sob(f.ref, h.ref, s1), d, n, m, {}), rn = ref_int(sob(f.ref, f.ref, s1), d, n, m, {});
  RefInt r0 = ref_int(sob(f.ref, h.ref, {{0, 1.0}}), d, n, m, {}), rl = ref_int(sob(f.ref, f.ref, {{0, 1.0}}), d, n, m, {});
  if (!rs.ok || !rn.ok || !r0.ok || !rl.ok) return;
  judge(c, fa::sobolev_inner_product(*f.lib, *h.lib, deg, n, m), rs, "inner-product", "deg " + std::to_string(deg), 1e-8);
  judge(c, fa::sobolev_norm(*f.lib, deg, n, m), rn, "sobolev-norm", "deg " + std::to_string(deg), 1e-8);
  judge(c, fa::l2_inner_product(*f.lib, *h.lib, n, m), r0, "l2-inner-product", "", 1e-8);
  judge(c, fa::l2_norm(*f.lib, n, m), rl, "l2-norm", "", 1e-8);
  Terms pos = random_terms(g, true);
  RefInt rr = ref_int(sob(f.ref, f.ref, pos), d, n, m, {});
  if (!rr.ok) return;
  double nn = fa::sobolev_semi_norm(*f.lib, pos, n, m);
  judge(c, nn, rr, "semi-norm", "", 1e-8);
  c.check(nn >= 0 && fa::l2_norm(*f.lib, n, m) >= 0, "norm:negative", "");
  RefInt rd = ref_int(sob(f.ref, h.ref, t), d, 10, 1, {});
  if (rd.ok) judge(c, fa::sobolev_semi_inner_product(*f.lib, *h.lib, t), rd, "default-arguments", "", 1e-8);
}
// splines: products that the rule integrates exactly
static void exact_products(Ctx& c) {
  Rng& g = c.rng;
  Dom d = int_dom(g);
  int m = (int)g.irange(1, 5), deg = (int)g.irange(1, 6), k = (int)g.irange(1, 3);
  int n = deg + 2 + (int)g.irange(0, 3);  // 2n-3 >= 2 deg
  // only order zero is continuous across the breaks
  Fn f = piecewise_poly(g, d, m, deg, k), h = piecewise_poly(g, d, m, deg, k);
  Terms t = m == 1 ? random_terms(g, false, g.chance(0.3)) : Terms{{0, g.uni(-2, 2)}};
  c.dv("n", n); c.dv("m", m); c.dv("deg", deg); c.dv("terms", t.size()); c.dv("a", d.first);
  const RefSpline &qf = static_cast<const RSplineFn*>(f.ref.get())->s, &qh = static_cast<const RSplineFn*>(h.ref.get())->s;
  ld I = 0, S = 0;
  std::vector<ld> gx, gw;
  ref_gauss(12, gx, gw);
  auto bp = qf.bps();
  for (auto& q : t)
    for (int i = 0; i < m; i++)
      for (int j = 0; j < 12; j++)
        for (int e = 0; e < k; e++) {
          ld x = bp[i] + (gx[j] + 1) / 2 * (ld)qf.taus(i), s1, s2;
          ld a = qf.at(i, e, x, (int)q.first, &s1), b = qh.at(i, e, x, (int)q.first, &s2);
          ld gr = powl(2.0L * 49 / (ld)qf.taus(i), q.first);
          I += (ld)q.second * gw[j] * a * b * (ld)qf.taus(i) / 2;
          S += fabsl((ld)q.second) * gw[j] * (s1 + gr) * (s2 + gr) * (ld)qf.taus(i) / 2;
        }
  c.close(fa::sobolev_semi_inner_product(*f.lib, *h.lib, t, n, m), I, S, 1e-10, "exact-product");
}
static void refuse(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.irange(2, 4);
  Fn v = random_fn(g, d, k, 2), w = random_fn(g, d, k + 1, 1), o = random_fn(g, {d.first + g.uni(0.3, 2), d.second + 3}, k, 1);
  c.d(v.ref->str());
  c.check(throws([&] { fa::integral(*v.lib, 5, 2); }), "refuse:vector-integral", "");
  c.check(throws([&] { fa::l2_inner_product(*v.lib, *w.lib, 5, 2); }), "refuse:codomain", "");
  c.check(throws([&] { fa::l2_inner_product(*v.lib, *o.lib, 5, 2); }), "refuse:domain", "");
  c.check(throws([&] { fa::integral(mk_leaf(g, d, 1).expr(), 1, 2); }), "refuse:one-node", "");
  c.nontrivial = true;
}
static void register_all() {
  scenario("exact-piecewise", exact_piecewise, 3);
  scenario("exact-poly", exact_poly, 2);
  scenario("along", along, 1);
  scenario("smooth", smooth, 2);
  scenario("products", products, 3);
  scenario("exact-products", exact_products, 3);
  scenario("refuse", refuse, 1);
}
VH_MAIN
