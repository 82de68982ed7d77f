#include "vh.hpp"
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
using namespace vh;
using gsplines::GSpline;

struct Pt { double t; bool exact; };

static std::vector<Pt> points(Ctx& x, const RefSpline& r, bool dyadic, int m, bool outside) {
  Rng& g = x.rng;
  auto bp = r.bps();
  ld T = bp.back() - bp.front();
  std::vector<Pt> p;
  for (int i = 0; i < m; i++) {
    double w = g.u();
    if (w < 0.25) {  // a breakpoint
      ld b = bp[g.irange(0, (long)bp.size() - 1)];
      p.push_back({(double)b, dyadic});
    } else if (w < 0.35) {  // very near a breakpoint
      ld b = bp[g.irange(0, (long)bp.size() - 1)];
      p.push_back({(double)(b + (ld)g.sgn() * g.logu(1e-13, 1e-3) * T), true});
    } else if (w < 0.5 && outside) {
      double h = g.chance(0.2) && r.b.kind != B0101 && (r.b.kind == LEG || r.b.dim <= 4) ? g.logu(0.5, 20) : g.logu(1e-4, 0.5);
      int i2 = g.chance(0.5) ? 0 : r.n() - 1;
      p.push_back({i2 == 0 && g.chance(0.5) ? (double)(bp.front() - h * r.taus(0)) : (double)(bp.back() + h * r.taus(r.n() - 1)), true});
    } else {
      int i2 = (int)g.irange(0, r.n() - 1);
      p.push_back({(double)(bp[i2] + (ld)g.u() * (ld)r.taus(i2)), true});
    }
  }
  return p;
}
static void compare(Ctx& x, const RefSpline& r, BasisScale& sc, double t, bool exact, int c, double got,
                    const std::string& key, const std::string& info) {
  auto bp = r.bps();
  std::vector<int> cand{r.piece(t)};
  ld T = bp.back() - bp.front();
  ld slack = (8 + r.n()) * EPS * (fabsl((ld)t) + fabsl(bp.front()) + T);
  for (int i = 0; i <= r.n(); i++) {
    // inexact coordinates: a point within rounding of a breakpoint may belong to either side
    if (fabsl((ld)t - bp[i]) <= slack && !(exact && (ld)t == bp[i])) {
      cand = {std::max(0, i - 1), std::min(r.n() - 1, i)};
    }
  }
  ld best = -1, bref = 0, bscale = 1;
  for (int i : cand) {
    ld s = 2 * ((ld)t - bp[i]) / (ld)r.taus(i) - 1;
    ld scale = 0, d1 = 0;
    ld v = r.at(i, c, t, 0);
    for (int j = 0; j < r.b.dim; j++) {
      ld cf = fabsl((ld)r.coeff((i * r.codom + c) * r.b.dim + j));
      scale += cf * sc(j, s, r.taus(i), 0);
      d1 += cf * sc(j, s, r.taus(i), 1);
    }
    scale = 1e-10L * scale + 1e-15L * 16 * d1 * (fabsl((ld)t) + fabsl(bp.front()) + T);
    for (ld nd : r.b.nodes) if (fabsl(nd - s) < 4e-9L) scale += 4e-9L * d1 * r.taus(i);
    ld e = fabsl((ld)got - v) / (scale + 1e-300L);
    if (!std::isfinite(got)) e = INFINITY;
    if (best < 0 || e < best) { best = e; bref = v; bscale = scale; }
  }
  x.close(got, bref, bscale, 1.0, key, info);
  if (fabsl(bref) > 1e3L * bscale) x.nontrivial = true;
}
static void audit(Ctx& x, const gsplines::functions::FunctionBase& f, const RefSpline& r, BasisScale& sc, bool dyadic,
                  int m, const std::string& tag) {
  Rng& g = x.rng;
  auto pts = points(x, r, dyadic, m, true);
  if (g.chance(0.3)) std::sort(pts.begin(), pts.end(), [](const Pt& a, const Pt& b) { return a.t < b.t; });
  if (pts.size() > 2 && g.chance(0.3)) pts[1] = pts[0];
  VX t(pts.size());
  for (size_t i = 0; i < pts.size(); i++) t(i) = pts[i].t;
  MX v;
  int how = (int)g.irange(0, 2);
  if (how == 0) v = f(t);
  else if (how == 1) v = f.value(t);
  else {  // buffer-filling call into a block of a poisoned matrix, argument a segment
    int pr = (int)g.irange(0, 2), pc = (int)g.irange(0, 2);
    MX big = MX::Constant(t.size() + 2 * pr, r.codom + 2 * pc, 7.25e77);
    VX tb = VX::Constant(t.size() + 4, 1e300);
    tb.segment(2, t.size()) = t;
    f.value(tb.segment(2, t.size()), big.block(pr, pc, t.size(), r.codom));
    v = big.block(pr, pc, t.size(), r.codom);
    for (long i = 0; i < big.rows(); i++)
      for (long j = 0; j < big.cols(); j++)
        if (i < pr || i >= pr + t.size() || j < pc || j >= pc + r.codom)
          x.check(big(i, j) == 7.25e77, "out-of-buffer-write", tag);
  }
  if (!x.check(v.rows() == t.size() && v.cols() == r.codom, "value-shape", tag)) return;
  for (long i = 0; i < t.size(); i++)
    for (int c = 0; c < r.codom; c++) {
      std::ostringstream o; o.precision(17); o << tag << " t=" << t(i) << " c=" << c << " batch=" << t.size();
      compare(x, r, sc, t(i), pts[i].exact, c, v(i, c), "value", o.str());
    }
  x.count("points", t.size());
  // one by one
  for (int q = 0; q < std::min<long>(3, t.size()); q++) {
    long i = g.irange(0, t.size() - 1);
    MX one = f(VX::Constant(1, t(i)));
    for (int c = 0; c < r.codom; c++)
      x.check(one(0, c) == v(i, c) || std::fabs(one(0, c) - v(i, c)) <= 1e-13 * (1 + std::fabs(v(i, c))), "batch-vs-single",
              tag + " point " + std::to_string(t(i)));
  }
}
static void general(Ctx& x, int nmax, int cmax, int dmax, bool extreme) {
  Rng& g = x.rng;
  auto b = random_basis(g, 1, dmax);
  int n = (int)(g.chance(0.2) ? 1 : g.irange(1, nmax)), codom = (int)g.irange(1, cmax);
  bool dyadic = g.chance(0.4) && !extreme;
  RefSpline r = random_ref_spline(g, b.ref, n, codom, dyadic, extreme ? 1e-3 : 0.1, extreme ? (b.ref.kind == B0101 ? 20 : 1e3) : 5);
  if (extreme && g.chance(0.5)) r.t0 = g.sgn() * g.logu(1, 1e5);
  BasisScale sc(b.ref);
  x.d(b.str()); x.dv("n", n); x.dv("codom", codom); x.dv("t0", r.t0); x.d("taus=" + vec_str(r.taus, 5));
  GSpline f = to_lib(r, *b.lib);
  std::string tag = b.str() + " n=" + std::to_string(n) + " codom=" + std::to_string(codom);
  int m = g.chance(0.08) ? 0 : g.chance(0.2) ? 1 : (int)g.size(2, 40, 300);
  audit(x, f, r, sc, dyadic, m, tag);
  // the same function through other construction paths and static types
  int path = (int)g.irange(0, 7);
  if (path == 0) { GSpline h(f); audit(x, h, r, sc, dyadic, 12, tag + " copy"); }
  else if (path == 1) { GSpline h0(f); GSpline h(std::move(h0)); audit(x, h, r, sc, dyadic, 12, tag + " move"); }
  else if (path == 2) { auto h = f.clone(); audit(x, *h, r, sc, dyadic, 12, tag + " clone"); }
  else if (path == 3) { auto h = f.to_expression(); audit(x, h, r, sc, dyadic, 12, tag + " expression"); }
  else if (path == 4) {
    VX cc = r.coeff, tt = r.taus;
    GSpline h({r.t0, r.t0 + r.taus.sum()}, codom, n, *b.lib, std::move(cc), std::move(tt), "named");
    audit(x, h, r, sc, dyadic, 12, tag + " rvalue ctor");
    x.check(h.get_name() == "named", "name", tag);
  } else if (path == 5) {
    gsplines::GSplineBase h({r.t0, r.t0 + r.taus.sum()}, codom, n, *b.lib, r.coeff, r.taus);
    audit(x, h, r, sc, dyadic, 12, tag + " GSplineBase");
  } else if (path == 6 && b.ref.kind == GLL) {
    gsplines::collocation::GaussLobattoLagrangeSpline h({r.t0, r.t0 + r.taus.sum()}, codom, n, b.ref.dim, r.coeff, r.taus);
    audit(x, h, r, sc, dyadic, 12, tag + " collocation spline");
  } else {
    std::unique_ptr<gsplines::functions::FunctionBase> h = static_cast<gsplines::functions::FunctionBase&>(f).clone();
    audit(x, *h, r, sc, dyadic, 12, tag + " base clone");
  }
  // metadata
  auto bp = r.bps();
  ld T = bp.back() - bp.front();
  x.check((int)f.get_number_of_intervals() == n && (int)f.get_codom_dim() == codom && (int)f.get_basis_dim() == b.ref.dim, "dimensions", tag);
  x.check(f.get_basis_name() == b.lib->get_name() && f.get_basis() == *b.lib, "basis", tag);
  x.check(same_bits(f.get_coefficients(), r.coeff), "coefficients", tag);
  x.check(same_bits(f.get_interval_lengths(), r.taus), "interval-lengths", tag);
  x.check(f.get_domain().first == r.t0, "domain", tag);
  x.close(f.get_domain_length(), T, T + fabsl((ld)r.t0), 1e-13, "domain-length", tag);
  VX bpl = f.get_domain_breakpoints();
  MX wp = f.get_waypoints();
  if (x.check(bpl.size() == n + 1 && wp.rows() == n + 1 && wp.cols() == codom, "breakpoints-shape", tag))
    for (int i = 0; i <= n; i++) {
      x.close(bpl(i), bp[i], fabsl(bp.front()) + T, 1e-13, "breakpoints", tag);
      for (int c = 0; c < codom; c++)
        compare(x, r, sc, (double)bp[i], dyadic, c, wp(i, c), "waypoints", tag + " waypoint " + std::to_string(i));
    }
  for (int q = 0; q < 3; q++) {
    double t = g.uni(f.get_domain().first - 1, f.get_domain().second + 1);
    bool in = f.get_domain().first <= t && t < f.get_domain().second;
    x.check(f.is_point_in_domain(t) == in, "point-in-domain", tag);
  }
  x.check(f.is_point_in_domain(f.get_domain().first) || T == 0, "point-in-domain", tag);
}
static void register_all() {
  scenario("ordinary", [](Ctx& x) { general(x, 8, 4, 9, false); }, 4);
  scenario("wide", [](Ctx& x) { general(x, 4, 14, 6, false); }, 1);
  scenario("long", [](Ctx& x) { general(x, 70, 2, 5, false); }, 1);
  scenario("high-dim", [](Ctx& x) { general(x, 4, 3, 13, false); }, 1);
  scenario("extreme", [](Ctx& x) { general(x, 8, 3, 8, true); }, 2);
}
VH_MAIN
