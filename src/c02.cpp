#include "vh.hpp"
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
using namespace vh;
using gsplines::GSpline;
using gsplines::functions::FunctionBase;

static void audit(Ctx& x, const FunctionBase& f, const RefSpline& r, BasisScale& sc, int deg, const std::string& tag) {
  Rng& g = x.rng;
  auto bp = r.bps();
  ld T = bp.back() - bp.front();
  x.check(f.get_codom_dim() == (size_t)r.codom, "codomain", tag);
  x.check(f.get_domain().first == r.t0, "domain", tag);
  x.close(f.get_domain().second, bp.back(), T + fabsl(bp.front()), 1e-13, "domain", tag);
  std::vector<double> ts; std::vector<int> pc;
  for (int i = 0; i < r.n(); i++) {
    if (r.n() > 10 && !g.chance(0.3)) continue;
    for (int q = 0; q < 3; q++) {
      double u = q == 0 ? g.uni(0.001, 0.03) : q == 1 ? g.uni(0.97, 0.999) : g.uni(0.02, 0.98);
      ts.push_back((double)(bp[i] + (ld)u * (ld)r.taus(i))); pc.push_back(i);
    }
  }
  if (ts.empty()) return;
  VX t = Eigen::Map<VX>(ts.data(), ts.size());
  MX v = f(t);
  for (size_t q = 0; q < ts.size(); q++)
    for (int c = 0; c < r.codom; c++) {
      int i = pc[q];
      ld s = 2 * ((ld)ts[q] - bp[i]) / (ld)r.taus(i) - 1;
      ld e = r.at(i, c, ts[q], deg), scale = 0, d1 = 0;
      for (int j = 0; j < r.b.dim; j++) {
        ld cf = fabsl((ld)r.coeff((i * r.codom + c) * r.b.dim + j));
        scale += cf * sc(j, s, r.taus(i), deg);
        d1 += cf * sc(j, s, r.taus(i), deg + 1);
      }
      scale = 1e-8L * scale * (r.b.kind == LAG ? 50 : 1) + 3e-14L * d1 * (fabsl((ld)ts[q]) + fabsl(bp.front()) + T);
      for (ld nd : r.b.nodes) if (fabsl(nd - s) < 4e-9L) scale += 4e-9L * d1 * r.taus(i);
      std::ostringstream o; o.precision(17); o << tag << " t=" << ts[q] << " piece " << i << " c=" << c << " deg=" << deg;
      x.close(v(q, c), e, scale + 1e-280L, 1.0, deg == 0 ? "order-zero" : "derivative", o.str());
      if (fabsl(e) > 1e3L * scale) x.nontrivial = true;
    }
  x.count("derivative evaluations", (long)ts.size());
}
template <class S> static void meta(Ctx& x, const S& d, const RefSpline& r, const gsplines::basis::Basis& b, const std::string& tag) {
  x.check(same_bits(d.get_interval_lengths(), r.taus), "interval-lengths", tag);
  x.check(d.get_basis() == b, "basis", tag);
  x.check((long)d.get_coefficients().size() == r.coeff.size(), "coefficient-count", tag);
}
static void go(Ctx& x, int nmax, int cmax, int dmin, int dmax, bool extreme) {
  Rng& g = x.rng;
  auto b = random_basis(g, dmin, dmax);
  int n = (int)(g.chance(0.2) ? 1 : g.irange(1, nmax)), codom = (int)g.irange(1, cmax);
  RefSpline r = random_ref_spline(g, b.ref, n, codom, false, extreme ? 1e-2 : 0.2, extreme ? (b.ref.kind == B0101 ? 12 : 100) : 4);
  BasisScale sc(b.ref);
  x.d(b.str()); x.dv("n", n); x.dv("codom", codom); x.d("taus=" + vec_str(r.taus, 5));
  std::string tag = b.str() + " n=" + std::to_string(n) + " codom=" + std::to_string(codom);
  int maxdeg = b.ref.kind == B0101 ? 7 : std::min(b.ref.dim + 2, b.ref.dim <= 8 ? 10 : 7);
  if (b.ref.kind == LEG || b.ref.kind == B0101) maxdeg = g.chance(0.2) ? 18 : std::max(maxdeg, b.ref.dim + 2);
  GSpline f = to_lib(r, *b.lib);
  for (int q = 0; q < 3; q++) {
    int deg = (int)g.irange(0, maxdeg);
    x.dv("deg", deg);
    int how = (int)g.irange(0, 5);
    if (how == 0) { GSpline d = f.derivate(deg); audit(x, d, r, sc, deg, tag); meta(x, d, r, *b.lib, tag); }
    else if (how == 1) { auto d = f.deriv(deg); audit(x, *d, r, sc, deg, tag + " deriv"); meta(x, *d, r, *b.lib, tag); }
    else if (how == 2) {  // any split of the order
      GSpline d = f; int left = deg; std::string sp;
      std::unique_ptr<GSpline> cur = std::make_unique<GSpline>(f);
      while (left > 0) {
        int k = (int)g.irange(1, left); left -= k; sp += std::to_string(k) + "+";
        cur = std::make_unique<GSpline>(cur->derivate(k));
        if (g.chance(0.2)) { cur = std::make_unique<GSpline>(cur->derivate(0)); sp += "0+"; }
      }
      audit(x, *cur, r, sc, deg, tag + " split " + sp); meta(x, *cur, r, *b.lib, tag);
    } else if (how == 3) { auto d = f.to_expression().derivate(deg); audit(x, d, r, sc, deg, tag + " expression"); }
    else if (how == 4) { const FunctionBase& fb = f; auto d = fb.derivate(deg); audit(x, d, r, sc, deg, tag + " base derivate"); }
    else if (b.ref.kind == GLL) {
      gsplines::collocation::GaussLobattoLagrangeSpline h({r.t0, r.t0 + r.taus.sum()}, codom, n, b.ref.dim, r.coeff, r.taus);
      auto d = h.derivate(deg); audit(x, d, r, sc, deg, tag + " collocation"); meta(x, d, r, *b.lib, tag);
    } else { const FunctionBase& fb = f; auto d = fb.deriv(deg); audit(x, *d, r, sc, deg, tag + " base deriv"); }
    // the source is still itself
  }
  audit(x, f, r, sc, 0, tag + " source afterwards");
}
static void register_all() {
  scenario("ordinary", [](Ctx& x) { go(x, 6, 4, 1, 8, false); }, 4);
  scenario("high-dim", [](Ctx& x) { go(x, 3, 2, 8, 12, false); }, 1);
  scenario("long", [](Ctx& x) { go(x, 40, 2, 2, 6, false); }, 1);
  scenario("wide", [](Ctx& x) { go(x, 3, 12, 2, 6, false); }, 1);
  scenario("extreme", [](Ctx& x) { go(x, 6, 3, 2, 7, true); }, 1);
}
VH_MAIN
