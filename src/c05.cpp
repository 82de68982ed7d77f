#include "interp.hpp"
using namespace vh;
using gsplines::Interpolator;
static std::map<int,double> worst;
// A(tau) c = b  =>  A dc + dA c = 0, every row, in long double
static void audit(Ctx& x, const RefBasis& b, const VX& taus, int codom, const VX& c, const VX& dc, int p, const std::string& tag) {
  int n = (int)taus.size(), dim = b.dim;
  if (!x.check(dc.size() == c.size(), "size", tag)) return;
  EndTable T(b, taus);
  // where the sensitivities vanish (a component at rest) they are known up to rounding of the coefficients
  std::vector<ld> floor_(codom, 0);
  for (long i = 0; i < c.size(); i++) { ld& f = floor_[(i / dim) % codom]; f = std::max(f, 1e-4L * fabsl((ld)c(i)) / (ld)taus(p)); }
  for (auto& row : interp_rows(n, dim))
    for (int k = 0; k < codom; k++) {
      ld r = 0, sc = 0, cm = floor_[k], vm = 0;
      for (auto& t : row.t) {
        auto& v = T.val(t); auto& d = T.dtau(t);
        for (int j = 0; j < dim; j++) {
          long ix = (t.interval * codom + k) * dim + j;
          ld q = (ld)t.sign * v[j] * (ld)dc(ix); r += q; sc += fabsl(q);
          cm = std::max(cm, fabsl((ld)dc(ix))); vm = std::max(vm, fabsl(v[j]));
          if (t.interval == p) { ld e = (ld)t.sign * d[j] * (ld)c(ix); r += e; sc += fabsl(e); }
        }
      }
      sc = std::max(sc, vm * cm);
      x.checks++;
      if (!(fabsl(r) <= (ld)interp_tol(b) * sc + 1e-300L) || !std::isfinite((double)r)) {
        std::ostringstream o; o.precision(17);
        o << tag << " " << row.what << " interval " << row.t[0].interval << " order " << row.t[0].deg << " component " << k << " wrt tau " << p
          << " residual " << (double)r << " scale " << (double)sc;
        x.fail(std::string("row:") + row.what, o.str());
      }
      if (sc > 0) worst[b.dim] = std::max(worst[b.dim], (double)(fabsl(r) / sc));
      x.count("derivative rows");
    }
  if (dc.cwiseAbs().maxCoeff() > 1e-9 * c.cwiseAbs().maxCoeff()) x.nontrivial = true;
}
// the same derivative by a central difference of the interpolation itself
static void difference(Ctx& x, Interpolator& fresh, const VX& taus, const MX& wp, const VX& dc, int p, const std::string& tag) {
  VX e[2];
  double best = INFINITY, size = dc.norm();
  for (double h : {1e-3, 1e-4, 1e-5}) {
    VX a = taus, b = taus; double hh = h * taus(p); a(p) += hh; b(p) -= hh;
    VX ca = fresh.solve_interpolation(a, wp), cb = fresh.solve_interpolation(b, wp);
    VX fd = (ca - cb) / (a(p) - b(p));
    double noise = 1e-9 * ca.norm() / hh;
    best = std::min(best, std::max(0.0, (fd - dc).norm() - noise));
    size = std::max(size, fd.norm());
  }
  x.check(best <= 2e-2 * size + 1e-12, "difference-quotient", tag + " distance " + std::to_string(best) + " of " + std::to_string(size));
  x.count("difference quotients");
}
static void go(Ctx& x, int dmax, int nmax, int cmax) {
  Rng& g = x.rng;
  auto b = random_basis(g, 2, dmax, true);
  int n = (int)(g.chance(0.35) ? g.irange(1, 3) : g.irange(1, nmax)), codom = (int)g.irange(1, cmax);
  x.d(b.str()); x.dv("n", n); x.dv("codom", codom);
  VX taus = interp_taus(g, b.ref, n, (int)g.irange(0, 3));
  MX wp = interp_wp(g, n, codom);
  x.d("taus=" + vec_str(taus, 4));
  Interpolator ip(codom, n, *b.lib), ip2(codom, n, *b.lib);
  std::string hist;
  int steps = (int)g.irange(2, 8);
  VX c = ip.solve_interpolation(taus, wp);
  bool did = false;
  for (int q = 0; q < steps; q++) {
    int op = q + 1 == steps ? 0 : (int)g.irange(0, 6);
    std::string tag = b.str() + " n=" + std::to_string(n) + " codom=" + std::to_string(codom) + " taus=" + vec_str(taus, 5) + " history " + hist;
    if (g.chance(0.15)) { std::string h = spoil(g, ip, b.ref.dim, n, codom, g.chance(0.5) ? taus : interp_taus(g, b.ref, n, 0), interp_wp(g, n, codom)); hist += h; tag += h; x.count("odd requests before"); }
    if (op <= 3) {
      int p = (int)(g.chance(0.3) ? n - 1 : g.chance(0.3) ? 0 : g.irange(0, n - 1));
      VX dc = ip.get_coeff_derivative_wrt_tau(c, taus, p);
      audit(x, b.ref, taus, codom, c, dc, p, tag + "d" + std::to_string(p));
      if (!did && g.chance(0.4) && b.ref.dim <= 6 && (b.ref.kind != B0101 || taus.minCoeff() * (double)b.ref.k() > 0.35)) { did = true; difference(x, ip2, taus, wp, dc, p, tag + " wrt " + std::to_string(p)); }
      hist += "d" + std::to_string(p) + ",";
    } else if (op == 4) {
      taus = g.chance(0.3) ? near_by(g, taus) : interp_taus(g, b.ref, n, (int)g.irange(0, 3));
      // the coefficients may come from this or from another interpolator
      c = (g.chance(0.5) ? ip : ip2).solve_interpolation(taus, wp); hist += "taus,";
    } else if (op == 5) {
      wp = g.chance(0.3) ? near_by(g, wp) : interp_wp(g, n, codom);
      c = (g.chance(0.5) ? ip : ip2).solve_interpolation(taus, wp); hist += "waypoints,";
    } else {  // unrelated requests in between, leaving c and taus as they are
      VX t2 = interp_taus(g, b.ref, n, (int)g.irange(0, 3)); MX w2 = interp_wp(g, n, codom);
      VX c2 = ip.solve_interpolation(t2, w2);
      if (g.chance(0.5)) { int p = (int)g.irange(0, n - 1); VX dc = ip.get_coeff_derivative_wrt_tau(c2, t2, p); audit(x, b.ref, t2, codom, c2, dc, p, tag + " unrelated"); }
      hist += "unrelated,";
    }
  }
}
static void register_all() {
  scenario("ordinary", [](Ctx& x) { go(x, 6, 5, 3); }, 4);
  scenario("high-dim", [](Ctx& x) { go(x, 10, 3, 2); }, 1);
  scenario("long", [](Ctx& x) { go(x, 4, 20, 1); }, 1);
  scenario("wide", [](Ctx& x) { go(x, 4, 3, 6); }, 1);
}
int main(int argc, char** argv) { register_all(); int r = vh::harness_main(argc, argv); for (auto& w : worst) fprintf(stderr, "worst dim %d %g\n", w.first, w.second); return r; }
