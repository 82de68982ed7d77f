#include "sobref.hpp"
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
using namespace vh;
using gsplines::functional_analysis::SobolevNorm;

static std::map<int, double> worst;
static Terms terms(Rng& g, const RefBasis& b, bool grad) {
  Terms t;
  int m = (int)(g.chance(0.05) ? 0 : g.irange(1, 4));
  for (int i = 0; i < m; i++) {
    size_t d = b.kind == B0101 ? (grad ? (g.chance(0.5) ? 1 : 3) : g.irange(0, 3)) : g.irange(0, std::min(b.dim, 6));
    double w = g.chance(0.1) ? 0.0 : g.chance(0.4) ? 1.0 : g.chance(0.85) ? g.logu(1e-2, 1e2) : -g.uni(0.1, 2);
    t.push_back({d, w});
  }
  if (!t.empty() && g.chance(0.2)) t.push_back(t[g.next() % t.size()]);  // the same term twice counts twice
  if (g.chance(0.25)) { double f = g.logu(1e-6, 1e6); for (auto& q : t) q.second *= f; }
  return t;
}
static void go(Ctx& x, int dmax, int nmax, int cmax) {
  Rng& g = x.rng;
  auto b = random_basis(g, 2, dmax, true);
  int n = (int)(g.chance(0.3) ? g.irange(1, 2) : g.irange(1, nmax)), codom = (int)g.irange(1, cmax);
  bool grad = g.chance(0.7);
  MX wp = interp_wp(g, n, codom);
  Terms t = terms(g, b.ref, grad);
  std::ostringstream ts; ts.precision(5);
  for (auto& w : t) ts << "(" << w.first << "," << w.second << ")";
  x.d(b.str()); x.dv("n", n); x.dv("codom", codom); x.d(ts.str());
  SobolevNorm cost(wp, *b.lib, t);
  int steps = (int)g.irange(2, 5);
  std::string hist;
  VX last;
  for (int q = 0; q < steps; q++) {
    int style = g.chance(0.7) ? 0 : 3;
    VX taus = q && g.chance(0.35) ? near_by(g, last) : interp_taus(g, b.ref, n, style);
    last = taus;
    if (q == 0) x.d("taus=" + vec_str(taus, 5));
    std::string tag = b.str() + " n=" + std::to_string(n) + " codom=" + std::to_string(codom) + " terms " + ts.str() + " taus=" + vec_str(taus, 5) + " history " + hist;
    int op = (int)g.irange(0, 2);
    if (!grad) op = 0;
    if (g.chance(0.2)) {  // refused requests leave no trace
      int how = (int)g.irange(0, 2); VX bad = taus, buf(n);
      if (how == 0) bad(g.irange(0, n - 1)) = -1; else if (how == 1) bad = VX::Constant(n + 1, 0.5); else buf.resize(n + 1);
      x.check(throws([&] { if (how == 2 || (grad && g.chance(0.5))) cost.deriv_wrt_interval_len(bad, buf); else (void)cost(bad); }), "accepted", tag + " bad request " + std::to_string(how));
      hist += "refused,"; tag += "refused,"; x.count("refused before");
    }
    SobRef r = reference(b.ref, taus, wp, t, op != 0);
    double tol = 1e-8;
    if (op == 0 || op == 2) {
      double v = cost(taus);
      x.close(v, r.cost, r.scale + 1e-300L, tol, "cost", tag);
      if (r.scale > 0) worst[b.ref.dim] = std::max(worst[b.ref.dim], (double)(fabsl(v - r.cost) / r.scale));
      hist += "value,"; x.count("costs");
    }
    if (op >= 1) {
      VX big = VX::Constant(n + 4, 5.5);
      cost.deriv_wrt_interval_len(taus, big.segment(2, n));
      x.check(big(0) == 5.5 && big(1) == 5.5 && big(n + 2) == 5.5 && big(n + 3) == 5.5, "wrote-outside", tag);
      for (int i = 0; i < n; i++) {
        x.close(big(2 + i), r.grad[i], r.gscale[i] + 1e-300L, tol, "gradient", tag + " component " + std::to_string(i));
        if (r.gscale[i] > 0) worst[100 + b.ref.dim] = std::max(worst[100 + b.ref.dim], (double)(fabsl((ld)big(2 + i) - r.grad[i]) / r.gscale[i]));
      }
      hist += "gradient,"; x.count("gradient components", n);
    }
  }
  if (b.ref.kind == B0101 && !t.empty()) {  // what is not provided is refused
    Terms u = t; u.push_back({2, 1.0});
    SobolevNorm c2(wp, *b.lib, u);
    VX taus = interp_taus(g, b.ref, n, 0), buf(n);
    if (throws([&] { c2.deriv_wrt_interval_len(taus, buf); })) x.count("refused gradients");
    else {
      SobRef r = reference(b.ref, taus, wp, u, true);
      for (int i = 0; i < n; i++) x.close(buf(i), r.grad[i], r.gscale[i] + 1e-300L, 1e-5, "gradient", "0101 order 2");
    }
  }
}
static void register_all() {
  scenario("ordinary", [](Ctx& x) { go(x, 6, 4, 3); }, 4);
  scenario("high-dim", [](Ctx& x) { go(x, 8, 3, 2); }, 1);
  scenario("long", [](Ctx& x) { go(x, 4, 12, 1); }, 1);
  scenario("wide", [](Ctx& x) { go(x, 6, 2, 7); }, 1);
}
int main(int argc, char** argv) { register_all(); int r = vh::harness_main(argc, argv); for (auto& w : worst) fprintf(stderr, "worst %d %g\n", w.first, w.second); return r; }
