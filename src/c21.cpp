// The monitor plays the optimizer: it receives the problem the library poses through the
// ifopt interface, audits it at every point it visits, chooses the solution and status, and
// judges the path that comes back.
#include "sobref.hpp"
#include <gsplines/Optimization/ipopt_interface.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <ifopt/ipopt_solver.h>
using namespace vh;
namespace opt = gsplines::optimization;
using gsplines::GSpline;

struct Posed {  // what the problem has to be
  RefBasis b; MX wp; Terms terms; double T;
};
static VX feasible(Rng& g, const RefBasis& b, int n, double T) {
  VX t(n);
  for (int i = 0; i < n; i++) t(i) = g.uni(0.4, 1.6);
  (void)b;
  t *= T / t.sum();
  return t;
}
static void audit_point(Ctx& x, ifopt::Problem& p, const Posed& w, const VX& t, const std::string& tag, std::string& hist) {
  Rng& g = x.rng;
  int n = (int)t.size();
  SobRef r = reference(w.b, t, w.wp, w.terms, true);
  double tol = w.b.dim <= 8 ? 1e-7 : 1e-4;
  for (int q = 0; q < 4; q++) {
    int what = (int)g.irange(0, 3);
    std::string tg = tag + " at " + vec_str(t, 6) + " after " + hist;
    if (what == 0) { x.close(p.EvaluateCostFunction(t.data()), r.cost, r.scale + 1e-300L, tol, "cost", tg); hist += "f "; x.count("costs seen by the optimizer"); }
    else if (what == 1) {
      VX gr = p.EvaluateCostFunctionGradient(t.data());
      if (!x.check(gr.size() == n, "gradient-size", tg)) return;
      for (int i = 0; i < n; i++) x.close(gr(i), r.grad[i], r.gscale[i] + 1e-300L, tol, "cost-gradient", tg + " component " + std::to_string(i));
      hist += "g "; x.count("gradients seen by the optimizer");
    } else if (what == 2) {
      VX c = p.EvaluateConstraints(t.data());
      if (!x.check(c.size() == 1, "constraint-count", tg)) return;
      ld s = 0; for (int i = 0; i < n; i++) s += t(i);
      x.close(c(0), s, s, 1e-13, "constraint-value", tg); hist += "c ";
    } else {
      p.SetVariables(t.data());
      MX j = MX(p.GetJacobianOfConstraints());
      if (!x.check(j.rows() == 1 && j.cols() == n, "constraint-jacobian-shape", tg)) return;
      for (int i = 0; i < n; i++) x.check(j(0, i) == 1.0, "constraint-jacobian", tg);
      hist += "j ";
    }
    // the point itself is not altered by the evaluations
    if (q) x.check(same_bits(p.GetVariableValues(), t), "variables-changed", tg);
    else { p.SetVariables(t.data()); x.check(same_bits(p.GetVariableValues(), t), "variables-not-set", tg); }
  }
}
static void audit_problem(Ctx& x, ifopt::Problem& p, const Posed& w, const std::string& tag) {
  int n = (int)w.wp.rows() - 1;
  x.check(p.GetNumberOfOptimizationVariables() == n, "variable-count", tag);
  x.check(p.GetNumberOfConstraints() == 1, "constraint-count", tag);
  VX x0 = p.GetVariableValues();
  ld s = 0;
  for (long i = 0; i < x0.size(); i++) { s += x0(i); x.check(x0(i) > 0, "start-not-positive", tag); }
  x.close((double)s, w.T, w.T, 1e-12, "start-infeasible", tag);
  auto vb = p.GetBoundsOnOptimizationVariables();
  if (x.check((int)vb.size() == n, "bounds-count", tag))
    for (auto& b : vb) {
      x.check(b.lower_ >= 0 && b.lower_ <= 1e-6 * w.T, "lower-bound", tag);
      x.check(b.upper_ >= w.T, "upper-bound", tag);
    }
  auto cb = p.GetBoundsOnConstraints();
  if (x.check(cb.size() == 1, "constraint-bounds-count", tag))
    x.check(cb[0].lower_ == w.T && cb[0].upper_ == w.T, "constraint-bounds", tag);
  x.count("problems posed");
}
// interpolates wp with the given lengths: rows of the interpolation problem evaluated exactly
static void audit_path(Ctx& x, const GSpline& s, const Posed& w, const VX& taus, double t0, double t1, const std::string& tag) {
  int n = (int)taus.size(), dim = (int)s.get_basis().get_dim(), codom = (int)w.wp.cols();
  x.check(s.get_domain().first == t0, "path-domain", tag);
  x.close(s.get_domain().second, t1, fabs(t1) + fabs(t0), 1e-12, "path-duration", tag);
  x.check((int)s.get_number_of_intervals() == n && (int)s.get_codom_dim() == codom, "path-shape", tag);
  ld sum = 0;
  for (int i = 0; i < n; i++) { x.close(s.get_interval_lengths()(i), taus(i), taus(i), 1e-12, "path-interval-lengths", tag); sum += s.get_interval_lengths()(i); }
  x.close((double)sum, (ld)t1 - t0, t1 - t0, 1e-12, "path-lengths-sum", tag);
  x.check((int)s.get_basis().get_dim() == w.b.dim, "path-basis", tag);
  if (dim != w.b.dim) return;
  RefSpline r;
  r.b = w.b; r.t0 = t0; r.taus = s.get_interval_lengths(); r.coeff = s.get_coefficients(); r.codom = codom;
  if (w.b.kind == B0101) {
    x.check(s.get_basis().get_name() == "basis0101", "path-basis", tag);
    r.b.alpha = s.get_basis().get_parameters()(0);
    // scaling reparametrises this basis: alpha/(1-alpha) goes with the fourth power of the duration
    ld f = powl((ld)w.T / ((ld)t1 - t0), 4), one = 1 - (ld)w.b.alpha, e = one / (one + f * (ld)w.b.alpha);  // expected 1-alpha
    ld rounding = 1e-9L * e + 4e-16L;
    x.check(fabsl(1 - (ld)r.b.alpha - e) <= rounding && fabsl((ld)r.b.alpha - (1 - e)) <= 1e-9L * (1 - e) + 1e-300L, "path-basis-parameter", tag);
  }
  auto bp = r.bps();
  BasisScale sc(r.b);
  double tol = 30 * interp_tol(w.b);
  for (int i = 0; i < n; i++)
    for (int c = 0; c < codom; c++)
      for (int e = 0; e < 2; e++) {
        ld scale = w.wp.cwiseAbs().maxCoeff();
        x.close((double)r.at(i, c, bp[i + e], 0), w.wp(i + e, c), scale + 1e-300L, 1e-6, "path-misses-waypoint", tag);
        for (int k = 1; k <= dim - 2; k++) {
          ld own, v = r.at(i, c, bp[i + e], k, &own), other = 0, so = 0;
          bool end = (e == 0 && i == 0) || (e == 1 && i == n - 1);
          if (end && k > dim / 2 - 1) continue;
          if (!end) { int o = e ? i + 1 : i - 1; other = r.at(o, c, bp[i + e], k, &so); }
          x.close((double)v, other, own + so + scale * powl(2 / r.taus.minCoeff(), k), tol, end ? "path-not-at-rest" : "path-not-smooth", tag);
        }
      }
  // and the library evaluates it there
  MX v = s(s.get_domain_breakpoints());
  for (int i = 0; i <= n; i++) for (int c = 0; c < codom; c++) x.close(v(i, c), w.wp(i, c), (ld)w.wp.cwiseAbs().maxCoeff() + 1e-300L, 1e-6, "path-value-at-waypoint", tag);
  x.count("paths judged");
}
static std::map<std::string, std::string> so;
static std::map<std::string, int> io;
static std::map<std::string, double> dop;
static void maybe_option(Ctx& x) {
  Rng& g = x.rng;
  if (!g.chance(0.3)) return;
  int t = (int)g.irange(0, 2);
  if (t == 0) { auto n = g.pick(std::vector<std::string>{"linear_solver", "linear", "nlp_scaling_method", "derivative_test", "mu_strategy", "mu", "solver"}); so[n] = g.pick(std::vector<std::string>{"ma27", "none", "adaptive", "first-order"}); opt::IpoptSolverOptions::set_option(n, so[n]); }
  if (t == 1) { auto n = g.pick(std::vector<std::string>{"print_level", "max_iter", "acceptable_iter", "print", "iter"}); io[n] = (int)g.irange(0, 500); opt::IpoptSolverOptions::set_option(n, io[n]); }
  if (t == 2) { auto n = g.pick(std::vector<std::string>{"tol", "max_cpu_time", "acceptable_tol", "tol_2", "max_cpu", "acceptable"}); dop[n] = g.chance(0.2) ? (double)g.irange(0, 9) : g.logu(1e-9, 1e2); opt::IpoptSolverOptions::set_option(n, dop[n]); }
}
struct Play { int called = 0; VX solution; int status = 0; };
static void play(Ctx& x, const Posed& w, Play& pl, const std::string& tag) {
  ifopt::IpoptSolver::monitor() = [&x, &w, &pl, tag](ifopt::IpoptSolver& s, ifopt::Problem& p) {
    Rng& g = x.rng;
    pl.called++;
    for (auto& o : so) x.check(s.s_.count(o.first) && s.s_[o.first] == o.second, "option-lost", o.first);
    for (auto& o : io) x.check(s.i_.count(o.first) && s.i_[o.first] == o.second, "option-lost", o.first);
    for (auto& o : dop) x.check(s.d_.count(o.first) && s.d_[o.first] == o.second, "option-lost", o.first);
    audit_problem(x, p, w, tag);
    int n = (int)w.wp.rows() - 1;
    std::string hist;
    int m = (int)g.irange(1, 3);
    for (int q = 0; q < m; q++) {
      VX t = feasible(g, w.b, n, w.T * (g.chance(0.3) ? g.uni(0.7, 1.3) : 1.0));
      audit_point(x, p, w, t, tag, hist);
    }
    pl.solution = feasible(g, w.b, n, w.T);
    p.SetVariables(pl.solution.data());
    pl.status = g.chance(0.85) ? 0 : g.pick(std::vector<int>{2, 3, 4, 5, 6, -1, -2, -3, -4, -10, -11, -12, -13, -100, -101, -102, -199});
    return pl.status;
  };
}
static double sane_T(Rng& g, const RefBasis& b, int n) {
  if (b.kind == B0101) return n * g.uni(1.0, 3.0) / (double)b.k();
  if (g.chance(0.3)) return n * (b.dim <= 2 ? g.pick(std::vector<double>{g.logu(2e-5, 1e-3), g.logu(1e-4, 1e5)}) : b.dim <= 4 ? g.pick(std::vector<double>{g.logu(1e-4, 5e-3), g.logu(1e-3, 1e4)}) : b.dim <= 6 ? g.logu(0.05, 1e2) : 1.0);  // very short or long
  return n * (b.dim >= 8 ? g.uni(0.8, 1.3) : g.uni(0.5, 3.0));
}
static void general(Ctx& x) {
  Rng& g = x.rng;
  auto b = random_basis(g, 2, 8, true);
  int n = (int)g.size(1, 6, 16), codom = (int)g.size(1, 4, 8);
  Posed w; w.b = b.ref; w.wp = interp_wp(g, n, codom); w.T = sane_T(g, b.ref, n);
  int m = (int)g.irange(1, 3);
  std::ostringstream ts;
  for (int i = 0; i < m; i++) {
    size_t d = b.ref.kind == B0101 ? (g.chance(0.5) ? 1 : 3) : g.irange(0, std::min(b.ref.dim - 1, 4));
    w.terms.push_back({d, g.chance(0.5) ? 1.0 : g.logu(0.05, 20)});
    ts << "(" << d << "," << w.terms.back().second << ")";
  }
  x.d(b.str()); x.dv("n", n); x.dv("codom", codom); x.dv("T", w.T); x.d(ts.str());
  maybe_option(x);
  Play pl; play(x, w, pl, b.str() + " n=" + std::to_string(n) + ts.str());
  const MX wpb = w.wp;
  auto res = opt::optimal_sobolev_norm(w.wp, *b.lib, w.terms, w.T);
  x.check((w.wp.array() == wpb.array()).all(), "waypoints-changed", b.str());
  std::string tag = b.str() + " n=" + std::to_string(n) + " T=" + std::to_string(w.T);
  if (n == 1) pl.solution = VX::Constant(1, w.T), pl.status = pl.called ? pl.status : 0;
  else x.check(pl.called == 1, "optimizer-not-asked-once", tag);
  if (pl.status == 0) { if (x.check(res.has_value(), "solution-dropped", tag)) audit_path(x, *res, w, pl.solution, 0, w.T, tag); }
  else { x.check(!res.has_value(), "failure-returned-a-path", tag); x.nontrivial = true; }
}
static void named(Ctx& x) {
  Rng& g = x.rng;
  int which = (int)g.irange(0, 5), n = (int)g.size(1, 6, 16), codom = (int)g.size(1, 5, 8);
  Posed w; w.wp = interp_wp(g, n, codom); w.T = n;
  double k = 0;
  if (which < 5) { w.b.kind = LEG; w.b.dim = 2 * (which + 1); w.terms = {{(size_t)which + 1, 1.0}}; }
  else {
    k = g.chance(0.6) ? g.uni(0.7, 2.0) : g.chance(0.5) ? g.logu(0.12, 0.3) : g.logu(0.3, 2.4);
    // rojas: cost alpha |q'|^2 + (1-alpha) |q'''|^2 with alpha/(1-alpha) = k^4
    double a = std::pow(k, 4) / (1 + std::pow(k, 4));
    w.b.kind = B0101; w.b.dim = 6; w.b.alpha = a; w.terms = {{1, a}, {3, 1 - a}}; w.T = 4.0 * n / std::sqrt(2.0);
  }
  const char* names[] = {"broken_lines", "minimum_acceleration", "minimum_jerk", "minimum_snap", "minimum_crackle", "rojas"};
  x.d(names[which]); x.dv("n", n); x.dv("codom", codom); x.dv("k", k); x.d(vec_str(w.wp.row(0), 3));
  maybe_option(x);
  std::string tag = std::string(names[which]) + " n=" + std::to_string(n) + " codom=" + std::to_string(codom) + " k=" + std::to_string(k);
  Play pl; play(x, w, pl, tag);
  auto ask = [&]() -> std::optional<GSpline> {
    switch (which) {
      case 0: return opt::broken_lines_path(w.wp);
      case 1: return opt::minimum_acceleration_path(w.wp);
      case 2: return opt::minimum_jerk_path(w.wp);
      case 3: return opt::minimum_snap_path(w.wp);
      case 4: return opt::minimum_crackle_path(w.wp);
      default: return opt::rojas_path(w.wp, k);
    }
  };
  std::optional<GSpline> res = ask();
  if (n == 1) { pl.solution = VX::Constant(1, w.T); pl.status = 0; }
  else x.check(pl.called == 1, "optimizer-not-asked-once", tag);
  if (pl.status == 0) { if (x.check(res.has_value(), "solution-dropped", tag)) audit_path(x, *res, w, pl.solution / w.T, 0, 1, tag); }
  else { x.check(!res.has_value(), "failure-returned-a-path", tag); x.nontrivial = true; }
}
// the components used directly, with several costs in one problem
static void components(Ctx& x) {
  Rng& g = x.rng;
  auto b = random_basis(g, 2, 6, true);
  int n = (int)g.size(1, 6, 14), codom = (int)g.size(1, 3, 7);
  Posed w; w.b = b.ref; w.wp = interp_wp(g, n, codom); w.T = sane_T(g, b.ref, n);
  x.d(b.str()); x.dv("n", n); x.dv("codom", codom); x.dv("T", w.T);
  ifopt::Problem p;
  auto var = std::make_shared<opt::TimeSegmentLenghtsVar>(n, w.T);
  p.AddVariableSet(var);
  p.AddConstraintSet(std::make_shared<opt::ExecTimeConstraint>(n, w.T));
  int m = (int)g.irange(1, 2);
  for (int i = 0; i < m; i++) {
    Terms t = {{b.ref.kind == B0101 ? 3 : (size_t)g.irange(0, std::min(b.ref.dim - 1, 3)), g.uni(0.2, 3)}};
    if (g.chance(0.5)) t.push_back({1, g.uni(0.2, 3)});
    p.AddCostSet(std::make_shared<opt::SobolevNorm>("cost" + std::to_string(i), w.wp, *b.lib, t));
    for (auto& q : t) w.terms.push_back(q);
  }
  b.lib.reset();  // the cost keeps its own basis
  std::string hist, tag = b.str() + " n=" + std::to_string(n);
  audit_problem(x, p, w, tag);
  for (int q = 0; q < 3; q++) audit_point(x, p, w, feasible(g, w.b, n, w.T * g.uni(0.6, 1.5)), tag, hist);
}
static void register_all() {
  scenario("general", general, 4);
  scenario("named-paths", named, 4);
  scenario("components", components, 2);
}
VH_MAIN
