#include "vh.hpp"
#include "interp.hpp"
#include <gsplines/Interpolator.hpp>
using namespace vh;
using gsplines::GSpline;

static RefSpline gen(Ctx& c, BasisPair& b, int dmin = 2) {
  Rng& g = c.rng;
  b = random_basis(g, dmin, 8);
  return random_ref_spline(g, b.ref, (int)g.size(1, 6, 18), (int)g.size(1, 4, 8), g.chance(0.4), 0.3, 4.0);
}
// s is r with the time axis scaled by f
static void same_path(Ctx& c, const GSpline& s, const RefSpline& r, double f, const std::string& key) {
  Rng& g = c.rng;
  double len = r.taus.sum(), nl = len * f;
  if (r.b.kind == B0101 && 64 * powl(r.b.k() / f, 4) > 1e9L) return;
  c.check(s.get_domain().first == r.t0, key + ":start", "");
  c.close(s.get_domain_length(), nl, nl + std::fabs(r.t0), 1e-12, key + ":duration");
  if (!c.check((int)s.get_number_of_intervals() == r.n() && (int)s.get_codom_dim() == r.codom, key + ":shape", "")) return;
  for (int i = 0; i < r.n(); i++) c.close(s.get_interval_lengths()(i), (ld)r.taus(i) * f, (ld)r.taus(i) * f, 1e-12, key + ":interval");
  auto bp = r.bps();
  for (int q = 0; q < 5; q++) {
    int i = (int)g.irange(0, r.n() - 1);
    ld w = g.chance(0.2) ? 0.999 : g.uni(0.001, 0.999);       // inside piece i
    ld told = bp[i] + w * (ld)r.taus(i);
    ld tnew = (ld)r.t0 + (told - (ld)r.t0) * f;
    VX t(1); t(0) = (double)tnew;
    for (int deg = 0; deg <= 3; deg++) {
      MX v = deg == 0 ? s(t) : s.derivate(deg)(t);
      for (int k = 0; k < r.codom; k++) {
        ld sc, ref = r.at(i, k, (ld)r.t0 + ((ld)t(0) - r.t0) / f, deg, &sc);
        ref /= powl(f, deg); sc /= powl(f, deg);
        ld cm = r.coeff.cwiseAbs().maxCoeff();
        ld gr = r.b.kind == B0101 ? 2 * r.b.k() : 2.0L * r.b.dim * r.b.dim / (ld)r.taus(i);
        sc += cm * powl(gr / f, deg);
        // time rounds: derivative with respect to t
        ld sc2; r.at(i, k, told, deg + 1, &sc2);
        ld slack = EPS * 8 * (fabsl(tnew) + nl) * (sc2 / powl(f, deg + 1));
        // Basis0101 carries the scale in alpha: close to one it resolves it only to the spacing of doubles
        if (r.b.kind == B0101) slack += sc * EPS * 16 * (1 + 64 * powl(r.b.k() / f, 4)) * (1 + r.b.k() * r.taus(i)) * (deg + 1);
        c.count("points");
        if (!c.close(v(0, k), ref, sc + slack * 1e9L, 1e-9, key + (deg ? ":derivative" : ":value"), "deg " + std::to_string(deg))) return;
      }
    }
  }
}
static void new_time(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b;
  RefSpline r = gen(c, b, 1);
  GSpline s = to_lib(r, *b.lib);
  double len = r.taus.sum(), f = g.logu(0.1, 10);
  if (g.chance(0.1)) f = 1;
  else if (g.chance(0.1)) f = g.logu(1e-3, 1e3);
  double T = len * f;
  c.d(b.str()); c.dv("n", r.n()); c.dv("t0", r.t0); c.dv("factor", f);
  GSpline q = s.linear_scaling_new_execution_time(T);
  same_path(c, q, r, f, "new-time");
  c.check(same_bits(s.get_coefficients(), r.coeff) && same_bits(s.get_interval_lengths(), r.taus), "new-time:operand-changed", "");
  // there and back
  double f2 = g.logu(0.2, 5);
  GSpline q2 = q.linear_scaling_new_execution_time(T * f2);
  same_path(c, q2, r, f * f2, "new-time-twice");
}
// piecewise suprema of |derivative deg| of component k, by dense sampling with the ends of every piece
static ld piece_sup(const RefSpline& r, int i, int k, int deg) {
  auto bp = r.bps();
  ld m = 0;
  int N = 60;
  for (int q = 0; q <= N; q++) {
    ld w = (1 - cosl(M_PIl * q / N)) / 2;
    m = std::max(m, fabsl(r.at(i, k, bp[i] + w * (ld)r.taus(i), deg)));
  }
  return m;
}
static void limits(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b;
  RefSpline r;
  bool rest = g.chance(0.5);
  std::unique_ptr<GSpline> sp;
  if (rest) {  // rest to rest interpolation, the usual input
    b = random_basis(g, 4, 8, true);
    int n = (int)g.size(1, 5, 14), k = (int)g.size(1, 4, 8);
    VX tau = interp_taus(g, b.ref, n, 0);
    MX wp(n + 1, k);
    Vals val(g, -2, 2);
    for (long i = 0; i < wp.size(); i++) wp(i) = val();
    if (b.ref.kind == B0101) for (int i = 0; i < n; i++) tau(i) = g.uni(0.5, 2);
    sp = std::make_unique<GSpline>(gsplines::interpolate(tau, wp, *b.lib));
    r.b = b.ref; r.t0 = 0; r.taus = tau; r.coeff = sp->get_coefficients(); r.codom = k;
  } else {
    r = gen(c, b, 3);
    sp = std::make_unique<GSpline>(to_lib(r, *b.lib));
  }
  double len = r.taus.sum();
  double dt = g.chance(0.3) ? 0.01 : len / (double)g.irange(20, 400);
  if (len / dt > 4000) dt = len / 4000;
  bool scalar = g.chance(0.5);
  int which = (int)g.irange(0, 2);  // velocity, acceleration, both
  std::vector<double> vb(r.codom), ab(r.codom);
  double v0 = g.logu(0.05, 20), a0 = g.logu(0.05, 20);
  for (int i = 0; i < r.codom; i++) { vb[i] = scalar ? v0 : g.logu(0.05, 20); ab[i] = scalar ? a0 : g.logu(0.05, 20); }
  c.d(b.str()); c.dv("n", r.n()); c.dv("codom", r.codom); c.dv("dt", dt); c.dv("which", which); c.dv("scalar", scalar); c.dv("v0", vb[0]); c.dv("a0", ab[0]);
  c.count(which == 0 ? "velocity-only" : which == 1 ? "acceleration-only" : "both");
  std::optional<double> sv, sa;
  std::optional<std::vector<double>> wv, wa;
  if (which != 1) { sv = v0; wv = vb; }
  if (which != 0) { sa = a0; wa = ab; }
  ld any = 0;
  for (int k = 0; k < r.codom; k++) for (int i = 0; i < r.n(); i++) any = std::max(any, (which != 1 ? piece_sup(r, i, k, 1) : 0) + (which != 0 ? piece_sup(r, i, k, 2) : 0));
  if (any < 1e-12L) {  // a path that does not move has no shortest duration: any duration or a refusal will do
    c.count("constant");
    try { (void)(scalar ? sp->linear_scaling_new_execution_time_max_velocity_max_acceleration(sv, sa, dt) : sp->linear_scaling_new_execution_time_max_velocity_max_acceleration(wv, wa, dt)); } catch (const std::exception&) {}
    return;
  }
  GSpline q = scalar ? sp->linear_scaling_new_execution_time_max_velocity_max_acceleration(sv, sa, dt)
                     : sp->linear_scaling_new_execution_time_max_velocity_max_acceleration(wv, wa, dt);
  double f = q.get_domain_length() / len;
  ld step = (ld)len / std::floor(len / dt) * 1.02L;  // step of the sampling, at worst
  ld up = 0, lo = 0;
  for (int k = 0; k < r.codom; k++)
    for (int i = 0; i < r.n(); i++) {
      ld v = piece_sup(r, i, k, 1), a = piece_sup(r, i, k, 2), j = piece_sup(r, i, k, 3);
      bool sampled = r.taus(i) > 1.01 * step;
      if (which != 1) { up = std::max(up, v / vb[k]); if (sampled) lo = std::max(lo, (v - step * a * 1.05L) / vb[k]); }
      if (which != 0) { up = std::max(up, sqrtl(a / ab[k])); if (sampled && a > step * j * 1.05L) lo = std::max(lo, sqrtl((a - step * j * 1.05L) / ab[k])); }
    }
  // piece_sup samples 61 points: the true supremum is slightly larger
  up *= 1.03L;
  if (up <= 0) { c.count("constant"); return; }
  std::ostringstream o; o.precision(10); o << "factor " << f << " bounds [" << (double)lo << "," << (double)up << "]";
  c.check(f <= (double)up * (1 + 1e-9), "limits:slower-than-necessary", o.str());
  c.check(f >= (double)lo * 0.995, "limits:limit-exceeded", o.str());
  if (lo > 0.8L * up) { c.nontrivial = true; c.count("tight"); }
  if (f > 1e-3 && f < 1e3) same_path(c, q, r, f, "limits");
  // monitored on the result itself: every sampled velocity and acceleration within limits, up to the step
  if (f > 1e-3 && f < 1e3) {
    int N = 300;
    VX t = VX::LinSpaced(N, q.get_domain().first, q.get_domain().second);
    MX V = q.derivate(1)(t), A = q.derivate(2)(t);
    for (int k = 0; k < r.codom; k++) {
      ld J = 0, AA = 0;
      bool all = true;
      for (int i = 0; i < r.n(); i++) { J = std::max(J, piece_sup(r, i, k, 3)); AA = std::max(AA, piece_sup(r, i, k, 2)); all = all && r.taus(i) > 1.01 * step; }
      if (!all) continue;
      if (which != 1) c.check(V.col(k).cwiseAbs().maxCoeff() <= (vb[k] + (double)(step * AA * 1.1L) / f) * 1.005, "limits:velocity-of-result", o.str());
      if (which != 0) c.check(A.col(k).cwiseAbs().maxCoeff() <= (ab[k] + (double)(step * J * 1.1L) / f / f) * 1.005, "limits:acceleration-of-result", o.str());
    }
  }
}
static void bad(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b;
  RefSpline r = gen(c, b);
  GSpline s = to_lib(r, *b.lib);
  c.d(b.str()); c.dv("t0", r.t0); c.dv("codom", r.codom);
  std::optional<double> nod;
  std::optional<std::vector<double>> nov;
  std::vector<double> wrong(r.codom + (g.chance(0.5) ? 1 : -1), 1.0), right(r.codom, 1.0);
  c.check(throws([&] { s.linear_scaling_new_execution_time(-g.logu(1e-3, 10)); }), "bad:negative-time", "");
  c.check(throws([&] { s.linear_scaling_new_execution_time(0.0); }), "bad:zero-time", "");
  c.check(throws([&] { s.linear_scaling_new_execution_time_max_velocity_max_acceleration(nod, nod, 0.1); }), "bad:no-limits", "");
  c.check(throws([&] { s.linear_scaling_new_execution_time_max_velocity_max_acceleration(nov, nov, 0.1); }), "bad:no-limits", "");
  std::optional<std::vector<double>> W(wrong), R(right);
  c.check(throws([&] { s.linear_scaling_new_execution_time_max_velocity_max_acceleration(W, R, 0.1); }), "bad:velocity-size", "");
  c.check(throws([&] { s.linear_scaling_new_execution_time_max_velocity_max_acceleration(R, W, 0.1); }), "bad:acceleration-size", "");
  c.check(throws([&] { s.linear_scaling_new_execution_time_max_velocity_max_acceleration(W, nov, 0.1); }), "bad:velocity-size-only", "");
  c.check(throws([&] { s.linear_scaling_new_execution_time_max_velocity_max_acceleration(nov, W, 0.1); }), "bad:acceleration-size-only", "");
  c.check(throws([&] { s.linear_scaling_new_execution_time_max_velocity_max_acceleration(R, R, -0.1); }), "bad:negative-step", "");
  c.check(throws([&] { s.linear_scaling_new_execution_time_max_velocity_max_acceleration(R, R, 0.0); }), "bad:zero-step", "");
  c.check(same_bits(s.get_coefficients(), r.coeff) && same_bits(s.get_interval_lengths(), r.taus), "bad:operand-changed", "");
  c.nontrivial = true;
}
static void register_all() {
  scenario("new-time", new_time, 4);
  scenario("limits", limits, 5);
  scenario("bad", bad, 1);
}
VH_MAIN
