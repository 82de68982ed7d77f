// Reference description of the interpolation problem (one component; components decouple):
// every row is a list of signed basis-function derivatives at the end of an interval.
#pragma once
#include "vh.hpp"
#include <gsplines/Interpolator.hpp>
namespace vh {
struct Term { int interval, deg; double side, sign; };
struct Row { std::vector<Term> t; int waypoint; const char* what; };  // waypoint -1: zero
inline std::vector<Row> interp_rows(int n, int dim) {
  std::vector<Row> r;
  r.push_back({{{0, 0, -1, 1}}, 0, "first waypoint"});
  for (int k = 1; k <= dim / 2 - 1; k++) r.push_back({{{0, k, -1, 1}}, -1, "start at rest"});
  for (int i = 0; i < n; i++) {
    if (i) r.push_back({{{i, 0, -1, 1}}, i, "waypoint at interval start"});
    r.push_back({{{i, 0, 1, 1}}, i + 1, "waypoint at interval end"});
    if (i + 1 < n)
      for (int k = 1; k <= dim - 2; k++) r.push_back({{{i, k, 1, 1}, {i + 1, k, -1, -1}}, -1, "continuity"});
  }
  for (int k = 1; k <= dim / 2 - 1; k++) r.push_back({{{n - 1, k, 1, 1}}, -1, "end at rest"});
  return r;
}
// table of basis derivatives at the ends: val[interval][side][deg][j]
struct EndTable {
  std::vector<std::vector<ld>> v, d;  // index ((i*2+side)*(D+1)+deg)
  int D;
  EndTable(const RefBasis& b, const VX& taus) : D(std::max(0, b.dim - 2)) {
    for (int i = 0; i < taus.size(); i++)
      for (int s = 0; s < 2; s++)
        for (int k = 0; k <= D; k++) {
          v.push_back(b.deriv(s ? 1 : -1, taus(i), k));
          d.push_back(b.deriv_tau(s ? 1 : -1, taus(i), k));
        }
  }
  const std::vector<ld>& val(const Term& t) const { return v[(t.interval * 2 + (t.side > 0)) * (D + 1) + t.deg]; }
  const std::vector<ld>& dtau(const Term& t) const { return d[(t.interval * 2 + (t.side > 0)) * (D + 1) + t.deg]; }
};
// The sparse solver's backward error on these badly row-scaled systems grows with the dimension
// (measured over 16000 systems: 1e-12 for dimension 4, 6e-9 for 6, 7e-7 for 8)
inline double interp_tol(const RefBasis& b) { return b.dim <= 4 ? 1e-7 : b.dim <= 6 ? 3e-6 : b.dim <= 8 ? 5e-6 : 1e-4; }
inline VX interp_taus(Rng& g, const RefBasis& b, int n, int style) {
  VX t(n);
  double lo = 0.3, hi = 3.0;
  if (style == 1) { lo = 0.02; hi = 0.2; }
  if (style == 2) { lo = 5; hi = 60; }
  if (style == 3) { lo = 0.1; hi = 8; }
  // everything very short or very long (the rows of the system are then badly scaled)
  if ((style == 0 || style == 2) && b.kind != B0101 && g.chance(0.2)) {
    double f = b.dim <= 2 ? g.logu(1e-5, 1e6) : b.dim <= 4 ? g.logu(1e-4, 1e5) : g.logu(0.01, 1e3);
    lo = f; hi = 4 * f;
  }
  if (b.dim >= 8) { lo = std::pow(lo, 0.3); hi = std::pow(hi, 0.3); }
  if (b.kind == B0101 && style != 1) { lo = 0.4 / (double)b.k(); hi = 4 / (double)b.k(); }
  double cap = b.kind == B0101 ? 5.0 / (double)b.k() : 1e9;
  bool rep = g.chance(0.2);  // some lengths equal
  for (int i = 0; i < n; i++) t(i) = rep && i && g.chance(0.6) ? t(i - 1) : std::min(cap, g.logu(lo, hi));
  return t;
}
// lengths or waypoints that differ a little from earlier ones (all of them or one)
template <class M> inline M near_by(Rng& g, M t) {
  double d = g.logu(3e-7, 3e-2) * (g.chance(0.5) ? 1 : -1);
  if (g.chance(0.4)) t *= 1 + d; else { long i = g.irange(0, t.size() - 1); t.data()[i] *= 1 + d; }
  return t;
}
inline MX interp_wp(Rng& g, int n, int codom) {
  MX w(n + 1, codom);
  int style = (int)g.irange(0, 5);
  double mag = style == 4 ? g.logu(1e-4, 1e4) : 1;
  for (int i = 0; i <= n; i++)
    for (int c = 0; c < codom; c++) w(i, c) = style == 5 && i && g.chance(0.4) ? w(i - 1, c) : mag * g.uni(-2, 2);
  if (style == 3) w.col(g.irange(0, codom - 1)).setZero();
  if (style == 2) { Vals val(g, -2, 2); for (long i = 0; i < w.size(); i++) w.data()[i] = val(); }
  return w;
}
// a request the interpolator refuses, or one of no numerical meaning: no trace may stay in it
inline std::string spoil(Rng& g, gsplines::Interpolator& ip, int dim, int n, int codom, const VX& taus, const MX& wp) {
  int how = (int)g.irange(0, 6);
  VX t = taus, c = VX::Constant((long)n * codom * dim, g.uni(-3, 3));
  MX w = wp;
  try {
    if (how == 0) { w = MX::Constant(n + 1 + g.irange(1, 2), codom, 3.5); ip.solve_interpolation(t, w); }
    else if (how == 1) { w = MX::Constant(n + 1, codom + 1, -2.5); ip.interpolate(t, w); }
    else if (how == 2) { t(g.irange(0, n - 1)) = g.chance(0.5) ? 0.0 : -1.0; ip.solve_interpolation(t, w); }
    else if (how == 3) { t = VX::Constant(n + 1, 0.7); ip.interpolate(t, w); }
    else if (how == 4) { t = t.reverse().eval() * 1.3; ip.get_coeff_derivative_wrt_tau(c, t, n + g.irange(0, 2)); }
    else if (how == 5) { t(g.irange(0, n - 1)) = -0.5; ip.get_coeff_derivative_wrt_tau(c, t, g.irange(0, n - 1)); }
    else { w.data()[g.irange(0, w.size() - 1)] = std::nan(""); VX q = ip.solve_interpolation(t, w); ip.get_coeff_derivative_wrt_tau(q, t, g.irange(0, n - 1)); }
  } catch (const std::exception&) {}
  return "odd" + std::to_string(how) + ",";
}
}  // namespace vh
