// Mixed workload over the whole API: operations drawn from one generator act on a pool of
// live objects; every number that comes back goes into a digest, one per operation.
#pragma once
#include "funcs.hpp"
#include "interp.hpp"
#include <chrono>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Interpolator.hpp>
#include <gsplines/Optimization/ipopt_interface.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <gsplines/Tools.hpp>
#include <ifopt/ipopt_solver.h>
namespace vh {
namespace cl = gsplines::collocation;
namespace fa = gsplines::functional_analysis;
using GLLS = cl::GaussLobattoLagrangeSpline;
using gsplines::GSpline;
using Bas = gsplines::basis::Basis;

struct Dig {
  uint64_t h = 1469598103934665603ull;
  long n = 0, finite = 0;
  void u(uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
  void d(double v) {
    uint64_t b;
    n++;
    if (std::isnan(v)) b = 0x7ff8000000000000ull;
    else { memcpy(&b, &v, 8); finite += std::isfinite(v); }
    u(b);
  }
  void m(const MX& a) { u(a.rows()); u(a.cols()); for (long j = 0; j < a.cols(); j++) for (long i = 0; i < a.rows(); i++) d(a(i, j)); }
  void s(const gsplines::GSplineBase& g) {
    d(g.get_domain().first); d(g.get_domain().second); u(g.get_codom_dim()); u(g.get_basis_dim());
    m(g.get_coefficients()); m(g.get_interval_lengths()); m(g.get_basis().get_parameters()); u(fnv(g.get_basis_name()));
  }
};
struct Pool {
  std::vector<std::unique_ptr<FB>> fns;
  std::vector<GSpline> spl;
  std::vector<std::unique_ptr<Bas>> bas;
  std::vector<GLLS> gll;
  Pool() = default;
  void clear() { fns.clear(); spl.clear(); bas.clear(); gll.clear(); }
  Pool(const Pool& o) : spl(o.spl), gll(o.gll) {
    for (auto& f : o.fns) fns.push_back(f->clone());
    for (auto& b : o.bas) bas.push_back(b->clone());
  }
};
struct OpLog { const char* name; uint64_t h; long n; uint64_t t0, t1; bool threw; };

template <class V, class T> void put(V& v, Rng& g, T&& x, size_t cap = 5) {
  if (v.size() >= cap) { size_t i = g.next() % v.size(); v.erase(v.begin() + i); }
  v.push_back(std::forward<T>(x));
}
inline GSpline mix_spline(Rng& g) {
  auto b = random_basis(g, 1, 7);
  RefSpline r = random_ref_spline(g, b.ref, (int)g.size(1, 4, 12), (int)g.size(1, 4, 8), g.chance(0.5));
  return to_lib(r, *b.lib);
}
inline GLLS mix_gll(Rng& g, int k = 0) {
  int n = (int)g.size(1, 4, 9), m = (int)g.size(2, 6, 12);
  if (!k) k = (int)g.irange(1, 3);
  VX t = random_taus(g, n, false, 0.3, 2), c((long)n * m * k);
  for (long i = 0; i < c.size(); i++) c(i) = g.uni(0.5, 2);
  double t0 = g.chance(0.4) ? 0 : g.uni(-3, 3);
  return GLLS({t0, t0 + t.sum()}, k, n, m, c, t);
}
// values through a plain matrix, a strided output or no points at all
inline void mix_eval(Rng& g, Dig& d, const FB& f) {
  int np = (int)(g.chance(0.1) ? 0 : g.size(1, 6, 60));
  VX t = random_points(g, f.get_domain(), np);
  if (g.chance(0.5)) { d.m(f(t)); return; }
  MX buf(np + 3, f.get_codom_dim() + 2);
  f.value(t, buf.block(1, 1, np, f.get_codom_dim()));
  d.m(buf.block(1, 1, np, f.get_codom_dim()));
}
using MixOp = std::function<void(Pool&, Rng&, Dig&)>;
inline void mix_sparse(Dig& d, const Eigen::SparseMatrix<double, Eigen::RowMajor>& m) { d.m(MX(m)); }

inline std::vector<std::pair<const char*, MixOp>> mix_ops() {
  std::vector<std::pair<const char*, MixOp>> o;
  auto add = [&](const char* n, MixOp f) { o.emplace_back(n, f); };
  // ---- functions
  add("function:new", [](Pool& p, Rng& g, Dig& d) {
    Fn f = random_fn(g, random_dom(g), (int)g.irange(1, 3), (int)g.irange(1, 5));
    mix_eval(g, d, *f.lib);
    put(p.fns, g, std::move(f.lib));
  });
  add("function:value", [](Pool& p, Rng& g, Dig& d) { if (!p.fns.empty()) mix_eval(g, d, *p.fns[g.next() % p.fns.size()]); });
  add("function:derivative", [](Pool& p, Rng& g, Dig& d) {
    if (p.fns.empty()) return;
    FB& f = *p.fns[g.next() % p.fns.size()];
    int k = (int)g.irange(0, 3);
    if (g.chance(0.5)) { auto q = f.deriv(k); mix_eval(g, d, *q); if (k < 2 && g.chance(0.3)) put(p.fns, g, std::move(q)); }
    else { FE q = f.derivate(k); mix_eval(g, d, q); if (k < 2) mix_eval(g, d, q.derivate()); }
  });
  add("function:algebra", [](Pool& p, Rng& g, Dig& d) {
    if (p.fns.empty()) return;
    FB& a = *p.fns[g.next() % p.fns.size()];
    Fn bf = random_fn(g, g.chance(0.8) ? a.get_domain() : random_dom(g), (int)(g.chance(0.7) ? a.get_codom_dim() : 1), (int)g.irange(1, 3));
    FE ea = a.to_expression(), eb = bf.expr();
    int op = (int)g.irange(0, 4);
    FE r = g.chance(0.5) ? apply_fe(op, (int)g.irange(0, 3), ea, eb) : apply_fb(op, 0, a, eb);
    mix_eval(g, d, r);
    if (g.chance(0.4)) put(p.fns, g, g.chance(0.5) ? std::unique_ptr<FB>(r.clone()) : std::unique_ptr<FB>(r.move_clone()));
  });
  add("function:compound", [](Pool& p, Rng& g, Dig& d) {
    if (p.fns.empty()) return;
    FE a = p.fns[g.next() % p.fns.size()]->to_expression();
    Fn s = random_fn(g, a.get_domain(), (int)(g.chance(0.8) ? a.get_codom_dim() : 4), 1);
    FE e = s.expr();
    if (g.chance(0.5)) a += e; else a += std::move(e);
    Fn t = random_fn(g, a.get_domain(), 1, 1);
    a *= t.expr();
    FE n = -a;
    mix_eval(g, d, n); mix_eval(g, d, 2.5 * n);
    auto c = n.get_arg_domains();
    for (auto& q : c) { d.d(q.first); d.d(q.second); }
  });
  add("function:copies", [](Pool& p, Rng& g, Dig& d) {
    if (p.fns.empty()) return;
    size_t i = g.next() % p.fns.size();
    auto c = p.fns[i]->clone();
    auto m = c->move_clone();
    c.reset();
    if (g.chance(0.5)) p.fns[i].swap(m);
    mix_eval(g, d, *p.fns[i]);
    FE e(*p.fns[i]); FE e2(std::move(e)); FE e3(e2);
    mix_eval(g, d, e3);
    auto q = e3.to_expression().deriv(1);
    mix_eval(g, d, *q);
  });
  add("function:dot", [](Pool& p, Rng& g, Dig& d) {
    if (p.fns.empty()) return;
    FB& a = *p.fns[g.next() % p.fns.size()];
    Fn b = random_fn(g, a.get_domain(), (int)(g.chance(0.85) ? a.get_codom_dim() : 5), 2);
    auto q = a.dot(*b.lib);
    mix_eval(g, d, q); mix_eval(g, d, q.derivate((int)g.irange(0, 2)));
  });
  add("function:drop", [](Pool& p, Rng& g, Dig&) { if (p.fns.size() > 1) p.fns.erase(p.fns.begin() + g.next() % p.fns.size()); });
  add("function:integrals", [](Pool& p, Rng& g, Dig& d) {
    if (p.fns.empty()) return;
    FB& a = *p.fns[g.next() % p.fns.size()];
    int n = (int)g.irange(2, 8), m = (int)g.irange(1, 3);
    d.d(fa::l2_norm(a, n, m)); d.d(fa::sobolev_norm(a, 1, n, m));
    d.d(fa::sobolev_semi_norm(a, {{0, 0.5}, {1, 2.0}}, n, m)); d.d(fa::l2_inner_product(a, a, n, m));
    d.d(fa::integral(a, n, m));  // only of scalar functions
  });
  // ---- splines
  add("spline:new", [](Pool& p, Rng& g, Dig& d) {
    GSpline s = mix_spline(g);
    mix_eval(g, d, s);
    if (p.spl.size() >= 4) p.spl.clear();
    p.spl.push_back(std::move(s));
  });
  add("spline:queries", [](Pool& p, Rng& g, Dig& d) {
    if (p.spl.empty()) return;
    const GSpline& s = p.spl[g.next() % p.spl.size()];
    d.s(s); d.m(s.get_domain_breakpoints()); d.m(s.get_waypoints()); mix_eval(g, d, s);
    d.u(s == s); d.u(s == p.spl[0]); d.u(s.same_vector_space(p.spl[0]));
  });
  add("spline:derivative", [](Pool& p, Rng& g, Dig& d) {
    if (p.spl.empty()) return;
    const GSpline& s = p.spl[g.next() % p.spl.size()];
    GSpline q = s.derivate((int)g.irange(0, 4));
    d.s(q); mix_eval(g, d, q); mix_eval(g, d, q.derivate());
  });
  add("spline:algebra", [](Pool& p, Rng& g, Dig& d) {
    if (p.spl.empty()) return;
    GSpline a = p.spl[g.next() % p.spl.size()];
    const GSpline& b = g.chance(0.3) ? p.spl[g.next() % p.spl.size()] : a;
    GSpline b2(b);
    d.s(a + b2); d.s(a - b2); d.s(a + GSpline(b2)); d.s(GSpline(a) - b2); d.s(2.0 * a); d.s(a * -1.5); d.s(-a); d.s(-GSpline(b2));
    a += b2; a -= b2; d.s(a);
  });
  add("spline:scaling", [](Pool& p, Rng& g, Dig& d) {
    if (p.spl.empty()) return;
    const GSpline& s = p.spl[g.next() % p.spl.size()];
    d.s(s.linear_scaling_new_execution_time(g.uni(0.5, 4)));
    if (s.get_codom_dim() <= 2) {
      GSpline q = s.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(g.uni(0.5, 2)), std::optional<double>(g.uni(0.5, 2)), s.get_domain_length() / g.uni(5, 60));
      d.s(q); mix_eval(g, d, q);
    }
  });
  add("spline:as-function", [](Pool& p, Rng& g, Dig& d) {
    if (p.spl.empty()) return;
    GSpline s = p.spl[g.next() % p.spl.size()];
    Fn w = random_fn(g, s.get_domain(), 1, 2);
    FE e = s.to_expression() * w.expr();
    mix_eval(g, d, e); mix_eval(g, d, e.derivate());
    put(p.fns, g, g.chance(0.5) ? std::unique_ptr<FB>(s.clone()) : std::unique_ptr<FB>(e.clone()));
  });
  add("spline:random", [](Pool&, Rng& g, Dig& d) {  // random contents: only the shape is determined
    GSpline s = gsplines::random_gspline({0.0, g.uni(1, 3)}, 2);
    d.u(s.get_codom_dim()); d.d(s.get_domain().second);
  });
  // ---- bases
  add("basis:new", [](Pool& p, Rng& g, Dig& d) {
    auto b = random_basis(g, 1, 8);
    auto k = gsplines::basis::get_basis(b.lib->get_name(), b.lib->get_dim(), VX(b.lib->get_parameters()));
    d.u(*k == *b.lib); d.m(k->get_parameters());
    put(p.bas, g, g.chance(0.5) ? std::move(b.lib) : k->clone());
  });
  add("basis:values", [](Pool& p, Rng& g, Dig& d) {
    if (p.bas.empty()) return;
    Bas& b = *p.bas[g.next() % p.bas.size()];
    long n = (long)b.get_dim();
    MX buf(2 * n, 3);
    double s = g.uni(-1, 1), tau = g.uni(0.5, 2);
    VX v(n);
    b.eval_on_window(s, tau, v); d.m(v);
    Eigen::Map<VX, 0, Eigen::InnerStride<>> st(buf.data(), n, Eigen::InnerStride<>(2));
    b.eval_on_window(s, tau, st); d.m(VX(st));
    for (int k = 0; k <= 3; k++) { b.eval_derivative_on_window(s, tau, k, v); d.m(v); }
    b.eval_derivative_wrt_tau_on_window(s, tau, 1, v); d.m(v);
  });
  add("basis:gram", [](Pool& p, Rng& g, Dig& d) {
    if (p.bas.empty()) return;
    Bas& b = *p.bas[g.next() % p.bas.size()];
    long n = (long)b.get_dim();
    MX m = MX::Zero(n, n);
    double tau = g.uni(0.5, 2);
    int k = (int)g.irange(0, 3);
    b.add_derivative_matrix(tau, k, m); d.m(m);
    m.setZero(); b.add_derivative_matrix_deriv_wrt_tau(tau, k, m); d.m(m);
  });
  add("basis:matrices", [](Pool& p, Rng& g, Dig& d) {
    if (p.bas.empty()) return;
    Bas& b = *p.bas[g.next() % p.bas.size()];
    int n = (int)g.irange(1, 3), k = (int)g.irange(1, 2), r = (int)g.irange(0, 2);
    VX t = random_taus(g, n, false, 0.3, 2);
    mix_sparse(d, b.continuity_matrix(n, k, r, t));
    mix_sparse(d, b.gspline_derivative_matrix(n, k, r, t));
    d.m(b.get_derivative_matrix_block(r));
  });
  add("basis:copies", [](Pool& p, Rng& g, Dig& d) {
    if (p.bas.empty()) return;
    size_t i = g.next() % p.bas.size();
    auto c = p.bas[i]->clone();
    auto m = c->move_clone();
    c.reset();
    p.bas[i].swap(m);
    VX v(p.bas[i]->get_dim());
    p.bas[i]->eval_on_window(0.25, 1.0, v); d.m(v);
  });
  add("basis:lagrange-tools", [](Pool&, Rng& g, Dig& d) {
    using L = gsplines::basis::BasisLagrange;
    auto a = make_basis(LAG, (int)g.irange(1, 6), g), b = make_basis(LAG, (int)g.irange(1, 6), g);
    VX x = a.lib->get_parameters(), y = b.lib->get_parameters();
    d.m(L::barycentric_weights(x)); d.m(L::derivative_matrix(x)); d.m(L::derivative_matrix(x, 2)); d.m(L::change_interpolation_points(x, y));
  });
  // ---- interpolation and costs
  add("interpolation", [](Pool& p, Rng& g, Dig& d) {
    auto b = random_basis(g, 2, 6, true);
    int n = (int)g.size(1, 4, 12), k = (int)g.size(1, 3, 7);
    gsplines::Interpolator it(k, n, *b.lib);
    for (int q = 0; q < 2; q++) {
      VX t = interp_taus(g, b.ref, n, 0);
      MX w = interp_wp(g, n, k);
      if (q == 0) { GSpline s = it.interpolate(t, w); d.s(s); if (p.spl.size() >= 4) p.spl.clear(); p.spl.push_back(s); }
      else { VX c = it.solve_interpolation(t, w); d.m(c); VX dc = it.get_coeff_derivative_wrt_tau(c, t, g.irange(0, n - 1)); d.m(dc); }
    }
    if (b.ref.dim >= 4 && b.ref.kind != B0101) { VX t = interp_taus(g, b.ref, n, 0); d.s(gsplines::interpolate(t, interp_wp(g, n, k), *b.lib)); }
  });
  add("cost", [](Pool&, Rng& g, Dig& d) {
    auto b = random_basis(g, 4, 6, true);
    int n = (int)g.irange(1, 3), k = (int)g.irange(1, 2);
    fa::SobolevNorm c(interp_wp(g, n, k), *b.lib, {{1, 1.0}, {b.ref.kind == B0101 ? 3u : 2u, 0.5}});
    for (int q = 0; q < 2; q++) {
      VX t = interp_taus(g, b.ref, n, 0), gr(n);
      d.d(c(t));
      c.deriv_wrt_interval_len(t, gr); d.m(gr);
    }
  });
  // ---- collocation
  add("collocation:rules", [](Pool&, Rng& g, Dig& d) {
    int n = (int)g.size(2, 14, 40);
    d.m(cl::legendre_gauss_lobatto_points(n)); d.m(cl::legendre_gauss_lobatto_weights(n));
    auto pw = cl::legendre_gauss_lobatto_points_and_weights(n);
    d.m(pw.first); d.m(pw.second);
    VX t = random_taus(g, (int)g.irange(1, 3), false, 0.3, 2);
    d.m(cl::legendre_gauss_lobatto_points(0.5, n, t)); d.m(cl::legendre_gauss_lobatto_weights(n, t));
  });
  add("collocation:new", [](Pool& p, Rng& g, Dig& d) {
    if (g.chance(0.5) || p.fns.empty()) p.gll.push_back(mix_gll(g));
    else p.gll.push_back(GLLS::approximate(*p.fns[g.next() % p.fns.size()], (int)g.irange(2, 6), (int)g.irange(1, 3)));
    GLLS i = GLLS::identity(p.gll.back().get_domain(), 4, 2);
    d.s(i); d.s(p.gll.back()); mix_eval(g, d, p.gll.back());
    d.m(p.gll.back().get_domain_discretization()); d.m(p.gll.back().value_at(0));
    if (p.gll.size() > 4) p.gll.clear();
  });
  add("collocation:algebra", [](Pool& p, Rng& g, Dig& d) {
    GLLS a = p.gll.empty() || g.chance(0.3) ? mix_gll(g) : p.gll[g.next() % p.gll.size()];
    GLLS s(a.get_domain(), 1, a.get_number_of_intervals(), a.get_nglp(), VX::Constant(a.get_number_of_intervals() * a.get_nglp(), 1.5), a.get_interval_lengths());
    VX v = VX::Constant(a.get_codom_dim(), 0.5);
    d.s(a * s); d.s(s * a); d.s(a + a); d.s(a - GLLS(a)); d.s(2.0 * a); d.s(v + a); d.s(GLLS(a) - v); d.s(-a); d.s(cl::norm(a)); d.s(cl::pow(s, 2)); d.s(1.0 / s);
    GLLS q = 2.0 * a; q = a; q = GLLS(-a); d.s(q); if (g.chance(0.2)) q = s; d.s(q.derivate()); d.u(q.same_discretization(s));
    std::vector<VX> arr(a.get_number_of_intervals() * a.get_nglp(), v);
    q.set_from_array({0.0, 2.0}, arr.begin(), arr.end()); d.s(q);
    d.s(a.linear_scaling_new_execution_time(2.0));
  });
  add("collocation:functionals", [](Pool&, Rng& g, Dig& d) {
    GLLS a = mix_gll(g, 2);
    int n = (int)a.get_number_of_intervals(), m = (int)a.get_nglp();
    cl::Derivative D(a); d.m(D(a)); D.update(VX(2 * a.get_interval_lengths()));
    cl::TransposeLeftMultiplication T(a); d.m(T(a)); d.m(T.to_dense_matrix()); d.s(T * a);
    cl::Integral I(a.get_domain(), m, n);
    GLLS s = mix_gll(g, 1);
    if (s.get_nglp() == a.get_nglp() && s.get_number_of_intervals() == a.get_number_of_intervals()) d.m(I(s));
    else d.m(I(GLLS(s.get_domain(), 1, n, m)));
    GLLS e(a.get_domain(), 2, n, m); e = e + VX(VX::Constant(2, 0.75));
    cl::SobolevDistance S(e, (std::size_t)m, (std::size_t)n, 1); d.m(S(e)); d.m(S.differential(e)->to_dense_matrix());
  });
  // ---- optimisation, with the stand-in solver
  add("optimisation", [](Pool&, Rng& g, Dig& d) {
    int n = (int)g.irange(1, 3), k = (int)g.irange(1, 2);
    MX w = interp_wp(g, n, k);
    auto r = [&]() -> std::optional<GSpline> {
      switch (g.irange(0, 3)) {
        case 0: return gsplines::optimization::minimum_acceleration_path(w);
        case 1: return gsplines::optimization::broken_lines_path(w);
        case 2: return gsplines::optimization::rojas_path(w, g.uni(0.5, 2));
        default: return gsplines::optimization::optimal_sobolev_norm(w, gsplines::basis::BasisLegendre(4), {{2, 1.0}}, 3.0);
      }
    }();
    d.u(r.has_value()); if (r) d.s(*r);
  });
  // ---- tools and refused calls
  add("tools", [](Pool& p, Rng& g, Dig& d) {
    namespace t = gsplines::tools;
    MX a = MX::Constant(2, 2, g.uni(1, 2)), b = a * (1 + g.uni(0, 1e-3));
    d.u(t::approx_equal(a, b, 1e-6)); d.d(t::last_error); d.d(t::last_relative_error);
    d.u(t::approx_equal(1.0, g.uni(0.9, 1.1), 1e-3)); d.d(t::last_error);
    d.u(t::approx_zero(a, 1e-3)); d.d(t::last_error);
    if (!p.spl.empty()) { d.u(t::approx_equal(p.spl[0], p.spl.back(), 1e-9)); d.u(t::approx_zero(p.spl[0], 1e-9)); }
  });
  add("refused", [](Pool& p, Rng& g, Dig& d) {
    auto t = [&](auto f) { try { f(); d.u(1); } catch (const std::exception&) { d.u(2); } };
    GSpline s = mix_spline(g);
    VX c = s.get_coefficients(), tv = s.get_interval_lengths();
    t([&] { GSpline(s.get_domain(), s.get_codom_dim(), tv.size(), s.get_basis(), VX(c.size() + 1), tv); });
    t([&] { GSpline(s.get_domain(), s.get_codom_dim(), tv.size(), s.get_basis(), c, -tv); });
    t([&] { s + mix_spline(g); });
    t([&] { s.linear_scaling_new_execution_time(-1); });
    t([&] { gsplines::Interpolator(1, 2, gsplines::basis::BasisLegendre(4)).interpolate(VX::Ones(3), MX::Ones(3, 1)); });
    t([&] { gsplines::basis::get_basis("nothing", 3, std::vector<double>{}); });
    t([&] { gsplines::basis::Basis0101(1.5); });
    t([&] { fns::Identity({0, 1}) + FE(fns::Identity({0, 2})); });
    t([&] { cl::legendre_gauss_lobatto_points(1); });
    if (!p.fns.empty()) t([&] { p.fns[0]->concat(p.fns[0]->to_expression()); });
    mix_eval(g, d, s);
  });
  return o;
}
inline uint64_t mix_now() { return (uint64_t)std::chrono::steady_clock::now().time_since_epoch().count(); }
// runs n operations (the first pass over every kind when `all`), one digest each
inline std::vector<OpLog> mix_run(Pool& p, uint64_t seed, int n, bool all, bool timed = false) {
  static const auto ops = mix_ops();
  Rng g(seed);
  std::vector<OpLog> log;
  std::vector<size_t> order;
  if (all) {
    for (size_t i = 0; i < ops.size(); i++) order.push_back(i);
    for (size_t i = ops.size() - 1; i > 0; i--) std::swap(order[i], order[g.next() % (i + 1)]);
  }
  while ((int)order.size() < n) order.push_back(g.next() % ops.size());
  log.reserve(order.size());
  for (size_t k : order) {
    Rng gi(g.next());
    OpLog l{ops[k].first, 0, 0, timed ? mix_now() : 0, 0, false};
    Dig d;
    try { ops[k].second(p, gi, d); } catch (const std::exception&) { d.u(0xdead); l.threw = true; }
    l.h = d.h; l.n = d.n; l.t1 = timed ? mix_now() : 0;
    log.push_back(l);
  }
  return log;
}
inline void mix_solver() {  // deterministic, without state of its own
  ifopt::IpoptSolver::monitor() = [](ifopt::IpoptSolver&, ifopt::Problem& p) {
    Eigen::VectorXd x = p.GetVariableValues();
    for (int it = 0; it < 3; it++) {
      (void)p.EvaluateCostFunction(x.data());
      Eigen::VectorXd gr = p.EvaluateCostFunctionGradient(x.data());
      double s = x.sum();
      gr.array() -= gr.mean();
      double m = gr.cwiseAbs().maxCoeff();
      if (m > 0) x -= 0.05 * x.minCoeff() / m * gr;
      x *= s / x.sum();
    }
    (void)p.EvaluateConstraints(x.data());
    p.SetVariables(x.data());
    return 0;
  };
}
}  // namespace vh
