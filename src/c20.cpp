// Monitor for the functionals on collocation splines: each application is compared with
// the exact operation on the piecewise polynomial the spline represents, along histories
// of updates; matrices, differentials and the algebra of functionals likewise.
#include "vh.hpp"
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <ifopt/problem.h>
using namespace vh;
using namespace gsplines::collocation;

struct Shape { double t0; int n, m, k; VX taus; };  // intervals, nodes, components
static std::string str(const Shape& s) { std::ostringstream o; o << "n=" << s.n << " nodes=" << s.m << " codom=" << s.k << " t0=" << s.t0 << " taus=" << vec_str(s.taus, 5); return o.str(); }
static VX lengths(Rng& g, int n, bool equal) {
  VX t(n);
  double e = g.uni(0.3, 3);
  for (int i = 0; i < n; i++) t(i) = equal ? e : g.uni(0.3, 3);
  if (g.chance(0.2)) t *= g.logu(1e-3, 1e3);
  return t;
}
static Shape shape(Rng& g, bool equal) {
  Shape s;
  s.t0 = g.chance(0.3) ? 0 : g.uni(-5, 5);
  s.n = (int)(g.chance(0.15) ? 1 : g.size(1, 5, 12)); s.m = (int)g.size(2, 8, 14); s.k = (int)g.size(1, 4, 7);
  s.taus = lengths(g, s.n, equal);
  return s;
}
static MX rmat(Rng& g, int r, int c) { Vals v(g, -2, 2); MX m(r, c); for (long i = 0; i < m.size(); i++) m.data()[i] = v(); return m; }
static VX rvec(Rng& g, int n) { Vals v(g, -1, 1); VX m(n); for (long i = 0; i < n; i++) m(i) = v(); return m; }
static RefSpline rspline(Rng& g, const Shape& s, int k = 0) {
  RefSpline r;
  r.b.kind = GLL; r.b.dim = s.m; r.b.nodes = ref_gll_nodes(s.m);
  r.t0 = s.t0; r.taus = s.taus; r.codom = k ? k : s.k;
  r.coeff.resize((long)s.n * s.m * r.codom);
  Vals val(g, -2, 2);
  for (long i = 0; i < r.coeff.size(); i++) r.coeff(i) = val();
  return r;
}
static GLLSpline lib(const RefSpline& r) {
  return GLLSpline({r.t0, r.t0 + r.taus.sum()}, r.codom, r.n(), r.b.dim, r.coeff, r.taus);
}
static ld dscale(const RefSpline& r, int deg) {
  BasisScale sc(r.b);
  ld m = 0;
  for (int i = 0; i < r.n(); i++) for (int j = 0; j < r.b.dim; j++) m = std::max(m, sc(j, 1, r.taus(i), deg));
  return m * 2 * r.b.dim;
}
static void same_meta(Ctx& x, const GLLSpline& q, const RefSpline& r, int k, const std::string& tag) {
  x.check((int)q.get_codom_dim() == k && (int)q.get_nglp() == r.b.dim && (int)q.get_number_of_intervals() == r.n(), "result-shape", tag);
  x.check(same_bits(q.get_interval_lengths(), r.taus), "result-lengths", tag);
  x.check(q.get_domain().first == r.t0, "result-domain", tag);
}
// expected nodal vector against obtained
static void nodal(Ctx& x, const VX& got, const std::vector<ld>& e, ld scale, const std::string& key, const std::string& tag) {
  if (!x.check(got.size() == (long)e.size(), key + "-size", tag + " " + std::to_string(got.size()) + " instead of " + std::to_string(e.size()))) return;
  for (long i = 0; i < got.size(); i++) x.close(got(i), e[i], scale, 1e-9, key, tag + " entry " + std::to_string(i));
}
static std::vector<ld> ref_derivative(const RefSpline& r, int deg) {
  std::vector<ld> e;
  for (int i = 0; i < r.n(); i++) for (int c = 0; c < r.codom; c++) for (int j = 0; j < r.b.dim; j++) {
    auto ph = r.b.deriv(r.b.nodes[j], r.taus(i), deg);
    ld a = 0;
    for (int q = 0; q < r.b.dim; q++) a += (ld)r.coeff((i * r.codom + c) * r.b.dim + q) * ph[q];
    e.push_back(a);
  }
  return e;
}
static void derivative(Ctx& x) {
  Rng& g = x.rng;
  bool equal = g.chance(0.4);
  Shape s = shape(g, equal);
  int deg = (int)(g.chance(0.5) ? 1 : g.irange(0, 4));
  x.d(str(s)); x.dv("deg", deg);
  RefSpline r = rspline(g, s);
  std::unique_ptr<Derivative> d;
  int how = (int)g.irange(0, 2);
  if (how == 0 && equal) d = std::make_unique<Derivative>(std::make_pair(s.t0, s.t0 + s.taus.sum()), s.k, s.m, s.n, deg);
  else if (how == 1) { d = std::make_unique<Derivative>(lib(r)); deg = 1; }
  else d = std::make_unique<Derivative>(s.k, s.m, s.taus, deg);
  for (int q = 0; q < 3; q++) {
    std::string tag = str(s) + " deg=" + std::to_string(deg) + " how=" + std::to_string(how) + " step=" + std::to_string(q);
    GLLSpline f = lib(r);
    auto e = ref_derivative(r, deg);
    nodal(x, (*d)(f), e, dscale(r, deg), "derivative", tag);
    GLLSpline df = *d * f;
    nodal(x, df.get_coefficients(), e, dscale(r, deg), "derivative-spline", tag);
    same_meta(x, df, r, s.k, tag);
    GLLSpline own = f.derivate(deg);
    for (long i = 0; i < own.get_coefficients().size(); i++) x.close(own.get_coefficients()(i), df.get_coefficients()(i), dscale(r, deg), 1e-8, "derivative-vs-derivate", tag);
    VX lin = d->differential(f)->to_dense_matrix() * r.coeff;
    nodal(x, lin, e, dscale(r, deg), "derivative-differential", tag);
    VX sp = d->differential(f)->to_sparse_matrix() * r.coeff;
    nodal(x, sp, e, dscale(r, deg), "derivative-sparse-matrix", tag);
    // updates: other lengths, then a new spline on them
    if (g.chance(0.4)) { s.taus = VX::Constant(s.n, g.uni(0.3, 3)); d->update(s.taus(0)); }
    else { s.taus = lengths(g, s.n, g.chance(0.3)); d->update(s.taus); }
    r = rspline(g, s);
    x.count("updates");
  }
}
static void transpose(Ctx& x) {
  Rng& g = x.rng;
  Shape s = shape(g, g.chance(0.5));
  x.d(str(s));
  RefSpline a = rspline(g, s), b = rspline(g, s);
  std::unique_ptr<TransposeLeftMultiplication> t;
  if (g.chance(0.5)) t = std::make_unique<TransposeLeftMultiplication>(lib(a));
  else { t = std::make_unique<TransposeLeftMultiplication>(s.k, s.m, s.n); *t = lib(a); }
  for (int q = 0; q < 3; q++) {
    std::string tag = str(s) + " step " + std::to_string(q);
    std::vector<ld> e;
    for (int i = 0; i < s.n; i++) for (int j = 0; j < s.m; j++) {
      ld v = 0;
      for (int c = 0; c < s.k; c++) v += (ld)a.coeff((i * s.k + c) * s.m + j) * (ld)b.coeff((i * s.k + c) * s.m + j);
      e.push_back(v);
    }
    GLLSpline f = lib(b);
    nodal(x, (*t)(f), e, 4 * s.k, "dot-product", tag);
    GLLSpline p = *t * f;
    same_meta(x, p, b, 1, tag);
    nodal(x, p.get_coefficients(), e, 4 * s.k, "dot-product-spline", tag);
    nodal(x, t->to_dense_matrix() * b.coeff, e, 4 * s.k, "dot-product-matrix", tag);
    if (g.chance(0.2)) {
      Shape o = s; if (g.chance(0.5)) o.m++; else { o.n++; o.taus = lengths(g, o.n, false); }
      RefSpline w = rspline(g, o);
      x.check(throws([&] { *t = lib(w); }), "other-discretization-accepted", tag);
      x.check(throws([&] { (*t)(lib(w)); }), "other-discretization-applied", tag);
      x.check(throws([&] { *t * lib(w); }), "other-discretization-applied", tag);
    }
    // new data
    if (g.chance(0.6)) { a = rspline(g, s); *t = lib(a); }
    else {
      // from a function: a polynomial sampled at the nodes of equal intervals of its domain
      Shape u = s; u.taus = VX::Constant(s.n, s.taus.sum() / s.n);
      auto lb = make_basis(LEG, 4, g);
      RefSpline pf; pf.b = lb.ref; pf.t0 = s.t0; pf.taus = VX::Constant(1, s.taus.sum()); pf.codom = s.k; pf.coeff = rvec(g, 4 * s.k);
      gsplines::GSpline fl = to_lib(pf, *lb.lib);
      *t = static_cast<const gsplines::functions::FunctionBase&>(fl);
      a = rspline(g, u);
      auto bp = a.bps();
      for (int i = 0; i < s.n; i++) for (int c = 0; c < s.k; c++) for (int j = 0; j < s.m; j++)
        a.coeff((i * s.k + c) * s.m + j) = (double)pf.at(0, c, bp[i] + (a.b.nodes[j] + 1) * (ld)u.taus(i) / 2, 0);
    }
    b = rspline(g, s);
    x.count("updates");
  }
}
static ld ref_integral(const RefSpline& r) {
  std::vector<ld> gx, gw; ref_gauss(r.b.dim, gx, gw);
  ld a = 0; auto bp = r.bps();
  for (int i = 0; i < r.n(); i++) for (size_t q = 0; q < gx.size(); q++) a += gw[q] * (ld)r.taus(i) / 2 * r.at(i, 0, bp[i] + (gx[q] + 1) * (ld)r.taus(i) / 2, 0);
  return a;
}
static void integral_case(Ctx& x) {
  Rng& g = x.rng;
  bool equal = g.chance(0.4);
  Shape s = shape(g, equal); s.k = 1;
  x.d(str(s));
  RefSpline r = rspline(g, s);
  std::unique_ptr<Integral> I;
  if (equal && g.chance(0.5)) I = std::make_unique<Integral>(std::make_tuple(s.t0, s.t0 + s.taus.sum()), s.m, s.n);
  else I = std::make_unique<Integral>(lib(r));
  for (int q = 0; q < 4; q++) {
    std::string tag = str(s) + " step " + std::to_string(q);
    ld e = ref_integral(r), sc = 2 * s.taus.sum();
    VX v = (*I)(lib(r));
    if (x.check(v.size() == 1, "integral-size", tag)) x.close(v(0), e, sc, 1e-10, "integral", tag);
    MX m = I->to_dense_matrix();
    if (x.check(m.rows() == 1 && m.cols() == s.n * s.m, "integral-matrix-shape", tag)) x.close((m * r.coeff)(0), e, sc, 1e-10, "integral-matrix", tag);
    VX wrong = VX::Ones(s.n + 1);
    if (g.chance(0.2)) x.check(throws([&] { I->update(wrong); }), "wrong-number-of-lengths-accepted", tag);
    if (g.chance(0.5)) { s.taus = lengths(g, s.n, false); I->update(s.taus); }
    else {
      s.n = (int)g.irange(1, 5); s.m = (int)g.irange(2, 8); s.taus = lengths(g, s.n, true); s.t0 = g.uni(-5, 5);
      I->update(std::make_tuple(s.t0, s.t0 + s.taus.sum()), s.m, s.n);
    }
    r = rspline(g, s);
    x.count("updates");
  }
}
static void continuity(Ctx& x) {
  Rng& g = x.rng;
  Shape s = shape(g, g.chance(0.2));
  if (s.n == 1) { s.n = 2; s.taus = lengths(g, 2, false); }
  int deg = (int)g.irange(0, 3);
  x.d(str(s)); x.dv("deg", deg);
  RefSpline r = rspline(g, s);
  std::unique_ptr<ContinuityError> C;
  if (g.chance(0.5)) C = std::make_unique<ContinuityError>(lib(r), deg);
  else C = std::make_unique<ContinuityError>(s.m, s.taus, s.k, deg);
  for (int q = 0; q < 3; q++) {
    std::string tag = str(s) + " deg=" + std::to_string(deg) + " step " + std::to_string(q);
    std::vector<ld> e; auto bp = r.bps();
    std::vector<ld> sc;
    for (int k = 0; k <= deg; k++) for (int i = 0; i + 1 < s.n; i++) for (int c = 0; c < s.k; c++) {
      e.push_back(r.at(i, c, bp[i + 1], k) - r.at(i + 1, c, bp[i + 1], k));
      sc.push_back(dscale(r, k));
    }
    VX v = (*C)(lib(r));
    MX m = C->to_dense_matrix();
    if (x.check(v.size() == (long)e.size() && m.rows() == v.size(), "jumps-size", tag)) {
      VX w = m * r.coeff;
      for (long i = 0; i < v.size(); i++) { x.close(v(i), e[i], sc[i], 1e-9, "jumps", tag); x.close(w(i), e[i], sc[i], 1e-9, "jumps-matrix", tag); }
    }
    x.check(C->get_codom_dim() == e.size(), "functional-dimension", tag);
    s.taus = lengths(g, s.n, g.chance(0.3));
    C->update(s.taus);
    r = rspline(g, s);
    x.count("updates");
  }
}
static void matrix_mult(Ctx& x) {
  Rng& g = x.rng;
  Shape s = shape(g, false);
  int in = s.k, out = (int)g.irange(1, 4);
  x.d(str(s)); x.dv("out", out);
  MatrixLeftMultiplication M(in, s.m, s.n, out);
  RefSpline r = rspline(g, s);
  std::vector<MX> mats(s.n * s.m, MX::Zero(out, in));
  int steps = (int)g.irange(1, 4);
  for (int q = 0; q <= steps; q++) {
    std::string tag = str(s) + " out=" + std::to_string(out) + " step " + std::to_string(q);
    std::vector<ld> e;
    for (int i = 0; i < s.n; i++) for (int o = 0; o < out; o++) for (int j = 0; j < s.m; j++) {
      ld a = 0;
      for (int c = 0; c < in; c++) a += (ld)mats[i * s.m + j](o, c) * (ld)r.coeff((i * in + c) * s.m + j);
      e.push_back(a);
    }
    GLLSpline f = lib(r);
    nodal(x, M(f), e, 4 * in, "matrix-product", tag);
    GLLSpline p = M * f;
    same_meta(x, p, r, out, tag);
    nodal(x, p.get_coefficients(), e, 4 * in, "matrix-product-spline", tag);
    int t = (int)g.irange(0, 2);
    if (t == 0) { MX m = rmat(g, out, in); M.update(m); for (auto& w : mats) w = m; }
    else {
      for (auto& w : mats) w = rmat(g, out, in);
      if (t == 1) M.update(mats.begin(), mats.end());
      else {
        std::vector<int> idx(mats.size());
        for (size_t i = 0; i < idx.size(); i++) idx[i] = (int)i;
        M.update(idx.begin(), idx.end(), [&](int i) -> MX { return mats[i]; });
      }
    }
    if (g.chance(0.3)) {
      x.check(throws([&] { M.update(MX(MX::Ones(out + 1, in))); }), "wrong-matrix-accepted", tag);
      std::vector<MX> less(mats.begin(), mats.end() - 1);
      x.check(throws([&] { M.update(less.begin(), less.end()); }), "wrong-matrix-count-accepted", tag);
    }
    r = rspline(g, s);
    x.count("updates");
  }
}
static void algebra(Ctx& x) {
  Rng& g = x.rng;
  Shape s = shape(g, false);
  x.d(str(s));
  RefSpline r = rspline(g, s), a = rspline(g, s), b = rspline(g, s);
  GLLSpline f = lib(r);
  Derivative D(lib(r));
  MatrixLeftMultiplication M(s.k, s.m, s.n, s.k);
  MX mm = rmat(g, s.k, s.k);
  M.update(mm);
  TransposeLeftMultiplication T(lib(a)), U(lib(b));
  Integral I(lib(rspline(g, s, 1)));
  MX d = D.to_dense_matrix(), m = M.to_dense_matrix(), t = T.to_dense_matrix(), u = U.to_dense_matrix(), w = I.to_dense_matrix();
  double c = g.num(-3, 3);
  auto cmp = [&](const VX& got, const VX& e, const std::string& what) {
    if (!x.check(got.size() == e.size(), what + "-size", str(s))) return;
    double sc = 1 + e.cwiseAbs().maxCoeff();
    for (long i = 0; i < e.size(); i++) x.close(got(i), e(i), sc, 1e-10, what, str(s));
  };
  cmp((D + M)(f), (d + m) * r.coeff, "sum");
  cmp((D - M)(f), (d - m) * r.coeff, "difference");
  cmp((-D)(f), -(d * r.coeff), "negation");
  cmp((c * D)(f), c * (d * r.coeff), "scaling");
  cmp((c * (T + U))(f), c * ((t + u) * r.coeff), "scaling-temporary");
  cmp((M * D)(f), m * (d * r.coeff), "product");
  cmp((T * D)(f), t * (d * r.coeff), "product-rectangular");
  cmp((I * (T + U * D))(f), w * ((t + u * d) * r.coeff), "chain");
  cmp((-2 * I * (T - U))(f), -2 * w * ((t - u) * r.coeff), "chain");
  GLLSpline q = (D + M) * f;
  same_meta(x, q, r, s.k, str(s));
  cmp(q.get_coefficients(), (d + m) * r.coeff, "sum-spline");
  GLLSpline q2 = 2 * (D + D) * f;
  cmp(q2.get_coefficients(), 4 * (d * r.coeff), "scaled-sum-spline");
  // operands untouched
  x.check((D.to_dense_matrix().array() == d.array()).all() && (M.to_dense_matrix().array() == m.array()).all() && (T.to_dense_matrix().array() == t.array()).all() && (U.to_dense_matrix().array() == u.array()).all() && (I.to_dense_matrix().array() == w.array()).all(), "operand-changed", str(s));
  LinearFunctionalDense L(1, 1);
  L.set(T);
  cmp(L(f), t * r.coeff, "set-from-sparse");
  L.set(LinearFunctionalDense(w));
  x.check((L.to_dense_matrix().array() == w.array()).all(), "set-from-dense", str(s));
  LinearFunctionalSparse cp(D), mv(LinearFunctionalSparse(static_cast<const LinearFunctionalSparse&>(D)));
  cmp(cp(f), d * r.coeff, "copy"); cmp(mv(f), d * r.coeff, "moved");
  ContinuityError CE(f, 0);
  MX ce = CE.to_dense_matrix();
  LinearFunctionalSparse S(1, 1);
  S.set(T);
  cmp(S(f), t * r.coeff, "set-sparse");
  S.set(CE);
  if (s.n > 1) cmp(S(f), ce * r.coeff, "set-from-rows");
  S.set(LinearFunctionalSparse(static_cast<const LinearFunctionalSparse&>(D)));
  cmp(S(f), d * r.coeff, "set-temporary");
  std::shared_ptr<LinearFunctionalBase> df = T.differential(f);
  cmp(df->to_dense_matrix() * r.coeff, t * r.coeff, "differential");
  cmp((*df)(f), t * r.coeff, "differential");
}
struct Dist { ld v = 0, scale = 0; std::vector<ld> g, gs; };
static Dist ref_distance(const RefSpline& f, const RefSpline& q) {
  Dist d; d.g.assign(q.coeff.size(), 0); d.gs = d.g;
  auto bp = q.bps(); auto w = ref_gll_weights(q.b.dim);
  for (int i = 0; i < q.n(); i++) for (int c = 0; c < q.codom; c++) for (int j = 0; j < q.b.dim; j++) {
    ld t = bp[i] + (q.b.nodes[j] + 1) * (ld)q.taus(i) / 2, ww = w[j] * (ld)q.taus(i) / 2;
    auto p1 = q.b.deriv(q.b.nodes[j], q.taus(i), 1);
    ld q1 = 0; for (int l = 0; l < q.b.dim; l++) q1 += (ld)q.coeff((i * q.codom + c) * q.b.dim + l) * p1[l];
    ld e0 = f.at(0, c, t, 0) - (ld)q.coeff((i * q.codom + c) * q.b.dim + j), e1 = f.at(0, c, t, 1) - q1;
    d.v += ww * (e0 * e0 + e1 * e1);
    d.scale += ww * (fabsl(f.at(0, c, t, 0)) + fabsl(f.at(0, c, t, 1)) + fabsl(q1) + 3) * (fabsl(f.at(0, c, t, 0)) + fabsl(f.at(0, c, t, 1)) + fabsl(q1) + 3);
    d.g[(i * q.codom + c) * q.b.dim + j] += -2 * ww * e0;
    for (int l = 0; l < q.b.dim; l++) d.g[(i * q.codom + c) * q.b.dim + l] += -2 * ww * e1 * p1[l];
    for (int l = 0; l < q.b.dim; l++) d.gs[(i * q.codom + c) * q.b.dim + l] += 2 * ww * (fabsl(e1) + fabsl(q1) + fabsl(e0) + 1) * (fabsl(p1[l]) + 1);
  }
  return d;
}
static void distance(Ctx& x) {
  Rng& g = x.rng;
  Shape s = shape(g, true);
  double e = (double)g.irange(4, 40) / 16;  // equal intervals of exact length
  s.t0 = (double)g.irange(-80, 80) / 16; s.taus.setConstant(e);
  auto lb = make_basis(LEG, (int)g.irange(2, 6), g);
  RefSpline pf; pf.b = lb.ref; pf.t0 = s.t0; pf.taus = VX::Constant(1, s.taus.sum()); pf.codom = s.k; pf.coeff = rvec(g, pf.b.dim * s.k);
  gsplines::GSpline fl = to_lib(pf, *lb.lib);
  x.d(str(s)); x.d(lb.str());
  SobolevDistance dist(fl, s.m, s.n, 1);
  x.check(dist.get_codom_dim() == 1, "functional-dimension", str(s));
  struct Kept { std::shared_ptr<LinearFunctionalBase> d; Dist r; };
  std::vector<Kept> kept;
  for (int q = 0; q < 3; q++) {
    RefSpline r = rspline(g, s);
    if (g.chance(0.3)) {  // close to the function itself
      auto bp = r.bps();
      for (int i = 0; i < s.n; i++) for (int c = 0; c < s.k; c++) for (int j = 0; j < s.m; j++)
        r.coeff((i * s.k + c) * s.m + j) = (double)pf.at(0, c, bp[i] + (r.b.nodes[j] + 1) * (ld)r.taus(i) / 2, 0);
    }
    GLLSpline f = lib(r);
    Dist d = ref_distance(pf, r);
    VX v = dist(f);
    if (x.check(v.size() == 1, "distance-size", str(s))) { x.close(v(0), d.v, d.scale, 1e-9, "distance", str(s)); x.check(v(0) >= -1e-12 * (double)d.scale, "negative-distance", str(s)); }
    kept.push_back({dist.differential(f), d});
    // every differential handed out so far is still the one it was
    for (size_t k = 0; k < kept.size(); k++) {
      MX m = kept[k].d->to_dense_matrix();
      if (!x.check(m.rows() == 1 && m.cols() == r.coeff.size(), "differential-shape", str(s))) continue;
      for (long i = 0; i < m.cols(); i++) x.close(m(0, i), kept[k].r.g[i], kept[k].r.gs[i], 1e-8, k + 1 == kept.size() ? "distance-differential" : "earlier-differential-changed", str(s));
    }
    x.check(same_bits(f.get_coefficients(), r.coeff), "argument-changed", str(s));
  }
}
// the functionals as parts of an optimisation problem
static void wrappers(Ctx& x) {
  Rng& g = x.rng;
  Shape s = shape(g, true);
  double e = (double)g.irange(4, 40) / 16;
  s.t0 = (double)g.irange(-80, 80) / 16;
  if (s.n == 1) s.n = 2;
  s.taus = VX::Constant(s.n, e);
  auto lb = make_basis(LEG, 4, g);
  RefSpline pf; pf.b = lb.ref; pf.t0 = s.t0; pf.taus = VX::Constant(1, s.taus.sum()); pf.codom = s.k; pf.coeff = rvec(g, 4 * s.k);
  gsplines::GSpline fl = to_lib(pf, *lb.lib);
  x.d(str(s));
  RefSpline r = rspline(g, s);
  auto var = std::make_shared<GLLSplineVariable>(lib(r));
  int deg = (int)g.irange(0, 2);
  double lo = g.uni(-2, 0), hi = g.uni(0, 2);
  ifopt::Problem p;
  p.AddVariableSet(var);
  auto con = std::make_shared<ConstraintWrapper<ContinuityError>>(lo, hi, lib(r), (std::size_t)deg);
  p.AddConstraintSet(con);
  p.AddCostSet(std::make_shared<CostWrapper<SobolevDistance>>(fl, (std::size_t)s.m, (std::size_t)s.n, (std::size_t)1));
  x.check(p.GetNumberOfOptimizationVariables() == r.coeff.size(), "variable-count", str(s));
  x.check(same_bits(p.GetVariableValues(), r.coeff), "variable-values", str(s));
  x.check(p.GetNumberOfConstraints() == (s.n - 1) * s.k * (deg + 1), "constraint-count", str(s));
  for (auto& b : p.GetBoundsOnConstraints()) x.check(b.lower_ == lo && b.upper_ == hi, "constraint-bounds", str(s));
  for (auto& b : p.GetBoundsOnOptimizationVariables()) x.check(b.lower_ <= -1e19 && b.upper_ >= 1e19, "variable-bounds", str(s));
  for (int q = 0; q < 3; q++) {
    r = rspline(g, s);
    VX pt = r.coeff;
    Dist d = ref_distance(pf, r);
    x.close(p.EvaluateCostFunction(pt.data()), d.v, d.scale, 1e-9, "cost", str(s));
    VX gr = p.EvaluateCostFunctionGradient(pt.data());
    if (x.check(gr.size() == pt.size(), "cost-gradient-size", str(s))) for (long i = 0; i < gr.size(); i++) x.close(gr(i), d.g[i], d.gs[i], 1e-8, "cost-gradient", str(s));
    VX c = p.EvaluateConstraints(pt.data());
    MX J = MX(p.GetJacobianOfConstraints());
    auto bp = r.bps();
    long row = 0;
    VX Jc = J * pt;
    for (int k = 0; k <= deg; k++) for (int i = 0; i + 1 < s.n; i++) for (int cc = 0; cc < s.k; cc++, row++) {
      ld ev = r.at(i, cc, bp[i + 1], k) - r.at(i + 1, cc, bp[i + 1], k);
      x.close(c(row), ev, dscale(r, k), 1e-9, "constraint-value", str(s));
      x.close(Jc(row), ev, dscale(r, k), 1e-9, "constraint-jacobian", str(s));
    }
    x.check(same_bits(var->get_coefficients(), pt) && same_bits(p.GetVariableValues(), pt), "variables-not-set", str(s));
    x.check(same_bits(var->get_interval_lengths(), s.taus), "variable-lengths", str(s));
  }
}
static void register_all() {
  scenario("derivative", derivative, 2);
  scenario("transpose", transpose, 2);
  scenario("integral", integral_case, 2);
  scenario("continuity", continuity, 2);
  scenario("matrix", matrix_mult, 2);
  scenario("algebra", algebra, 2);
  scenario("distance", distance, 2);
  scenario("wrappers", wrappers, 1);
}
VH_MAIN
