// Monitor for the spline derivative and continuity operators: a pool of basis objects
// (with copies and clones made midway) receives a random history of requests; every
// matrix returned is judged as an operator against the exact pieces.
#include "vh.hpp"
using namespace vh;
using gsplines::basis::Basis;
using SM = Eigen::SparseMatrix<double, Eigen::RowMajor>;

static void judge_derivative(Ctx& x, const SM& m, const BasisPair& b, BasisScale& sc, int n, int codom, int deg,
                             const VX& taus, const std::string& tag) {
  Rng& g = x.rng;
  long sz = (long)n * codom * b.ref.dim;
  if (!x.check(m.rows() == sz && m.cols() == sz, "derivative-matrix-shape", tag)) return;
  RefSpline r;
  r.b = b.ref; r.codom = codom; r.t0 = 0; r.taus = taus; r.coeff.resize(sz);
  Vals val(g, -1, 1);
  for (long i = 0; i < sz; i++) r.coeff(i) = val();
  VX dc = m * r.coeff;
  // the derived coefficients, summed by the reference basis, are the exact derivative
  for (int i = 0; i < n; i++) {
    if (n > 8 && !g.chance(0.4)) continue;
    for (int c = 0; c < codom; c++)
      for (int q = 0; q < 3; q++) {
        ld s = q == 0 ? g.uni(-1, -0.9) : q == 1 ? g.uni(0.9, 1) : g.uni(-1, 1);
        auto ph = b.ref.deriv(s, taus(i), 0);
        ld got = 0, e = 0, scale = 0;
        auto pd = b.ref.deriv(s, taus(i), deg);
        for (int j = 0; j < b.ref.dim; j++) {
          long k = ((long)i * codom + c) * b.ref.dim + j;
          got += (ld)dc(k) * ph[j];
          e += (ld)r.coeff(k) * pd[j];
          scale += fabsl((ld)r.coeff(k)) * sc(j, s, taus(i), deg);
        }
        std::ostringstream o; o << tag << " piece " << i << " c=" << c << " s=" << (double)s;
        x.close((double)got, e, scale * (b.ref.kind == LAG ? 50 : 1), 1e-8, "derivative-matrix", o.str());
      }
  }
  x.count("derivative matrices");
}
static void judge_continuity(Ctx& x, const SM& m, const BasisPair& b, BasisScale& sc, int n, int codom, int deg,
                             const VX& taus, const std::string& tag) {
  int dim = b.ref.dim;
  long rows = (long)(n - 1) * codom * (deg + 1), cols = (long)n * codom * dim;
  if (!x.check(m.rows() == rows && m.cols() == cols, "continuity-matrix-shape", tag)) return;
  MX d = MX(m);
  MX seen = MX::Zero(rows, cols);
  for (int k = 0; k <= deg; k++)
    for (int i = 0; i + 1 < n; i++) {
      auto R = b.ref.deriv(1, taus(i), k), L = b.ref.deriv(-1, taus(i + 1), k);
      for (int c = 0; c < codom; c++) {
        long row = ((long)k * (n - 1) + i) * codom + c;
        std::ostringstream o; o << tag << " order " << k << " breakpoint " << i << " c=" << c;
        for (int j = 0; j < dim; j++) {
          long c0 = ((long)i * codom + c) * dim + j, c1 = ((long)(i + 1) * codom + c) * dim + j;
          ld f = (b.ref.kind == LAG ? 50 : 1);
          x.close(d(row, c0), R[j], f * sc(j, 1, taus(i), k), 1e-8, "jump-left-side", o.str());
          x.close(d(row, c1), -L[j], f * sc(j, -1, taus(i + 1), k), 1e-8, "jump-right-side", o.str());
          seen(row, c0) = seen(row, c1) = 1;
        }
      }
    }
  bool clean = true;
  for (long i = 0; i < rows; i++) for (long j = 0; j < cols; j++) if (seen(i, j) == 0 && d(i, j) != 0) clean = false;
  x.check(clean, "continuity-matrix-extra-entry", tag);
  x.count("continuity matrices");
  if (n == 1) x.count("continuity matrices of one interval");
}
static void go(Ctx& x, int nmax, int cmax, int dmin, int dmax, int nreq) {
  Rng& g = x.rng;
  auto b = random_basis(g, dmin, dmax);
  BasisScale sc(b.ref);
  std::vector<std::unique_ptr<Basis>> pool;
  pool.push_back(b.lib->clone());
  int maxdeg = b.ref.kind == B0101 ? 5 : std::min(b.ref.dim + 1, 6);
  x.d(b.str());
  // a few shapes that come back again with other lengths
  struct Shape { int n, codom, deg; VX last; };
  std::vector<Shape> shapes;
  for (int q = 0; q < nreq; q++) {
    size_t who = (size_t)g.irange(0, (long)pool.size() - 1);
    if (g.chance(0.15) && pool.size() < 4) { pool.push_back(pool[who]->clone()); x.d("clone"); who = pool.size() - 1; }
    Shape s;
    if (!shapes.empty() && g.chance(0.6)) {
      s = g.pick(shapes);
      if (g.chance(0.25)) s.deg = (int)g.irange(0, maxdeg);
      if (g.chance(0.15)) s.codom = (int)g.irange(1, cmax);
    } else s = {(int)(g.chance(0.15) ? 1 : g.irange(1, nmax)), (int)g.irange(1, cmax), (int)g.irange(0, maxdeg), VX()};
    VX taus = (s.last.size() == s.n && g.chance(0.2)) ? s.last : random_taus(g, s.n, g.chance(0.3), g.chance(0.2) ? 1e-2 : 0.2, b.ref.kind == B0101 ? 6 : g.chance(0.2) ? 50 : 4);
    if (b.ref.kind != B0101 && g.chance(0.15)) taus *= g.logu(1e-3, 1e3);
    s.last = taus;
    shapes.push_back(s);
    const Basis& lib = *pool[who];
    std::ostringstream o; o << b.str() << " n=" << s.n << " codom=" << s.codom << " order=" << s.deg << " taus=" << vec_str(taus, 6) << " object " << who << " request " << q;
    bool cont = g.chance(0.5);
    x.dv(cont ? "C" : "D", s.n); x.dv("", s.codom); x.dv("", s.deg); x.d(vec_str(taus, 3));
    // the lengths may be a view into a larger vector
    VX big = VX::Constant(s.n + 2, -3.0);
    big.segment(1, s.n) = taus;
    const VX before = big;
    if (cont) judge_continuity(x, lib.continuity_matrix(s.n, s.codom, s.deg, big.segment(1, s.n)), b, sc, s.n, s.codom, s.deg, taus, o.str());
    else judge_derivative(x, lib.gspline_derivative_matrix(s.n, s.codom, s.deg, big.segment(1, s.n)), b, sc, s.n, s.codom, s.deg, taus, o.str());
    x.check(same_bits(big, before), "argument-changed", o.str());
    if (g.chance(0.1)) {  // lengths of another number of intervals are refused
      VX wrong = VX::Ones(s.n + (g.chance(0.5) || s.n == 1 ? 1 : -1));
      bool t = cont ? throws([&] { lib.continuity_matrix(s.n, s.codom, s.deg, wrong); })
                    : throws([&] { lib.gspline_derivative_matrix(s.n, s.codom, s.deg, wrong); });
      x.check(t, "wrong-number-of-lengths-accepted", o.str());
    }
    if (g.chance(0.15)) lib.get_derivative_matrix_block(g.irange(0, maxdeg + 1));
  }
}
// the same operators seen through splines: the derivative spline's coefficients, and
// jumps of a spline measured by one-sided evaluation of its derivatives
static void through_splines(Ctx& x) {
  Rng& g = x.rng;
  auto b = random_basis(g, 1, 7);
  BasisScale sc(b.ref);
  int n = (int)g.irange(1, 6), codom = (int)g.irange(1, 4), deg = (int)g.irange(0, std::min(b.ref.dim, 5));
  RefSpline r = random_ref_spline(g, b.ref, n, codom, true, 0.2, 4);
  x.d(b.str()); x.dv("n", n); x.dv("codom", codom); x.dv("deg", deg); x.d(vec_str(r.taus, 4));
  gsplines::GSpline f = to_lib(r, *b.lib);
  VX dc = f.get_basis().gspline_derivative_matrix(n, codom, deg, f.get_interval_lengths()) * f.get_coefficients();
  gsplines::GSpline d = f.derivate(deg);
  ld s = 0;
  for (long i = 0; i < dc.size(); i++) s = std::max(s, fabsl((ld)d.get_coefficients()(i)));
  s += 1e-3L * r.coeff.cwiseAbs().maxCoeff() * powl(2 / r.taus.minCoeff(), deg);
  for (long i = 0; i < dc.size(); i++) x.close(dc(i), d.get_coefficients()(i), s, 1e-8, "derivative-matrix-vs-derivative-spline", b.str());
  VX jumps = f.get_basis().continuity_matrix(n, codom, deg, f.get_interval_lengths()) * f.get_coefficients();
  auto bp = r.bps();
  for (int k = 0; k <= deg; k++)
    for (int i = 0; i + 1 < n; i++)
      for (int c = 0; c < codom; c++) {
        ld e = r.at(i, c, bp[i + 1], k) - r.at(i + 1, c, bp[i + 1], k), scale = 0;
        for (int j = 0; j < b.ref.dim; j++) {
          scale += fabsl((ld)r.coeff((i * codom + c) * b.ref.dim + j)) * sc(j, 1, r.taus(i), k);
          scale += fabsl((ld)r.coeff(((i + 1) * codom + c) * b.ref.dim + j)) * sc(j, -1, r.taus(i + 1), k);
        }
        x.close(jumps((k * (n - 1) + i) * codom + c), e, scale * (b.ref.kind == LAG ? 50 : 1) + 1e-280L, 1e-8, "jumps-of-spline", b.str());
      }
}
static void register_all() {
  scenario("histories", [](Ctx& x) { go(x, 5, 4, 1, 7, 10); }, 4);
  scenario("high-dim", [](Ctx& x) { go(x, 3, 2, 8, 12, 5); }, 1);
  scenario("many-intervals", [](Ctx& x) { go(x, 25, 3, 2, 5, 4); }, 1);
  scenario("splines", through_splines, 2);
}
VH_MAIN
