#include "vh.hpp"
using namespace vh;
using gsplines::basis::Basis;

// Monitors one basis object under a random sequence of requests.
static void drive(Ctx& x, const Basis& lib, const RefBasis& ref, int nreq, int maxdeg, const std::string& tag) {
  Rng& g = x.rng;
  BasisScale sc(ref);
  int dim = ref.dim;
  for (int q = 0; q < nreq; q++) {
    int what = (int)g.irange(0, 4);
    int deg = (int)g.irange(0, maxdeg);
    double tau = g.chance(0.2) ? g.logu(1e-3, 1e3) : g.uni(0.2, 4);
    if (ref.kind == B0101) tau = g.chance(0.2) ? g.logu(1e-3, 20) : g.uni(0.2, 6);
    double s = g.chance(0.15) ? g.sgn() : g.uni(-1, 1);
    if (g.chance(0.1)) s = g.uni(-1.6, 1.6);
    if (g.chance(0.05)) s = 0.0;
    if (!ref.nodes.empty() && g.chance(0.25)) s = (double)ref.nodes[g.irange(0, dim - 1)];
    if (!ref.nodes.empty() && g.chance(0.1)) s = (double)ref.nodes[g.irange(0, dim - 1)] + g.sgn() * g.logu(1e-8, 1e-3);
    // snapping of window points closer than 1e-9 to a node is legitimate
    bool near = false;
    for (ld nd : ref.nodes) if (fabsl(nd - s) < 1.0e-8L) near = true;
    // the output is a strided view into a poisoned matrix
    int stride = (int)g.irange(1, 3), pad = (int)g.irange(0, 2);
    MX big = MX::Constant(stride, dim + 2 * pad, 7.25e77);
    auto run = [&](int kind, int dg, VX& outv) {
      big.setConstant(7.25e77);
      if (stride == 1) {
        VX lin = VX::Constant(dim + 2 * pad, 7.25e77);
        auto seg = lin.segment(pad, dim);
        if (kind == 0) lib.eval_on_window(s, tau, seg);
        else if (kind == 1) lib.eval_derivative_on_window(s, tau, dg, seg);
        else lib.eval_derivative_wrt_tau_on_window(s, tau, dg, seg);
        outv = lin.segment(pad, dim);
        for (int i = 0; i < pad; i++)
          x.check(lin(i) == 7.25e77 && lin(pad + dim + i) == 7.25e77, "out-of-buffer-write", tag);
        return;
      }
      int row = (int)g.irange(0, stride - 1);
      auto r = big.row(row).segment(pad, dim);
      Eigen::Map<VX, 0, Eigen::InnerStride<>> mp(&r(0), dim, Eigen::InnerStride<>(stride));
      if (kind == 0) lib.eval_on_window(s, tau, mp);
      else if (kind == 1) lib.eval_derivative_on_window(s, tau, dg, mp);
      else lib.eval_derivative_wrt_tau_on_window(s, tau, dg, mp);
      outv = big.row(row).segment(pad, dim).transpose();
      for (int i = 0; i < big.rows(); i++)
        for (int j = 0; j < big.cols(); j++)
          if (!(i == row && j >= pad && j < pad + dim))
            x.check(big(i, j) == 7.25e77, "out-of-buffer-write", tag);
    };
    VX got;
    std::ostringstream info;
    info.precision(17);
    info << tag << " s=" << s << " tau=" << tau << " deg=" << deg << " "; x.d(info.str().substr(0, 160));
    if (what == 0) {
      run(0, 0, got);
      auto e = ref.deriv(s, tau, 0);
      for (int j = 0; j < dim; j++) {
        ld scale = sc(j, s, tau, 0) + (near ? 100 * sc(j, s, tau, 1) * tau : 0.0L);
        x.close(got(j), e[j], scale, 3e-10, "value", info.str() + "j=" + std::to_string(j));
      }
      x.count("values");
    } else if (what <= 2) {
      run(what == 1 ? 1 : 2, deg, got);
      auto e = what == 1 ? ref.deriv(s, tau, deg) : ref.deriv_tau(s, tau, deg);
      for (int j = 0; j < dim; j++) {
        ld f = 1;
        if (what == 2) f = ref.kind == B0101 ? ref.k() * (fabsl(s) + 1e-9L) * 2 : (ld)std::max(deg, 1) / tau;
        ld scale = f * (sc(j, s, tau, deg) + (near ? 100 * sc(j, s, tau, deg + 1) * tau : 0.0L));
        x.close(got(j), e[j], scale, 1e-8, what == 1 ? "time-derivative" : "tau-derivative",
                info.str() + "j=" + std::to_string(j));
      }
      x.count(what == 1 ? "time derivatives" : "tau derivatives");
    } else {
      // derivative matrix: coefficients of f -> coefficients of d^deg f / ds^deg
      // (window derivative; for basis0101 the time derivative)
      MX D = what == 3 ? lib.get_derivative_matrix_block(deg) : lib.derivative_matrix_impl(deg);
      if (!x.check(D.rows() == dim && D.cols() == dim, "matrix-shape", info.str())) continue;
      for (int p = 0; p < 2; p++) {
        ld z = g.uni(-1, 1);
        double tt = ref.kind == B0101 ? tau : 2.0;
        auto ph = ref.deriv(z, tt, 0), dp = ref.deriv(z, tt, deg);
        for (int j = 0; j < dim; j++) {
          ld acc = 0, mag = 0;
          for (int i = 0; i < dim; i++) { acc += (ld)D(i, j) * ph[i]; mag += fabsl((ld)D(i, j) * ph[i]); }
          x.close((double)acc, dp[j], sc(j, z, tt, deg) + mag, 1e-8, "derivative-matrix",
                  info.str() + "j=" + std::to_string(j));
        }
      }
      x.count("derivative matrices");
    }
  }
}

static void one(Ctx& x, Kind k, int dmin, int dmax) {
  Rng& g = x.rng;
  auto b = make_basis(k, (int)g.irange(dmin, dmax), g);
  x.d(b.str());
  int dim = b.ref.dim;
  int maxdeg = k == B0101 ? 9 : dim + (int)g.irange(0, 3);
  maxdeg = std::min(maxdeg, dim <= 8 ? 11 : 7);
  x.dv("maxdeg", maxdeg);
  int nreq = (int)g.irange(4, 14);
  drive(x, *b.lib, b.ref, nreq, maxdeg, b.str());
  // copies carry the caches of the source; the source must be unaffected by the copy's requests
  auto c = b.lib->clone();
  drive(x, *c, b.ref, 4, maxdeg, "clone of " + b.str());
  drive(x, *b.lib, b.ref, 2, maxdeg, "source after clone " + b.str());
  if (g.chance(0.5)) {
    auto m = c->move_clone();
    c.reset();
    drive(x, *m, b.ref, 4, maxdeg, "moved clone of " + b.str());
  }
  x.check((int)b.lib->get_dim() == dim, "dim", b.str());
  x.nontrivial = x.nontrivial && dim > 1;
}
static void register_all() {
  scenario("legendre", [](Ctx& x) { one(x, LEG, 1, 14); }, 3);
  scenario("lagrange", [](Ctx& x) { one(x, LAG, 1, 11); }, 2);
  scenario("gauss-lobatto", [](Ctx& x) { one(x, GLL, 2, 13); }, 2);
  scenario("basis0101", [](Ctx& x) { one(x, B0101, 6, 6); }, 2);
}
VH_MAIN
