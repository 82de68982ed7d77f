// Monitor for the basis factory, equality and copies: every basis obtained by any route
// is compared with the mathematical basis it was requested to be.
#include "vh.hpp"
using namespace vh;
using namespace gsplines::basis;

struct Want { RefBasis ref; VX params; std::string name; };
static std::string str(const Want& w) { std::ostringstream o; o << w.name << "/" << w.ref.dim << vec_str(w.params, 12); return o.str(); }

static Want random_want(Rng& g) {
  Want w;
  int t = (int)g.irange(0, 2);
  if (t == 0) { w.name = "legendre"; w.ref.kind = LEG; w.ref.dim = (int)g.size(1, 14, 20); }
  else if (t == 1) {
    int dim = (int)g.size(2, 12, 18);
    auto b = make_basis(dim > 12 || g.chance(0.3) ? GLL : LAG, dim, g);
    w.name = "lagrange"; w.ref = b.ref; w.params = b.lib->get_parameters();
    w.ref.nodes.clear();
    for (long i = 0; i < w.params.size(); i++) w.ref.nodes.push_back(w.params(i));
    w.ref.kind = LAG;
  } else { w.name = "basis0101"; w.ref.kind = B0101; w.ref.dim = 6; w.ref.alpha = g.uni(0.02, 0.98); w.params = VX::Constant(1, w.ref.alpha); }
  return w;
}
// behaves like the requested basis: identity, values, derivatives, length derivatives,
// derivative matrices and Gram matrices, the last ones through a directly built one too
static void behaves(Ctx& x, Basis& b, const Want& w, const std::string& tag) {
  Rng& g = x.rng;
  x.check(b.get_name() == w.name, "name", tag);
  x.check((int)b.get_dim() == w.ref.dim, "dimension", tag);
  x.check(same_bits(b.get_parameters(), w.params), "parameters", tag);
  if ((int)b.get_dim() != w.ref.dim) return;
  BasisScale sc(w.ref);
  for (int q = 0; q < 3; q++) {
    double s = g.uni(-1, 1), tau = g.uni(0.3, 4);
    bool near = false;
    for (ld nd : w.ref.nodes) if (fabsl(nd - s) < 1e-8L) near = true;
    if (near) continue;
    int deg = (int)g.irange(0, 3);
    VX v(w.ref.dim), d(w.ref.dim), dt(w.ref.dim);
    b.eval_on_window(s, tau, v);
    b.eval_derivative_on_window(s, tau, deg, d);
    b.eval_derivative_wrt_tau_on_window(s, tau, deg, dt);
    auto e0 = w.ref.deriv(s, tau, 0), ed = w.ref.deriv(s, tau, deg), et = w.ref.deriv_tau(s, tau, deg);
    ld f = w.ref.kind == LAG ? 50 : 1;
    for (int j = 0; j < w.ref.dim; j++) {
      x.close(v(j), e0[j], f * sc(j, s, tau, 0), 1e-9, "value", tag);
      x.close(d(j), ed[j], f * sc(j, s, tau, deg), 1e-8, "derivative", tag);
      x.close(dt(j), et[j], f * (sc(j, s, tau, deg) * (deg + 1) / tau + sc(j, s, tau, deg + 1)), 1e-8, "length-derivative", tag);
    }
    if (w.ref.kind != B0101) {
      // D^T-mapped coefficients give the derivative (window derivative for length 2)
      const MX& D = b.get_derivative_matrix_block(deg);
      VX c = VX::Random(w.ref.dim);
      VX dc = D * c;
      auto p0 = w.ref.deriv(s, 2, 0), pd = w.ref.deriv(s, 2, deg);
      ld got = 0, e = 0, scale = 0;
      for (int j = 0; j < w.ref.dim; j++) { got += dc(j) * p0[j]; e += c(j) * pd[j]; scale += fabsl((ld)c(j)) * sc(j, s, 2, deg); }
      x.close((double)got, e, f * scale + 1e-280L, 1e-8, "derivative-matrix", tag);
    }
    int go = (int)g.irange(0, w.ref.kind == B0101 ? 3 : 4);
    MX m = MX::Zero(w.ref.dim, w.ref.dim);
    b.add_derivative_matrix(tau, go, m);
    std::vector<ld> gx, gw;
    ref_gauss(w.ref.kind == B0101 ? 40 : w.ref.dim + 2, gx, gw);
    std::vector<std::vector<ld>> ph;
    for (ld s2 : gx) ph.push_back(w.ref.deriv(s2, tau, go));
    ld mx = 0;
    MX e(w.ref.dim, w.ref.dim);
    for (int i = 0; i < w.ref.dim; i++)
      for (int j = 0; j < w.ref.dim; j++) {
        ld a = 0;
        for (size_t k = 0; k < gx.size(); k++) a += gw[k] * tau / 2 * ph[k][i] * ph[k][j];
        e(i, j) = (double)a; mx = std::max(mx, fabsl(a));
      }
    for (int i = 0; i < w.ref.dim; i++)
      for (int j = 0; j < w.ref.dim; j++) x.close(m(i, j), e(i, j), f * (mx + powl(2 / tau, 2 * go)), 1e-7, "gram-matrix", tag);
  }
}
static std::shared_ptr<Basis> direct(const Want& w) {
  if (w.name == "legendre") return std::make_shared<BasisLegendre>(w.ref.dim);
  if (w.name == "lagrange") return std::make_shared<BasisLagrange>(w.params);
  return std::make_shared<Basis0101>(w.params(0));
}
static std::shared_ptr<Basis> obtain(Rng& g, const Want& w, std::string& how) {
  int t = (int)g.irange(0, 5);
  std::vector<double> sv(w.params.data(), w.params.data() + w.params.size());
  if (t == 0) { how = "get_basis(vector)"; return get_basis(w.name, w.ref.dim, sv); }
  if (t == 1) { how = "get_basis(eigen)"; return get_basis(w.name, w.ref.dim, w.params); }
  if (t == 2) { how = "constructor"; return direct(w); }
  if (t == 3) {
    how = "get";
    if (w.name == "legendre") return BasisLegendre::get(w.ref.dim);
    if (w.name == "lagrange") return g.chance(0.5) ? BasisLagrange::get(w.params) : BasisLagrange::get(sv);
    return Basis0101::get(w.params(0));
  }
  if (t == 4) { how = "clone"; return std::shared_ptr<Basis>(direct(w)->clone()); }
  how = "move_clone";
  auto d = direct(w);
  if (g.chance(0.5)) d->get_derivative_matrix_block(3);
  return std::shared_ptr<Basis>(d->move_clone());
}
static void routes(Ctx& x) {
  Rng& g = x.rng;
  Want w = random_want(g);
  x.d(str(w));
  std::vector<std::shared_ptr<Basis>> all;
  std::vector<std::string> hows;
  int n = (int)g.irange(2, 5);
  for (int i = 0; i < n; i++) {
    std::string how;
    auto b = obtain(g, w, how);
    if (!x.check((bool)b, "null", how)) return;
    x.d(how);
    if (g.chance(0.5)) behaves(x, *b, w, how + " " + str(w));
    all.push_back(b); hows.push_back(how);
    if (i > 0 && g.chance(0.4)) {  // a copy of an object that was already used
      auto c = std::shared_ptr<Basis>(all[g.irange(0, i)]->clone());
      behaves(x, *c, w, "clone of used " + str(w));
      all.push_back(c); hows.push_back("clone");
    }
  }
  for (auto& b : all) behaves(x, *b, w, "finally " + str(w));
  for (size_t i = 0; i < all.size(); i++)
    for (size_t j = 0; j < all.size(); j++) {
      x.check(*all[i] == *all[j], "equal-bases-differ", str(w) + hows[i] + " vs " + hows[j]);
      x.check(!(*all[i] != *all[j]), "inequality", str(w));
    }
  // destroying the source does not matter to the copies
  std::shared_ptr<Basis> last = std::shared_ptr<Basis>(all[0]->clone());
  all.clear();
  behaves(x, *last, w, "survivor " + str(w));
  x.count("bases obtained", n);
}
// equality against every kind of neighbour
static void equality(Ctx& x) {
  Rng& g = x.rng;
  Want a = random_want(g), b = a;
  int t = (int)g.irange(0, 4);
  std::string what;
  if (t == 0) { b = random_want(g); what = "another"; 
    if (b.name == a.name && b.ref.dim == a.ref.dim) {
      double diff = a.params.size() ? (a.params - b.params).cwiseAbs().maxCoeff() : 0.0;
      if (diff == 0) what = "same"; else if (diff < 1e-5) return;  // equality is approximate
    } }
  else if (t == 1 && a.name == "legendre") { b.ref.dim += g.chance(0.5) || a.ref.dim == 1 ? 1 : -1; what = "dimension"; }
  else if (t <= 3 && a.name == "lagrange") {
    int k = (int)g.irange(0, a.ref.dim - 1);
    bool close = g.chance(0.3);  // the tolerance is about 1e-6, relative to the largest parameter
    double step = g.sgn() * (close ? g.logu(1e-9, 3e-7) * a.params.cwiseAbs().maxCoeff() : g.logu(4e-6, 1e-2));
    b.params(k) += step; b.ref.nodes[k] = b.params(k); what = close ? "same" : "one-node";
    for (int i = 0; i < a.ref.dim; i++) if (i != k && std::fabs(b.params(i) - b.params(k)) < 1e-6) return;
  } else if (t <= 3 && a.name == "basis0101") { bool close = g.chance(0.3); b.params(0) *= 1 - (close ? g.logu(1e-9, 3e-7) : g.logu(4e-6, 1e-2)); b.ref.alpha = b.params(0); what = close ? "same" : "alpha"; }
  else if (a.name == "lagrange") {
    // one node less
    b.params.conservativeResize(a.ref.dim - 1); b.ref.dim--; b.ref.nodes.pop_back(); what = "one-node-less";
    if (b.ref.dim < 1) return;
  } else what = "same";
  x.d(what); x.d(str(a)); x.d(str(b));
  std::string h1, h2;
  auto p = obtain(g, a, h1), q = obtain(g, b, h2);
  if (g.chance(0.3)) p->get_derivative_matrix_block(2);
  bool eq = what == "same";
  x.check((*p == *q) == eq, "equality", what + " " + str(a) + " vs " + str(b));
  x.check((*q == *p) == eq, "equality-symmetry", what + " " + str(a) + " vs " + str(b));
  x.check((*p != *q) == !eq, "inequality", what + " " + str(a) + " vs " + str(b));
  x.nontrivial = true;
  x.count("pairs " + what);
}
static void refused(Ctx& x) {
  Rng& g = x.rng;
  int t = (int)g.irange(0, 6);
  x.dv("t", t);
  std::string name; size_t dim = (size_t)g.irange(1, 8); std::vector<double> p;
  if (t == 0) name = g.pick(std::vector<std::string>{"", "Legendre", "legendre ", "legend", "lagrang", "lagrangee", "basis010", "basis01011", "bspline", "LEGENDRE", "gll"});
  else if (t == 1) { name = "basis0101"; dim = 6; int n = g.chance(0.5) ? 0 : (int)g.irange(2, 4); for (int i = 0; i < n; i++) p.push_back(0.5); }
  else if (t == 2) { name = "basis0101"; dim = 6; p = {g.pick(std::vector<double>{0.0, 1.0, -0.3, 1.7, std::nan(""), -1e-9, 1.0 + 1e-9})}; }
  else if (t == 3) { name = "legendre"; dim = 0; }
  else if (t == 4) { name = "lagrange"; dim = 0; }
  else {
    name = "lagrange"; dim = (size_t)g.irange(2, 9);
    for (size_t i = 0; i < dim; i++) p.push_back(-1 + 2.0 * i / (dim - 1));
    size_t a = g.irange(0, dim - 1), b = g.irange(0, dim - 1);
    if (a == b) b = (a + 1) % dim;
    p[a] = p[b];
  }
  x.d(name); x.dv("dim", dim); x.d(vec_str(Eigen::Map<VX>(p.data(), p.size()), 10));
  bool vec = g.chance(0.5);
  bool ok = throws([&] { if (vec) get_basis(name, dim, p); else get_basis(name, dim, Eigen::Map<VX>(p.data(), p.size())); });
  x.check(ok, "invalid-basis-accepted", name);
  x.nontrivial = true;
  if (name == "lagrange" && dim > 1) x.check(throws([&] { BasisLagrange b(p); }), "repeated-nodes-accepted", "constructor");
}
static void register_all() {
  scenario("routes", routes, 4);
  scenario("equality", equality, 4);
  scenario("refused", refused, 1);
}
VH_MAIN
