// C09: functions are values. Digests of every live object are taken before and after
// every operation that may not change it.
#include "funcs.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Interpolator.hpp>
using namespace vh;
using gsplines::GSpline;
using GLLS = gsplines::collocation::GaussLobattoLagrangeSpline;
namespace fa = gsplines::functional_analysis;

struct Digest {
  Dom dom; size_t codom; VX pts; MX v, dv;
  bool spline = false; VX co, ta, par; std::string bn; size_t bd = 0;
};
static void digest_spline(Digest& d, const gsplines::GSplineBase& s) {
  d.spline = true; d.co = s.get_coefficients(); d.ta = s.get_interval_lengths();
  d.bn = s.get_basis_name(); d.bd = s.get_basis_dim(); d.par = s.get_basis().get_parameters();
}
static bool bits(const MX& a, const MX& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0);
}
// elements that overflowed say nothing
static bool near(const MX& a, const MX& b, double rel) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  double m = 1;
  for (long i = 0; i < b.size(); i++) if (std::fabs(b.data()[i]) < 1e100) m = std::max(m, std::fabs(b.data()[i]));
  for (long i = 0; i < b.size(); i++) {
    if (!(std::fabs(b.data()[i]) < 1e100)) continue;
    if (!(std::fabs(a.data()[i] - b.data()[i]) <= rel * m)) return false;
  }
  return true;
}
static Digest digest(const FB& f, const VX& pts, bool deriv = true) {
  Digest d;
  d.dom = f.get_domain(); d.codom = f.get_codom_dim(); d.pts = pts;
  d.v = f(pts);
  if (deriv) d.dv = f.derivate()(pts);
  if (auto s = dynamic_cast<const gsplines::GSplineBase*>(&f)) digest_spline(d, *s);
  return d;
}
// "" when the object still is what it was
static std::string diff(const Digest& d, const FB& f, bool exact = true) {
  if (f.get_domain() != d.dom) return "domain";
  if (f.get_codom_dim() != d.codom) return "codomain";
  MX v = f(d.pts);
  if (exact ? !bits(v, d.v) : (v.rows() != d.v.rows() || v.cols() != d.v.cols())) return "value";
  if (!exact && !near(v, d.v, 1e-11)) return "value";
  if (d.dv.size() || d.pts.size() == 0) {
    MX dv = f.derivate()(d.pts);
    if (exact && !bits(dv, d.dv)) return "derivative";
    if (!exact && !near(dv, d.dv, 1e-10)) return "derivative";
  }
  if (d.spline) {
    auto s = dynamic_cast<const gsplines::GSplineBase*>(&f);
    if (s) {
      if (!same_bits(s->get_coefficients(), d.co)) return "coefficients";
      if (!same_bits(s->get_interval_lengths(), d.ta)) return "intervals";
      if (s->get_basis_name() != d.bn || s->get_basis_dim() != d.bd || !same_bits(s->get_basis().get_parameters(), d.par)) return "basis";
    }
  }
  return "";
}
static VX fixed_points(Rng& g, Dom d) {
  VX t(5);
  for (int i = 0; i < 5; i++) t(i) = d.first + (d.second - d.first) * ((i + g.uni(0.2, 0.8)) / 5);
  return t;
}
static void keep(Ctx& c, const Digest& d, const FB& f, const std::string& op) {
  c.count("digests");
  std::string w = diff(d, f);
  c.check(w.empty(), "changed:" + op + ":" + w, op + " changed the " + w + " of an operand");
  if (d.v.size() && d.v.cwiseAbs().maxCoeff() > 1e-3) c.nontrivial = true;
}
// codomain-compatible random functions a,b,(scalar) s, and e following a in time
// concatenations refuse points outside their domain; a composition may lead there
static bool defined(Ctx& c, std::initializer_list<std::pair<const FB*, const VX*>> fs) {
  for (auto& f : fs) {
    try { (*f.first)(*f.second); } catch (const std::exception&) { c.count("undefined-there"); return false; }
  }
  return true;
}
static void operands(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.irange(1, 3);
  Fn fa_ = random_fn(g, d, k, (int)g.irange(1, 4)), fb = random_fn(g, d, k, (int)g.irange(1, 4));
  Fn fs = random_fn(g, d, 1, (int)g.irange(1, 3));
  Dom d2{d.second, d.second + g.uni(0.3, 1.5)};
  Fn fe = random_fn(g, d2, k, (int)g.irange(1, 3));
  c.d(fa_.ref->str()); c.d(fb.ref->str()); c.d(fs.ref->str()); c.d(fe.ref->str());
  FE a = fa_.expr(), b = fb.expr(), s = fs.expr(), e = fe.expr();
  const FB &la = *fa_.lib, &lb = *fb.lib, &ls = *fs.lib, &le = *fe.lib;
  VX p = fixed_points(g, d), p2 = fixed_points(g, d2);
  if (!defined(c, {{&la, &p}, {&lb, &p}, {&ls, &p}, {&le, &p2}})) return;
  bool dr = fa_.ref->cost(1) + fb.ref->cost(1) + fs.ref->cost(1) + fe.ref->cost(1) < 400;
  std::vector<std::pair<const FB*, Digest>> live = {{&a, digest(a, p, dr)}, {&b, digest(b, p, dr)}, {&s, digest(s, p, dr)}, {&e, digest(e, p2, dr)},
                                                     {&la, digest(la, p, dr)}, {&lb, digest(lb, p, dr)}, {&ls, digest(ls, p, dr)}, {&le, digest(le, p2, dr)}};
  std::list<FE> results;
  auto all = [&](const std::string& op) { for (auto& l : live) keep(c, l.second, *l.first, op); };
  const FE &ca = a, &cb = b, &cs = s, &ce = e;
  for (int it = 0; it < 8; it++) {
    std::string op;
    int cat = (int)g.irange(0, 2);  // cc, cr (copy of b moved), rc (copy of a moved)
    int o = (int)g.irange(0, 15);
    bool base = g.chance(0.4);
    auto bin = [&](int which, const FE& x, const FB& lx, const FE& y) {
      FE xc(x), yc(y);
      if (base) {
        op = std::string("base-") + opn(which) + "/" + std::to_string(cat);
        if (cat == 0) switch (which) {
            case ADD: results.push_back(lx + y); break;
            case SUB: results.push_back(lx - y); break;
            case MUL: results.push_back(lx * y); break;
            case COMP: results.push_back(lx.compose(y)); break;
            default: results.push_back(lx.concat(y)); break;
          }
        else if (cat == 1) switch (which) {
            case ADD: results.push_back(lx + std::move(yc)); break;
            case SUB: results.push_back(lx - std::move(yc)); break;
            case MUL: results.push_back(lx * std::move(yc)); break;
            case COMP: results.push_back(lx.compose(std::move(yc))); break;
            default: results.push_back(lx.concat(std::move(yc))); break;
          }
        else { auto m = lx.clone(); switch (which) {
            case ADD: results.push_back(std::move(*m) + y); break;
            case SUB: results.push_back(std::move(*m) - y); break;
            case MUL: results.push_back(std::move(*m) * y); break;
            case COMP: results.push_back(std::move(*m).compose(y)); break;
            default: results.push_back(std::move(*m).concat(y)); break;
          } }
      } else {
        op = std::string(opn(which)) + "/" + std::to_string(cat);
        // constant operands are the originals, moved ones are copies
        if (cat == 0) results.push_back(apply_fe(which, 0, const_cast<FE&>(x), const_cast<FE&>(y)));
        else if (cat == 1) results.push_back(apply_fe(which, 1, const_cast<FE&>(x), yc));
        else results.push_back(apply_fe(which, 2, xc, const_cast<FE&>(y)));
      }
    };
    switch (o) {
      case 0: bin(ADD, ca, la, cb); break;
      case 1: bin(SUB, ca, la, cb); break;
      case 2: bin(MUL, ca, la, cs); break;
      case 3: bin(MUL, cs, ls, cb); break;
      case 4: bin(COMP, ca, la, cs); break;
      case 5: bin(CAT, ca, la, ce); break;
      case 6: op = "neg"; results.push_back(base ? -la : -ca); break;
      case 7: op = "number*"; results.push_back(g.num(-2, 2) * ca); break;
      case 8: op = "derivate"; if (dr) { results.push_back(base ? la.derivate(2) : ca.derivate(1)); } break;
      case 9: op = "to_expression"; results.push_back(base ? la.to_expression() : ca.to_expression()); break;
      case 10: op = "dot"; { fns::DotProduct q = base ? la.dot(lb) : ca.dot(cb); results.push_back(q.to_expression()); } break;
      case 11: op = "integral"; fa::integral(base ? ls : (const FB&)cs, 4, 3); fa::l2_norm(ca, 3, 2);
        if (dr) fa::sobolev_inner_product(ca, lb, 1, 3, 2);
        break;
      case 12: op = "evaluate"; { MX r(p.size(), k); VX q = p; la.value(q, r); c.check(same_bits(q, p), "changed:evaluate:points", ""); } break;
      case 13: op = "gll-approximate"; { GLLS q = GLLS::approximate(base ? la : (const FB&)ca, 4, 3); results.push_back(q.to_expression()); } break;
      case 14: op = "compound-assign"; { FE q(ca); if (g.chance(0.5)) q += cb; else q *= cs; results.push_back(std::move(q)); } break;
      default: op = "copy"; { FE q(ca); auto cl = lb.clone(); FE w(*cl); results.push_back(q + w); }
    }
    all(op);
    // the results may be changed, copied and destroyed without showing in the operands
    if (!results.empty() && g.chance(0.7)) {
      FE& r = results.back();
      VX pr = fixed_points(g, r.get_domain());
      auto cl = r.clone();
      Digest dc = digest(*cl, pr, false);
      FE one(fns::ConstFunction(r.get_domain(), 1, 3.0).to_expression());
      r *= one;
      FE self(r);
      r += self;
      all("change-result-of-" + op);
      keep(c, dc, *cl, "change-source-of-clone");
      MX got = r(pr);
      c.check(near(got, 6 * dc.v, 1e-11), "compound:result-wrong", op);
      if (g.chance(0.5)) { results.pop_back(); all("destroy-result-of-" + op); }
    }
  }
  results.clear();
  all("destroy-results");
}
// copies and sources are independent in both directions
static void copies(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.irange(1, 3);
  Fn fa_ = random_fn(g, d, k, (int)g.irange(1, 5));
  Fn fs = random_fn(g, d, 1, 1), fb = random_fn(g, d, k, 1);
  c.d(fa_.ref->str());
  VX p = fixed_points(g, d);
  if (!defined(c, {{fa_.lib.get(), &p}, {fb.lib.get(), &p}, {fs.lib.get(), &p}})) return;
  bool dr = fa_.ref->cost(1) < 300;
  Digest d0 = digest(*fa_.lib, p, dr);
  auto src = std::make_unique<FE>(fa_.expr());
  std::vector<std::unique_ptr<FB>> copies;
  std::vector<std::string> how;
  auto add = [&](std::unique_ptr<FB> f, const char* h) { copies.push_back(std::move(f)); how.push_back(h); };
  add(std::make_unique<FE>(*src), "copy");
  add(((const FE&)*src).clone(), "clone");
  add(std::make_unique<FE>(((const FE&)*src).to_expression()), "to_expression");
  add(fa_.lib->clone(), "base-clone");
  add(std::make_unique<FE>(*fa_.lib), "from-base");
  add(std::make_unique<FE>(*fa_.lib->clone()), "from-temporary-base");
  { FE t(*src); add(std::make_unique<FE>(FE(t)), "copy-of-copy"); t += fb.expr(); }
  for (size_t i = 0; i < copies.size(); i++) {
    std::string w = diff(d0, *copies[i], false);
    c.check(w.empty(), "copy-differs:" + how[i] + ":" + w, fa_.ref->str());
  }
  std::vector<Digest> dc;
  for (auto& q : copies) dc.push_back(digest(*q, p, dr));
  auto rest = [&](const std::string& op, size_t skip) {
    for (size_t i = 0; i < copies.size(); i++) if (i != skip && copies[i]) keep(c, dc[i], *copies[i], op + "-seen-in-" + how[i]);
  };
  int n = 0;
  for (int it = 0; it < 4; it++) {
    switch (g.irange(0, 3)) {
      case 0: *src += fb.expr(); rest("source+=", (size_t)-1); break;
      case 1: *src *= fs.expr(); rest("source*=", (size_t)-1); break;
      case 2: {
        size_t i = g.irange(0, (long)copies.size() - 1);
        if (!copies[i]) break;
        if (auto f = dynamic_cast<FE*>(copies[i].get())) { FE t = fb.expr(); *f += t; Digest ds = digest(*src, p, false); rest("copy+=", i); dc[i] = digest(*f, p, dr); keep(c, ds, *src, "copy+=-seen-in-source"); }
        break;
      }
      default: {
        size_t i = g.irange(0, (long)copies.size() - 1);
        if (!copies[i]) break;
        Digest ds = digest(*src, p, false);
        if (g.chance(0.5)) copies[i].reset();
        else { auto moved = std::move(*copies[i]).clone(); keep(c, dc[i], *moved, "moved-from-copy"); copies[i].reset(); }
        rest("destroy-copy", i);
        keep(c, ds, *src, "destroy-copy-seen-in-source");
        n++;
      }
    }
  }
  src.reset();
  fa_.lib.reset();
  rest("destroy-source", (size_t)-1);
}
// a moved-to object is the function that was moved
static void moves(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.irange(1, 3);
  Fn f = random_fn(g, d, k, g.chance(0.4) ? 1 : (int)g.irange(2, 5));
  c.d(f.ref->str());
  VX p = fixed_points(g, d);
  if (!defined(c, {{f.lib.get(), &p}})) return;
  bool dr = f.ref->cost(1) < 300;
  Digest d0 = digest(*f.lib, p, dr);
  auto E = [&](const FB& x, const char* h) {
    std::string w = diff(d0, x, false);
    c.check(w.empty(), std::string("moved-differs:") + h + ":" + w, f.ref->str());
    c.count("moves");
  };
  { auto q = f.lib->clone(); auto m = std::move(*q).clone(); E(*m, "clone&&"); auto m2 = m->move_clone(); q.reset(); m.reset(); E(*m2, "move_clone"); }
  { auto q = f.lib->clone(); FE m = std::move(*q).to_expression(); q.reset(); E(m, "to_expression&&"); FE m2(std::move(m)); E(m2, "FE&&"); FE m3 = std::move(m2).to_expression(); E(m3, "FE-to_expression&&"); }
  { auto q = f.lib->clone(); FE m(std::move(*q)); q.reset(); E(m, "FE(base&&)"); auto m2 = std::move(m).clone(); E(*m2, "FE-clone&&"); auto m3 = m2->move_clone(); m2.reset(); E(*m3, "FE-move_clone"); }
  if (auto s = dynamic_cast<const GSpline*>(f.lib.get())) { GSpline q(*s); GSpline m(std::move(q)); E(m, "GSpline&&"); auto m2 = std::move(m).clone(); E(*m2, "GSpline-clone&&"); }
  if (auto s = dynamic_cast<const fns::CanonicPolynomial*>(f.lib.get())) { fns::CanonicPolynomial q(*s); fns::CanonicPolynomial m(std::move(q)); E(m, "CanonicPolynomial&&"); }
  if (auto s = dynamic_cast<const fns::DotProduct*>(f.lib.get())) { fns::DotProduct q(*s); fns::DotProduct m(std::move(q)); E(m, "DotProduct&&"); }
  if (auto s = dynamic_cast<const fns::ConstFunction*>(f.lib.get())) { fns::ConstFunction q(*s); fns::ConstFunction m(std::move(q)); E(m, "ConstFunction&&"); }
  keep(c, d0, *f.lib, "moves-of-copies");
  // moved operands of operations: the result is the same as with constant ones
  Fn b = random_fn(g, d, k, 2), s = random_fn(g, d, 1, 2);
  FE fe = f.expr(), be = b.expr(), se = s.expr();
  auto P = [&](int op, const FE& x, const FE& y) {
    FE x0(x), y0(y);
    MX ref;
    try { ref = apply_fe(op, 0, x0, y0)(p); } catch (const std::exception&) { c.count("undefined-there"); return; }
    for (int cat = 1; cat < 4; cat++) {
      FE x1(x), y1(y);
      FE r = apply_fe(op, cat, x1, y1);
      MX got = r(p);
      c.check(near(got, ref, 1e-11),
              std::string("moved-operand:") + opn(op) + "/" + std::to_string(cat), f.ref->str());
    }
  };
  P(ADD, fe, be); P(SUB, fe, be); P(MUL, fe, se); P(MUL, se, fe); P(COMP, fe, se);
}
static void splines(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b = random_basis(g, 1, 7);
  int n = (int)g.size(1, 5, 12), k = (int)g.size(1, 3, 7);
  RefSpline r = random_ref_spline(g, b.ref, n, k, g.chance(0.5)), r2 = r;
  for (long i = 0; i < r2.coeff.size(); i++) r2.coeff(i) = g.uni(-1, 1);
  c.d(b.str()); c.dv("n", n); c.dv("k", k); c.d(vec_str(r.coeff, 3));
  VX co = r.coeff, ta = r.taus;
  auto bas = b.lib->clone();
  auto S = std::make_unique<GSpline>(Dom{r.t0, r.t0 + r.taus.sum()}, k, n, *bas, co, ta);
  auto S2 = std::make_unique<GSpline>(to_lib(r2, *bas));
  VX p = fixed_points(g, S->get_domain());
  Digest d0 = digest(*S, p), d2 = digest(*S2, p);
  c.check(same_bits(d0.co, r.coeff) && same_bits(d0.ta, r.taus), "spline:coefficients", "");
  co.setConstant(1e9); ta.setConstant(1e9);
  keep(c, d0, *S, "overwrite-constructor-arguments");
  { // the basis it was built from is used for something else and destroyed
    MX D = bas->get_derivative_matrix_block(3);
    VX buf(b.ref.dim);
    bas->eval_derivative_on_window(0.3, 7.7, 2, buf);
    bas->eval_derivative_wrt_tau_on_window(-0.3, 0.1, 1, buf);
    bas.reset();
  }
  keep(c, d0, *S, "use-and-destroy-basis");
  const GSpline &s = *S, &t = *S2;
  for (int it = 0; it < 6; it++) {
    std::string op;
    switch (g.irange(0, 11)) {
      case 0: op = "spline-add"; { GSpline q = s + t, w = s + GSpline(t); q += w; } break;
      case 1: op = "spline-sub"; { GSpline q = s - t, w = GSpline(s) - t; q -= w; q -= t; } break;
      case 2: op = "spline-scale"; { GSpline q = 3.0 * s, w = s * 0.5; q += w; } break;
      case 3: op = "spline-neg"; { GSpline q = -s; q += t; q += q; } break;
      case 4: op = "spline-derivate"; { auto q = s.deriv((int)g.irange(0, 9)); FE w = s.derivate(2); w += s.to_expression(); } break;
      case 5: op = "new-execution-time"; { GSpline q = s.linear_scaling_new_execution_time(g.logu(0.1, 30)); q += q; } break;
      case 6: op = "limits"; if (b.ref.kind != B0101 && b.ref.dim > 1 && s.derivate()(p).cwiseAbs().maxCoeff() > 0.05)
          s.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(g.logu(0.1, 5)), std::optional<double>(), s.get_domain_length() / 20);
        break;
      case 7: op = "spline-copy"; { GSpline q(s); q += t; GSpline w(std::move(q)); w -= s; auto cl = s.clone(); auto mv = std::move(*cl).clone(); } break;
      case 8: op = "waypoints"; { MX w = s.get_waypoints(); VX bp = s.get_domain_breakpoints(); w.setZero(); bp.setZero(); } break;
      case 9: op = "compare"; { bool q = s == t; bool w = s != t; bool e = s.same_vector_space(t); (void)q; (void)w; (void)e; } break;
      case 10: op = "gll-approximate"; { GLLS q = GLLS::approximate(s, 5, 2); GLLS w = 2.0 * q; w += q; } break;
      default: op = "basis-clone"; { auto q = s.get_basis().clone(); VX buf(b.ref.dim); q->eval_on_window(0.1, 3.0, buf); q->get_derivative_matrix_block(4); auto m = q->move_clone(); (void)m; } break;
    }
    keep(c, d0, s, op);
    keep(c, d2, t, op);
  }
  // copies survive changes and destruction of the source, and the other way round
  GSpline cp(s), cp2(s);
  auto cl = s.clone();
  FE ex = s.to_expression();
  Digest de = digest(ex, p);
  cp += t;
  keep(c, d0, s, "spline-copy+=");
  keep(c, d0, cp2, "spline-copy+=-in-sibling");
  *S -= t;
  keep(c, d0, cp2, "spline-source-=");
  keep(c, d0, *cl, "spline-source-=-in-clone");
  keep(c, de, ex, "spline-source-=-in-expression");
  S.reset(); S2.reset();
  keep(c, d0, cp2, "spline-source-destroyed");
  keep(c, d0, *cl, "spline-source-destroyed-in-clone");
  keep(c, de, ex, "spline-source-destroyed-in-expression");
  GSpline mv(std::move(cp2));
  keep(c, d0, mv, "spline-moved");
}
static void interpolation(Ctx& c) {
  Rng& g = c.rng;
  BasisPair b = random_basis(g, 4, 6, true);
  int n = (int)g.size(1, 5, 12), k = (int)g.size(1, 3, 7);
  c.d(b.str()); c.dv("n", n); c.dv("k", k);
  VX ta(n); MX wp(n + 1, k);
  auto fill = [&] { for (int i = 0; i < n; i++) ta(i) = g.uni(0.5, 2); for (long i = 0; i < wp.size(); i++) wp.data()[i] = g.uni(-2, 2); };
  fill();
  auto bas = b.lib->clone();
  auto I = std::make_unique<gsplines::Interpolator>(k, n, *bas);
  bas.reset();
  std::list<GSpline> got;
  std::list<Digest> dg;
  for (int it = 0; it < 5; it++) {
    fill();
    const VX ta0 = ta; const MX wp0 = wp;
    if (it == 3) {
      fa::SobolevNorm nrm(wp, *b.lib, {{1, 1.0}, {b.ref.kind == B0101 ? 3 : 2, 0.5}});
      double v0 = nrm(ta);
      VX gr(n); nrm.deriv_wrt_interval_len(ta, gr);
      c.check(same_bits(ta, ta0) && bits(wp, wp0), "changed:sobolev:arguments", "");
      wp.setConstant(77);
      c.check(nrm(ta) == v0, "changed:sobolev:waypoints-aliased", "");
      wp = wp0;
    }
    got.push_back(I->interpolate(ta, wp));
    c.check(same_bits(ta, ta0) && bits(wp, wp0), "changed:interpolate:arguments", "");
    VX p = fixed_points(g, got.back().get_domain());
    dg.push_back(digest(got.back(), p));
    if (g.chance(0.6)) { VX cf = got.back().get_coefficients(), cf0 = cf; I->get_coeff_derivative_wrt_tau(cf, ta, g.irange(0, n - 1)); c.check(same_bits(cf, cf0) && same_bits(ta, ta0), "changed:sensitivity:arguments", ""); }
    auto d = dg.begin();
    for (auto& s : got) keep(c, *d++, s, "interpolate-again");
  }
  if (g.chance(0.5)) { GSpline s = gsplines::interpolate(ta, wp, *b.lib); }
  I.reset();
  ta.setZero(); wp.setZero();
  auto d = dg.begin();
  for (auto& s : got) keep(c, *d++, s, "interpolator-destroyed");
}
static void collocation(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.size(1, 3, 6), m = (int)g.size(2, 6, 10), n = (int)g.size(1, 4, 9);
  Fn f = random_fn(g, d, k, (int)g.irange(1, 3)), h = random_fn(g, d, 1, 1);
  c.d(f.ref->str()); c.dv("m", m); c.dv("n", n);
  VX p = fixed_points(g, d);
  if (!defined(c, {{f.lib.get(), &p}})) return;
  Digest df = digest(*f.lib, p, false);
  GLLS a = GLLS::approximate(*f.lib, m, n), b = GLLS::approximate(*h.lib, m, n);
  keep(c, df, *f.lib, "approximate");
  Digest da = digest(a, p), db = digest(b, p);
  const GLLS &ca = a, &cb = b;
  VX v = VX::Constant(k, 1.5);
  auto K = [&](const char* op) { keep(c, da, a, op); keep(c, db, b, op); };
  { GLLS q = ca * cb; q = q + q; K("gll-product"); }
  { GLLS q = cb * ca; GLLS w = cb * GLLS(ca), z = GLLS(cb) * ca; K("gll-scalar-product"); }
  { GLLS q = ca + ca; q += ca; GLLS w = ca - ca; w -= q; K("gll-sum"); }
  { GLLS q = 2.0 * ca; GLLS w = ca * 3.0; w += q; K("gll-scale"); }
  { GLLS q = v + ca; GLLS w = ca + v, x = v - ca, y = ca - v; w += q; w += x; w += y; K("gll-vector"); }
  { GLLS q = -ca; q += ca; K("gll-neg"); }
  { GLLS q = gsplines::collocation::norm(ca); q += q; K("gll-norm"); }
  { GLLS q = gsplines::collocation::pow(cb * cb, 2.0); GLLS w = gsplines::collocation::pow(cb, 2.0); w += q; K("gll-pow"); }
  { GLLS z = 10.0 * cb; GLLS q = 1.0 / cb; (void)q; (void)z; K("gll-quotient"); }
  { GLLS q(ca); q = ca; q += ca; K("gll-assign"); GLLS w(ca); w = GLLS(2.0 * ca); K("gll-move-assign"); w = *f.lib; keep(c, df, *f.lib, "gll-assign-function"); K("gll-assign-function"); }
  { GLLS q(ca); GLLS w(std::move(q)); keep(c, da, w, "gll-moved"); auto cl = ca.clone(); a += a; keep(c, da, *cl, "gll-source+="); keep(c, da, w, "gll-source+="); }
}
static void register_all() {
  scenario("operands", operands, 3);
  scenario("copies", copies, 3);
  scenario("moves", moves, 2);
  scenario("splines", splines, 2);
  scenario("interpolation", interpolation, 1);
  scenario("collocation", collocation, 1);
}
VH_MAIN
