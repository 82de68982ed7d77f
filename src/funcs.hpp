// Random function expressions built in the library and, in parallel, as a reference
// tree evaluated with long double Taylor jets.
#pragma once
#include "vh.hpp"
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionBase.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>

namespace vh {
namespace fns = gsplines::functions;
using Dom = std::pair<double, double>;
using FE = fns::FunctionExpression;
using FB = fns::FunctionBase;

// state of one reference evaluation
struct Ev {
  bool exact = true;      // the argument is exactly the double that the library sees
  bool ambiguous = false; // too close to a break of a piecewise part to say which side
  Rng* pert = nullptr;    // perturb every intermediate result (to measure conditioning)
  int deg = 0;
  // weight of one perturbation; not of fixed size, so that equal terms do not cancel exactly
  ld w() { return (ld)(pert->sgn() * pert->uni(0.5, 1.5)); }
};
constexpr ld DELTA = 1e-9L;
using Jets = std::vector<Jet>;
inline void jiggle(Jets& j, Ev& e, ld floor_ = 0) {
  if (!e.pert) return;
  for (auto& q : j)
    for (auto& v : q.c) v += DELTA * std::max(fabsl(v), floor_) * e.w();
}

struct RefFn {
  Dom dom; int codom = 1;
  virtual ~RefFn() = default;
  virtual Jets ev(const Jet& t, Ev& e) const = 0;
  virtual std::string str() const = 0;
  // rough number of elementary evaluations after differentiating deg times
  virtual double cost(int deg) const { return 1; }
  virtual bool smooth() const { return true; }
  virtual int nodes() const { return 1; }
};
using RP = std::shared_ptr<const RefFn>;

struct RLeaf : RefFn {
  enum T { CONST, DIL, ID, EXP, COS, SIN, POLY } t;
  VX p;
  Jets ev(const Jet& x, Ev& e) const override {
    Jets r; int n = x.n();
    // in double precision these arguments overflow or have no correct digits of phase
    if ((t == EXP && fabsl(x.c[0]) > 600) || ((t == COS || t == SIN) && fabsl(x.c[0]) > 1e5L)) e.ambiguous = true;
    switch (t) {
      case CONST: for (int i = 0; i < codom; i++) r.push_back(Jet(n, p(i))); break;
      case DIL: r.push_back((ld)p(0) * x); break;
      case ID: r.push_back(x); break;
      case EXP: r.push_back(vh::exp(x)); break;
      case COS: r.push_back(vh::cos(x)); break;
      case SIN: r.push_back(vh::sin(x)); break;
      case POLY: {
        Jet a(n, 0);
        ld pr = 1;
        for (long i = p.size() - 1; i >= 0; i--) {
          if (e.pert) pr = 1 + DELTA * e.w();
          a = a * x + pr * (ld)p(i);
        }
        r.push_back(a);
      }
    }
    jiggle(r, e, (t == COS || t == SIN) ? 1 : 0);
    return r;
  }
  std::string str() const override {
    static const char* n[] = {"const", "dil", "id", "exp", "cos", "sin", "poly"};
    return std::string(n[t]) + (p.size() ? vec_str(p, 3) : "");
  }
};
struct RSplineFn : RefFn {
  RefSpline s;
  bool smooth() const override { return s.n() == 1; }
  Jets ev(const Jet& x, Ev& e) const override {
    auto bp = s.bps();
    for (size_t i = 1; i + 1 < bp.size(); i++) {
      ld d = fabsl(x.v() - bp[i]);
      bool near = d <= 1e-7L * (1 + fabsl(bp[i]));
      if (near && (e.deg > 0 || d != 0 || !e.exact)) e.ambiguous = true;
    }
    // far outside its domain a spline extrapolates with unbounded condition
    ld len = bp.back() - bp.front();
    if (x.v() < bp.front() - 0.25L * len || x.v() > bp.back() + 0.25L * len) e.ambiguous = true;
    int i = s.piece(x.v());
    Jets r;
    RefSpline q = s;
    if (e.pert) for (long k = 0; k < q.coeff.size(); k++) q.coeff(k) *= 1 + (double)DELTA * (double)e.w();
    for (int c = 0; c < codom; c++) r.push_back(q.jet(i, c, x));
    if (e.pert) {  // derivative matrices round relative to their largest entries
      ld cm = s.coeff.cwiseAbs().maxCoeff(), f = cm;
      ld g = s.b.kind == B0101 ? 2 * s.b.k() : 2.0L * s.b.dim * s.b.dim / (ld)s.taus(i);
      ld xm = 0; for (size_t k = 1; k < x.c.size(); k++) xm = std::max(xm, powl(fabsl(x.c[k]), 1.0L / k));
      for (int k = 0; k <= x.n(); k++) { for (auto& j : r) j.c[k] += DELTA * f * e.w(); f *= g * xm / (k + 1); }
    }
    jiggle(r, e);
    return r;
  }
  std::string str() const override { return std::string("spline<") + kname(s.b.kind) + std::to_string(s.b.dim) + ",n" + std::to_string(s.n()) + ">"; }
  double cost(int) const override { return 2; }
};
struct RSum : RefFn {
  RP a, b; ld sb = 1;
  int nodes() const override { return a->nodes() + b->nodes(); }
  bool smooth() const override { return a->smooth() && b->smooth(); }
  Jets ev(const Jet& x, Ev& e) const override {
    Jets p = a->ev(x, e), q = b->ev(x, e), r;
    for (int i = 0; i < codom; i++) r.push_back(p[i] + sb * q[i]);
    jiggle(r, e);
    return r;
  }
  std::string str() const override { return "(" + a->str() + (sb > 0 ? "+" : "-") + b->str() + ")"; }
  double cost(int d) const override { return a->cost(d) + b->cost(d); }
};
struct RScale : RefFn {
  RP a; ld s; bool neg = false;
  int nodes() const override { return a->nodes(); }
  bool smooth() const override { return a->smooth(); }
  Jets ev(const Jet& x, Ev& e) const override {
    Jets p = a->ev(x, e);
    for (auto& j : p) j = s * j;
    jiggle(p, e);
    return p;
  }
  std::string str() const override { std::ostringstream o; if (neg) o << "-" << a->str(); else o << (double)s << "*" << a->str(); return o.str(); }
  double cost(int d) const override { return a->cost(d) * (neg ? 1 : (d + 1)); }
};
struct RMul : RefFn {
  RP a, b;
  int nodes() const override { return a->nodes() + b->nodes(); }
  bool smooth() const override { return a->smooth() && b->smooth(); }
  Jets ev(const Jet& x, Ev& e) const override {
    Jets p = a->ev(x, e), q = b->ev(x, e), r;
    const Jets& v = p.size() >= q.size() ? p : q;
    const Jets& s = p.size() >= q.size() ? q : p;
    for (auto& j : v) r.push_back(j * s[0]);
    jiggle(r, e);
    return r;
  }
  std::string str() const override { return "(" + a->str() + "*" + b->str() + ")"; }
  double cost(int d) const override {
    double r = 0, bin = 1;
    for (int k = 0; k <= d; k++) { r += bin * (a->cost(k) + b->cost(d - k)); bin = bin * (d - k) / (k + 1); }
    return r;
  }
};
struct RDot : RefFn {
  RP a, b;
  int nodes() const override { return a->nodes() + b->nodes(); }
  bool smooth() const override { return a->smooth() && b->smooth(); }
  Jets ev(const Jet& x, Ev& e) const override {
    Jets p = a->ev(x, e), q = b->ev(x, e);
    Jet r(x.n(), 0);
    for (size_t i = 0; i < p.size(); i++) { Jets t{p[i] * q[i]}; jiggle(t, e); r = r + t[0]; }
    Jets o{r}; jiggle(o, e);
    return o;
  }
  std::string str() const override { return "<" + a->str() + "," + b->str() + ">"; }
  double cost(int d) const override {
    double r = 0, bin = 1;
    for (int k = 0; k <= d; k++) { r += bin * (a->cost(k) + b->cost(d - k)); bin = bin * (d - k) / (k + 1); }
    return r;
  }
};
struct RComp : RefFn {
  RP f, g;  // f after g
  int nodes() const override { return f->nodes() + g->nodes(); }
  bool smooth() const override { return f->smooth() && g->smooth(); }
  Jets ev(const Jet& x, Ev& e) const override {
    Jets q = g->ev(x, e);
    bool ex = e.exact; e.exact = false;
    Jets r = f->ev(q[0], e);
    e.exact = ex;
    jiggle(r, e);
    return r;
  }
  std::string str() const override { return f->str() + "o" + g->str(); }
  double cost(int d) const override {
    double m = 1; for (int k = 0; k < d; k++) m *= (k + 2);
    return (f->cost(d) + g->cost(d)) * m * (1 + 0.5 * d);
  }
};
struct RCat : RefFn {
  std::vector<RP> p;
  int nodes() const override { int n = 0; for (auto& q : p) n += q->nodes(); return n; }
  bool smooth() const override { return false; }
  Jets ev(const Jet& x, Ev& e) const override {
    ld v = x.v();
    for (size_t i = 1; i < p.size(); i++) {
      ld d = fabsl(v - (ld)p[i]->dom.first);
      if (d <= 1e-7L * (1 + fabsl(v)) && (e.deg > 0 || d != 0 || !e.exact)) e.ambiguous = true;
    }
    if (v < p.front()->dom.first || v > p.back()->dom.second) e.ambiguous = true;  // outside: no promise
    if (!e.exact && (fabsl(v - p.front()->dom.first) < 1e-7L || fabsl(v - p.back()->dom.second) < 1e-7L)) e.ambiguous = true;
    size_t k = 0;
    for (size_t i = 1; i < p.size(); i++) if (v >= p[i]->dom.first) k = i;
    Jets r = p[k]->ev(x, e);
    return r;
  }
  std::string str() const override { std::string s = "["; for (auto& q : p) s += q->str() + "|"; return s + "]"; }
  double cost(int d) const override { double r = 0; for (auto& q : p) r += q->cost(d); return r; }
};

// ---- library side
struct Fn {
  std::unique_ptr<FB> lib;        // the concrete object (leaf, spline, dot product or expression)
  RP ref;
  const FE* fe() const { return dynamic_cast<const FE*>(lib.get()); }
  FE expr() const { if (fe()) return FE(*fe()); return lib->to_expression(); }
  Fn copy() const { Fn r; r.lib = lib->clone(); r.ref = ref; return r; }
};
inline Fn mk_leaf(Rng& g, Dom d, int codom, int force = -1) {
  Fn r;
  auto L = std::make_shared<RLeaf>();
  L->dom = d; L->codom = codom;
  int t = force >= 0 ? force : codom > 1 ? RLeaf::CONST : (int)g.irange(0, 6);
  L->t = (RLeaf::T)t;
  switch (t) {
    case RLeaf::CONST: {
      L->p.resize(codom);
      if (g.chance(0.3)) {
        Vals val(g, -2, 2);
        double v = val();
        L->p.setConstant(v);
        r.lib = std::make_unique<fns::ConstFunction>(d, codom, v);
      } else {
        Vals val(g, -2, 2);
        for (int i = 0; i < codom; i++) L->p(i) = val();
        VX q = L->p;
        r.lib = std::make_unique<fns::ConstFunction>(d, q);
      }
      break;
    }
    case RLeaf::DIL: L->p.resize(1); L->p(0) = g.chance(0.15) ? (double)g.irange(-1, 1) : g.uni(-1.5, 1.5); r.lib = std::make_unique<fns::DomainLinearDilation>(d, L->p(0)); break;
    case RLeaf::ID: r.lib = std::make_unique<fns::Identity>(d); break;
    case RLeaf::EXP: r.lib = std::make_unique<fns::Exponential>(d); break;
    case RLeaf::COS: r.lib = std::make_unique<fns::Cos>(d); break;
    case RLeaf::SIN: r.lib = std::make_unique<fns::Sin>(d); break;
    case RLeaf::POLY: {
      int n = (int)g.size(1, 6, 24);
      L->p.resize(n);
      { Vals val(g, -1, 1); for (int i = 0; i < n; i++) L->p(i) = val(); }
      if (g.chance(0.5)) { VX q = L->p; r.lib = std::make_unique<fns::CanonicPolynomial>(d, std::move(q)); }
      else r.lib = std::make_unique<fns::CanonicPolynomial>(d, L->p);
    }
  }
  r.ref = L;
  return r;
}
// a spline on exactly that domain (lengths add up to it with at most a rounding error)
inline Fn mk_spline(Rng& g, Dom d, int codom, int dmax = 6) {
  BasisPair b = random_basis(g, 2, dmax);
  int n = (int)g.size(1, 4, 12);
  auto S = std::make_shared<RSplineFn>();
  S->dom = d; S->codom = codom;
  S->s.b = b.ref; S->s.t0 = d.first; S->s.codom = codom;
  double len = d.second - d.first;
  VX w(n);
  for (int i = 0; i < n; i++) w(i) = g.uni(1, 3);
  w *= len / w.sum();
  S->s.taus = w;
  S->s.coeff.resize((long)n * codom * b.ref.dim);
  Vals val(g, -1, 1);
  for (long i = 0; i < S->s.coeff.size(); i++) S->s.coeff(i) = val();
  Fn r;
  r.lib = std::make_unique<gsplines::GSpline>(d, codom, n, *b.lib, S->s.coeff, w);
  r.ref = S;
  return r;
}
inline Fn mk_atom(Rng& g, Dom d, int codom) {
  if (g.chance(codom > 1 ? 0.7 : 0.3)) return mk_spline(g, d, codom);
  return mk_leaf(g, d, codom);
}

template <class R> inline RP mkref(Dom d, int codom, std::function<void(R&)> f) {
  auto r = std::make_shared<R>();
  r->dom = d; r->codom = codom; f(*r);
  return r;
}
inline RP r_sum(RP a, RP b, ld s) { return mkref<RSum>(a->dom, a->codom, [&](RSum& r) { r.a = a; r.b = b; r.sb = s; }); }
inline RP r_neg(RP a) { return mkref<RScale>(a->dom, a->codom, [&](RScale& r) { r.a = a; r.s = -1; r.neg = true; }); }
inline RP r_scale(RP a, double s) { return mkref<RScale>(a->dom, a->codom, [&](RScale& r) { r.a = a; r.s = s; }); }
inline RP r_mul(RP a, RP b) { return mkref<RMul>(a->dom, std::max(a->codom, b->codom), [&](RMul& r) { r.a = a; r.b = b; }); }
inline RP r_dot(RP a, RP b) { return mkref<RDot>(a->dom, 1, [&](RDot& r) { r.a = a; r.b = b; }); }
inline RP r_comp(RP f, RP g) { return mkref<RComp>(g->dom, f->codom, [&](RComp& r) { r.f = f; r.g = g; }); }
inline RP r_cat(RP a, RP b) {
  return mkref<RCat>(Dom{a->dom.first, b->dom.second}, a->codom, [&](RCat& r) { r.p = {a, b}; });
}
inline Fn wrap(FE&& e, RP r) { Fn f; f.lib = std::make_unique<FE>(std::move(e)); f.ref = r; return f; }

enum Op { ADD, SUB, MUL, COMP, CAT };
inline const char* opn(int o) { static const char* n[] = {"add", "sub", "mul", "comp", "cat"}; return n[o]; }
// the operation in one of its value-category variants; cat: 0 cc, 1 cr, 2 rc, 3 rr
inline FE apply_fe(int op, int cat, FE& a, FE& b) {
  const FE& ca = a; const FE& cb = b;
#define VARIANTS(EXPR_CC, EXPR_CR, EXPR_RC, EXPR_RR) \
  switch (cat) { case 0: return EXPR_CC; case 1: return EXPR_CR; case 2: return EXPR_RC; default: return EXPR_RR; }
  switch (op) {
    case ADD: VARIANTS(ca + cb, ca + std::move(b), std::move(a) + cb, std::move(a) + std::move(b))
    case SUB: VARIANTS(ca - cb, ca - std::move(b), std::move(a) - cb, std::move(a) - std::move(b))
    case MUL: VARIANTS(ca * cb, ca * std::move(b), std::move(a) * cb, std::move(a) * std::move(b))
    case COMP: VARIANTS(ca.compose(cb), ca.compose(std::move(b)), std::move(a).compose(cb), std::move(a).compose(std::move(b)))
    default: VARIANTS(ca.concat(cb), ca.concat(std::move(b)), std::move(a).concat(cb), std::move(a).concat(std::move(b)))
  }
}
// through the base class (leaf or expression behind a FunctionBase reference)
inline FE apply_fb(int op, int cat, FB& a, FE& b) {
  const FB& ca = a; const FE& cb = b;
  switch (op) {
    case ADD: VARIANTS(ca + cb, ca + std::move(b), std::move(a) + cb, std::move(a) + std::move(b))
    case SUB: VARIANTS(ca - cb, ca - std::move(b), std::move(a) - cb, std::move(a) - std::move(b))
    case MUL: VARIANTS(ca * cb, ca * std::move(b), std::move(a) * cb, std::move(a) * std::move(b))
    case COMP: VARIANTS(ca.compose(cb), ca.compose(std::move(b)), std::move(a).compose(cb), std::move(a).compose(std::move(b)))
    default: VARIANTS(ca.concat(cb), ca.concat(std::move(b)), std::move(a).concat(cb), std::move(a).concat(std::move(b)))
  }
#undef VARIANTS
}
inline RP ref_op(int op, RP a, RP b) {
  switch (op) {
    case ADD: return r_sum(a, b, 1);
    case SUB: return r_sum(a, b, -1);
    case MUL: return r_mul(a, b);
    case COMP: return r_comp(a, b);
    default: return r_cat(a, b);
  }
}
inline Dom random_dom(Rng& g) {
  if (g.chance(0.06)) {  // far from the origin, long or short
    double a = (double)g.irange(-320, 320) / 8.0;
    return {a, a + (g.chance(0.5) ? (double)g.irange(1, 20) : g.logu(0.01, 0.3))};
  }
  double a = g.chance(0.3) ? 0.0 : (double)g.irange(-16, 12) / 8.0;
  double l = g.chance(0.5) ? (double)g.irange(2, 16) / 8.0 : g.uni(0.3, 2.0);
  return {a, a + l};
}
// random expression of about `size` leaves
inline Fn random_fn(Rng& g, Dom d, int codom, int size) {
  if (size <= 1) return mk_atom(g, d, codom);
  int k = (int)g.irange(0, 9);
  int ls = (int)g.irange(1, size - 1), rs = size - ls;
  int cat = (int)g.irange(0, 3);
  bool base = g.chance(0.3);
  auto bin = [&](int op, Fn& a, Fn& b) {
    RP r = ref_op(op, a.ref, b.ref);
    FE eb = b.expr();
    if (base) return wrap(apply_fb(op, cat, *a.lib, eb), r);
    FE ea = a.expr();
    return wrap(apply_fe(op, cat, ea, eb), r);
  };
  if (k <= 1) { Fn a = random_fn(g, d, codom, ls), b = random_fn(g, d, codom, rs); return bin(g.chance(0.5) ? ADD : SUB, a, b); }
  if (k <= 3) {
    bool vf = g.chance(0.5);
    Fn a = random_fn(g, d, vf ? codom : 1, ls), b = random_fn(g, d, vf ? 1 : codom, rs);
    return bin(MUL, a, b);
  }
  if (k <= 5) {
    Fn f = random_fn(g, random_dom(g), codom, ls), q = random_fn(g, d, 1, rs);
    return bin(COMP, f, q);
  }
  if (k == 6) {
    double m = d.first + (d.second - d.first) * (double)g.irange(1, 3) / 4.0;
    Fn a = random_fn(g, {d.first, m}, codom, ls), b = random_fn(g, {m, d.second}, codom, rs);
    return bin(CAT, a, b);
  }
  if (k == 7) {
    Fn a = random_fn(g, d, codom, size - 1);
    RP r = r_neg(a.ref);
    const FB& cb = *a.lib;
    if (base) return g.chance(0.5) ? wrap(-cb, r) : wrap(-std::move(*a.lib), r);
    FE e = a.expr();
    const FE& ce = e;
    return g.chance(0.5) ? wrap(-ce, r) : wrap(-std::move(e), r);
  }
  if (k == 8) {
    Fn a = random_fn(g, d, codom, size - 1);
    double s = g.num(-2, 2);
    FE e = a.expr();
    const FE& ce = e;
    return g.chance(0.5) ? wrap(s * ce, r_scale(a.ref, s)) : wrap(s * std::move(e), r_scale(a.ref, s));
  }
  if (codom > 1) { Fn a = random_fn(g, d, codom, ls), b = random_fn(g, d, codom, rs); return bin(ADD, a, b); }
  int c = (int)g.irange(1, 3);
  Fn a = random_fn(g, d, c, ls), b = random_fn(g, d, c, rs);
  Fn r;
  r.ref = r_dot(a.ref, b.ref);
  const FB& ca = *a.lib; const FB& cb = *b.lib;
  switch (cat) {
    case 0: r.lib = std::make_unique<fns::DotProduct>(ca.dot(cb)); break;
    case 1: r.lib = std::make_unique<fns::DotProduct>(ca.dot(std::move(*b.lib))); break;
    case 2: r.lib = std::make_unique<fns::DotProduct>(std::move(*a.lib).dot(cb)); break;
    default: r.lib = std::make_unique<fns::DotProduct>(std::move(*a.lib).dot(std::move(*b.lib))); break;
  }
  return r;
}

// an expression whose outermost operation is the given one, itself of two or three operands
enum Root { R_ATOM, R_SUM, R_NEG, R_MUL, R_COMP, R_CAT, R_UNIQUE, R_N };
inline Fn rooted_fn(Rng& g, Dom d, int codom, int root) {
  auto ap = [&](int op, Fn& a, Fn& b) {
    RP r = ref_op(op, a.ref, b.ref);
    FE ea = a.expr(), eb = b.expr();
    return wrap(apply_fe(op, (int)g.irange(0, 3), ea, eb), r);
  };
  int n = (int)g.irange(2, 3), nl = (int)g.size(2, 3, 9);  // n-ary operations: at times many operands
  switch (root) {
    case R_SUM: { Fn r = mk_atom(g, d, codom); for (int i = 1; i < nl; i++) { Fn b = mk_atom(g, d, codom); r = ap(g.chance(0.5) ? ADD : SUB, r, b); } return r; }
    case R_MUL: { Fn r = mk_atom(g, d, codom); for (int i = 1; i < nl; i++) { Fn b = mk_atom(g, d, 1); r = g.chance(0.5) ? ap(MUL, r, b) : ap(MUL, b, r); } return r; }
    case R_COMP: { Fn r = mk_atom(g, random_dom(g), codom); for (int i = 1; i < n; i++) { Fn b = mk_atom(g, i == n - 1 ? d : random_dom(g), 1); r = ap(COMP, r, b); } return r; }
    case R_CAT: {
      if (nl > 3) {  // a chain of many equal pieces
        double w = (d.second - d.first) / nl, x = d.first;
        Fn r;
        for (int i = 0; i < nl; i++) {
          double y = i == nl - 1 ? d.second : d.first + w * (i + 1);
          Fn b = mk_atom(g, {x, y}, codom);
          if (!i) r = std::move(b); else r = ap(CAT, r, b);
          x = y;
        }
        return r;
      }
      double m = d.first + (d.second - d.first) * (double)g.irange(1, 3) / 8.0, m2 = d.first + (d.second - d.first) * (double)g.irange(4, 7) / 8.0;
      Fn a = mk_atom(g, {d.first, m}, codom);
      if (n == 2) { Fn b = mk_atom(g, {m, d.second}, codom); return ap(CAT, a, b); }
      Fn b = mk_atom(g, {m, m2}, codom), e = mk_atom(g, {m2, d.second}, codom);
      Fn ab = ap(CAT, a, b);
      return ap(CAT, ab, e);
    }
    case R_NEG: { Fn a = g.chance(0.5) ? mk_atom(g, d, codom) : rooted_fn(g, d, codom, (int)g.irange(1, 5)); FE e = a.expr(); return wrap(-e, r_neg(a.ref)); }
    case R_UNIQUE: { Fn a = mk_atom(g, d, codom); return wrap(a.expr(), a.ref); }
    default: return mk_atom(g, d, codom);
  }
}
struct Combo { int op, ra, rb; Fn a, b; RP ref; };
inline Combo random_combo(Rng& g) {
  Combo k;
  k.op = (int)g.irange(0, 4); k.ra = (int)g.irange(0, R_N - 1); k.rb = (int)g.irange(0, R_N - 1);
  if (g.chance(0.3)) k.rb = k.ra = k.op == MUL ? R_MUL : k.op == COMP ? R_COMP : k.op == CAT ? R_CAT : R_SUM;
  Dom d = random_dom(g), d2 = d;
  int ca = g.chance(0.5) ? 1 : (int)g.irange(2, 3), cb = ca;
  if (k.op == MUL) { cb = 1; if (g.chance(0.5)) std::swap(ca, cb); }
  if (k.op == COMP) { cb = 1; d = random_dom(g); }
  if (k.op == CAT) d2 = {d.second, d.second + (double)g.irange(2, 8) / 8.0};
  k.a = rooted_fn(g, d, ca, k.ra); k.b = rooted_fn(g, d2, cb, k.rb);
  k.ref = ref_op(k.op, k.a.ref, k.b.ref);
  return k;
}

inline VX random_points(Rng& g, Dom d, int n) {
  VX t(n);
  for (int i = 0; i < n; i++) {
    double r = g.u();
    t(i) = r < 0.12 ? d.first : r < 0.24 ? d.second : r < 0.4 ? d.first + (d.second - d.first) * (double)g.irange(0, 16) / 16.0
                                                      : g.uni(d.first, d.second);
  }
  return t;
}
// expected value of derivative deg at t (component c) and conditioning scale; false if ambiguous
inline bool ref_value(const RefFn& r, double t, int deg, std::vector<ld>& val, std::vector<ld>& scale, uint64_t salt, bool exact = true, ld tpert = 0) {
  Ev e; e.deg = deg; e.exact = exact;
  Jets j = r.ev(Jet::var(deg, t), e);
  if (e.ambiguous) return false;
  val.clear(); scale.clear();
  for (auto& q : j) { val.push_back(q.d(deg)); scale.push_back(fabsl(q.d(deg))); }
  for (int k = 0; k < 5; k++) {
    Rng p(mix(salt, k));
    Ev f; f.pert = &p; f.deg = deg; f.exact = exact;
    Jets q = r.ev(Jet::var(deg, (ld)t + tpert * f.w()), f);
    if (f.ambiguous) continue;
    for (size_t i = 0; i < q.size(); i++) scale[i] = std::max(scale[i], fabsl(q[i].d(deg) - val[i]) / DELTA);
  }
  for (size_t i = 0; i < val.size(); i++) if (!std::isfinite((double)val[i]) || !std::isfinite((double)scale[i]) || scale[i] > 1e25L) return false;
  return true;
}
// evaluates lib at random points in several ways and compares with derivative deg of ref
inline void compare_fn(Ctx& c, const FB& f, const RefFn& r, int deg, const std::string& key, double rel = 1e-9, int npts = 6) {
  Rng& g = c.rng;
  auto dm = f.get_domain();
  double ds = 1e-9 * (1 + std::fabs(r.dom.first) + std::fabs(r.dom.second));
  c.check(std::fabs(dm.first - r.dom.first) <= ds && std::fabs(dm.second - r.dom.second) <= ds, key + ":domain",
          "domain [" + std::to_string(dm.first) + "," + std::to_string(dm.second) + "] expected [" + std::to_string(r.dom.first) + "," + std::to_string(r.dom.second) + "] of " + r.str());
  if (!c.check((int)f.get_codom_dim() == r.codom, key + ":codomain", "codomain " + std::to_string(f.get_codom_dim()) + " of " + r.str())) return;
  int n = g.chance(0.05) ? 0 : g.chance(0.04) ? (int)g.irange(20, 90) : npts;
  VX all = random_points(g, r.dom, n), t(n);
  std::vector<std::vector<ld>> vals, scs;
  for (int i = 0; i < n; i++) {  // keep the points where the reference is decided
    std::vector<ld> val, sc;
    if (!ref_value(r, all(i), deg, val, sc, mix(c.id, i))) { c.count("skipped_ambiguous"); continue; }
    t((long)vals.size()) = all(i);
    vals.push_back(val); scs.push_back(sc);
  }
  n = (int)vals.size();
  t.conservativeResize(n);
  MX v = f(t);
  if (!c.check(v.rows() == n && v.cols() == r.codom, key + ":shape", r.str())) return;
  // buffer filling call into a block of a larger matrix
  MX big = MX::Constant(n + 3, r.codom + 2, 7.25);
  f.value(t, big.block(1, 1, n, r.codom));
  bool border = true, same = true;
  for (long i = 0; i < big.rows(); i++)
    for (long j = 0; j < big.cols(); j++) {
      if (i >= 1 && i <= n && j >= 1 && j <= r.codom) same = same && fabsl((ld)big(i, j) - v(i - 1, j - 1)) <= 1e-12L * scs[i - 1][j - 1];
      else border = border && big(i, j) == 7.25;
    }
  c.check(border, key + ":overwrites", "wrote outside the buffer: " + r.str());
  c.check(same, key + ":buffer-differs", "buffer call differs from returning call: " + r.str());
  for (int i = 0; i < n; i++) {
    const std::vector<ld>&val = vals[i], &sc = scs[i];
    c.count("points");
    for (int k = 0; k < r.codom; k++) {
      std::ostringstream o; o.precision(17); o << "t=" << t(i) << " comp " << k << " deg " << deg << " " << r.str();
      if (!c.close(v(i, k), val[k], sc[k] + 1e-12L, rel, key + ":value", o.str())) return;
    }
  }
}
}  // namespace vh
