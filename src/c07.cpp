#include "funcs.hpp"
using namespace vh;

static void binary_all(Ctx& c) {  // one binary operation, all value categories, through expression and base
  Rng& g = c.rng;
  int op = (int)g.irange(0, 4), size = (int)g.irange(1, 4);
  Dom d = random_dom(g);
  int codom = g.chance(0.5) ? 1 : (int)g.size(2, 4, 8);
  Fn a, b;
  if (op == ADD || op == SUB) { a = random_fn(g, d, codom, size); b = random_fn(g, d, codom, (int)g.irange(1, 3)); }
  else if (op == MUL) {
    bool vf = g.chance(0.5);
    a = random_fn(g, d, vf ? codom : 1, size); b = random_fn(g, d, vf ? 1 : codom, (int)g.irange(1, 3));
  } else if (op == COMP) { a = random_fn(g, random_dom(g), codom, size); b = random_fn(g, d, 1, (int)g.irange(1, 3)); }
  else {
    double m = d.first + (d.second - d.first) * (double)g.irange(1, 3) / 4.0;
    a = random_fn(g, {d.first, m}, codom, size); b = random_fn(g, {m, d.second}, codom, (int)g.irange(1, 3));
  }
  RP r = ref_op(op, a.ref, b.ref);
  c.d(opn(op)); c.d(r->str());
  for (int cat = 0; cat < 4; cat++) {
    FE ea = a.expr(), eb = b.expr();
    FE res = apply_fe(op, cat, ea, eb);
    compare_fn(c, res, *r, 0, std::string(opn(op)) + "/" + "fe" + std::to_string(cat));
    auto la = a.lib->clone();
    FE eb2 = b.expr();
    FE res2 = apply_fb(op, cat, *la, eb2);
    compare_fn(c, res2, *r, 0, std::string(opn(op)) + "/" + "fb" + std::to_string(cat));
    c.count("variants", 2);
  }
}
static void chain(Ctx& c) {  // the result of an operation is an operand of the same operation again
  Rng& g = c.rng;
  int op = (int)g.irange(0, 4), n = (int)g.size(2, 5, 10);
  int codom = g.chance(0.5) ? 1 : (int)g.size(2, 3, 7);
  Dom d = random_dom(g);
  std::vector<double> br{d.first};
  for (int i = 0; i < n; i++) br.push_back(br.back() + (double)g.irange(1, 8) / 8.0);
  auto part = [&](int i, int cod) { return op == CAT ? random_fn(g, {br[i], br[i + 1]}, cod, (int)g.irange(1, 2)) : random_fn(g, d, cod, (int)g.irange(1, 2)); };
  bool left = g.chance(0.5);  // associate to the left or to the right
  auto codof = [&](int i) { return op == COMP ? (i == 0 ? codom : 1) : op == MUL ? (i == 1 ? codom : 1) : codom; };
  std::vector<Fn> p;
  for (int i = 0; i < n; i++) p.push_back(part(i, codof(i)));
  Fn acc = (left ? p[0] : p[n - 1]).copy();
  std::string cats;
  for (int i = 1; i < n; i++) {
    int k = left ? i : n - 1 - i, cat = (int)g.irange(0, 3);
    cats += std::to_string(cat);
    FE x = left ? acc.expr() : p[k].expr(), y = left ? p[k].expr() : acc.expr();
    RP r = left ? ref_op(op, acc.ref, p[k].ref) : ref_op(op, p[k].ref, acc.ref);
    acc = wrap(apply_fe(op, cat, x, y), r);
  }
  c.d(opn(op)); c.d(left ? "left" : "right"); c.d(cats); c.d(acc.ref->str());
  compare_fn(c, *acc.lib, *acc.ref, 0, std::string("chain-") + opn(op), 1e-9, 10);
}
// operands of every outermost operation, also the operation itself, in all value categories
static void combo(Ctx& c) {
  Rng& g = c.rng;
  Combo k = random_combo(g);
  c.d(opn(k.op)); c.dv("ra", k.ra); c.dv("rb", k.rb); c.d(k.ref->str());
  for (int cat = 0; cat < 4; cat++) {
    FE ea = k.a.expr(), eb = k.b.expr();
    FE res = apply_fe(k.op, cat, ea, eb);
    compare_fn(c, res, *k.ref, 0, std::string("combo-") + opn(k.op) + std::to_string(cat));
    if (!(cat & 2) ) compare_fn(c, ea, *k.a.ref, 0, "combo-left-operand", 1e-9, 2);
    if (!(cat & 1) ) compare_fn(c, eb, *k.b.ref, 0, "combo-right-operand", 1e-9, 2);
    auto la = k.a.lib->clone();
    FE eb2 = k.b.expr();
    FE res2 = apply_fb(k.op, cat, *la, eb2);
    compare_fn(c, res2, *k.ref, 0, std::string("combo-fb-") + opn(k.op) + std::to_string(cat), 1e-9, 3);
  }
}
static void tree(Ctx& c) {
  Rng& g = c.rng;
  Fn f = random_fn(g, random_dom(g), g.chance(0.5) ? 1 : (int)g.size(2, 4, 8), (int)g.irange(2, 9));
  c.d(f.ref->str());
  compare_fn(c, *f.lib, *f.ref, 0, "tree", 1e-9, 12);
  FE e1 = f.lib->to_expression();
  compare_fn(c, e1, *f.ref, 0, "to_expression/c");
  FE e2 = FE(static_cast<const FB&>(*f.lib));
  compare_fn(c, e2, *f.ref, 0, "FE(const FB&)");
  auto cl = f.lib->clone();
  FE e3 = std::move(*cl).to_expression();
  compare_fn(c, e3, *f.ref, 0, "to_expression/r");
  auto cl2 = f.lib->clone();
  FE e4 = FE(std::move(*cl2));
  compare_fn(c, e4, *f.ref, 0, "FE(FB&&)");
}
static void unary(Ctx& c) {
  Rng& g = c.rng;
  Fn f = random_fn(g, random_dom(g), (int)g.irange(1, 3), (int)g.irange(1, 5));
  c.d(f.ref->str());
  double s = g.num(-3, 3);
  FE a = f.expr(), b = f.expr(), e = f.expr(), e2 = f.expr();
  const FE& ca = a;
  RP rn = r_neg(f.ref), rs = r_scale(f.ref, s);
  compare_fn(c, -ca, *rn, 0, "neg/fe-c");
  compare_fn(c, -std::move(b), *rn, 0, "neg/fe-r");
  const FB& cb = *f.lib;
  compare_fn(c, -cb, *rn, 0, "neg/fb-c");
  auto cl = f.lib->clone();
  compare_fn(c, -std::move(*cl), *rn, 0, "neg/fb-r");
  compare_fn(c, -(-ca), *f.ref, 0, "neg-neg");
  FE nn = -ca;
  compare_fn(c, -nn, *f.ref, 0, "neg-neg-c");
  compare_fn(c, s * ca, *rs, 0, "scale/c");
  compare_fn(c, s * std::move(e), *rs, 0, "scale/r");
  compare_fn(c, ca - ca, *r_sum(f.ref, f.ref, -1), 0, "self-sub");
  compare_fn(c, ca + ca, *r_sum(f.ref, f.ref, 1), 0, "self-add");
  if (f.ref->codom == 1) {
    compare_fn(c, ca * ca, *r_mul(f.ref, f.ref), 0, "self-mul");
    compare_fn(c, ca.compose(ca), *r_comp(f.ref, f.ref), 0, "self-comp");
  }
  compare_fn(c, ca.dot(ca), *r_dot(f.ref, f.ref), 0, "self-dot");
}
static void dots(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.size(1, 4, 9);
  Fn a = random_fn(g, d, k, (int)g.irange(1, 4)), b = random_fn(g, d, k, (int)g.irange(1, 4));
  RP r = r_dot(a.ref, b.ref);
  c.d(r->str());
  const FB &ca = *a.lib, &cb = *b.lib;
  compare_fn(c, ca.dot(cb), *r, 0, "dot/cc");
  { auto y = b.lib->clone(); compare_fn(c, ca.dot(std::move(*y)), *r, 0, "dot/cr"); }
  { auto x = a.lib->clone(); compare_fn(c, std::move(*x).dot(cb), *r, 0, "dot/rc"); }
  { auto x = a.lib->clone(); auto y = b.lib->clone(); compare_fn(c, std::move(*x).dot(std::move(*y)), *r, 0, "dot/rr"); }
}
static void compound(Ctx& c) {  // sequences of += and *= on one object
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = g.chance(0.4) ? 1 : (int)g.irange(2, 3);
  Fn f = random_fn(g, d, k, (int)g.irange(1, 4));
  FE acc = f.expr();
  RP r = f.ref;
  int n = (int)g.size(1, 4, 9);
  for (int i = 0; i < n; i++) {
    bool add = g.chance(0.5), mv = g.chance(0.5);
    int cod = add ? r->codom : (r->codom == 1 && g.chance(0.3) ? (int)g.irange(1, 3) : 1);
    Fn o = random_fn(g, d, cod, (int)g.irange(1, 3));
    FE e = o.expr();
    const FE& ce = e;
    if (add) { if (mv) acc += std::move(e); else acc += ce; r = r_sum(r, o.ref, 1); c.d(mv ? "+=r" : "+=c"); }
    else { if (mv) acc *= std::move(e); else acc *= ce; r = r_mul(r, o.ref); c.d(mv ? "*=r" : "*=c"); }
    compare_fn(c, acc, *r, 0, std::string(add ? "add" : "mul") + "-assign");
    if (c.fails) { c.d(r->str()); return; }
  }
  if (g.chance(0.3)) {
    bool add = r->codom > 1 || g.chance(0.5);
    const FE& self = acc;
    if (add) { acc += self; r = r_sum(r, r, 1); } else { acc *= self; r = r_mul(r, r); }
    compare_fn(c, acc, *r, 0, std::string("self-") + (add ? "add" : "mul") + "-assign");
  }
  c.d(r->str());
}
static void zero(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.size(1, 4, 9);
  FE z(d, k);
  Fn o = random_fn(g, d, k, (int)g.irange(1, 3));
  RP rz = mkref<RLeaf>(d, k, [&](RLeaf& l) { l.t = RLeaf::CONST; l.p = VX::Zero(k); });
  c.d("zero+"); c.d(o.ref->str());
  compare_fn(c, z, *rz, 0, "zero");
  compare_fn(c, z + o.expr(), *o.ref, 0, "zero-plus");
  z += o.expr();
  compare_fn(c, z, *o.ref, 0, "zero-plus-assign");
}
static void register_all() {
  scenario("binary", binary_all, 4);
  scenario("combo", combo, 4);
  scenario("chain", chain, 4);
  scenario("tree", tree, 3);
  scenario("unary", unary, 2);
  scenario("dot", dots, 2);
  scenario("compound", compound, 2);
  scenario("zero", zero, 1);
}
VH_MAIN
