#include "funcs.hpp"
using namespace vh;
static int pick_deg(Rng& g, const RefFn& r, double budget = 4000) {
  int d = (int)g.irange(0, 5);
  while (d > 1 && r.cost(d) > budget) d--;
  return d;
}
static void oneshot(Ctx& c, const Fn& f) {
  Rng& g = c.rng;
  int d = pick_deg(g, *f.ref);
  c.dv("deg", d); c.d(f.ref->str());
  c.count("deg" + std::to_string(d));
  const FB& b = *f.lib;
  FE v = b.derivate(d);
  compare_fn(c, v, *f.ref, d, "derivate", 1e-8);
  auto p = b.deriv(d);
  compare_fn(c, *p, *f.ref, d, "deriv-ptr", 1e-8);
  FE e = f.expr();
  compare_fn(c, e.derivate(d), *f.ref, d, "expr-derivate", 1e-8);
}
static void steps(Ctx& c, const Fn& f) {
  Rng& g = c.rng;
  int d = pick_deg(g, *f.ref);
  c.dv("deg", d); c.d(f.ref->str());
  std::unique_ptr<FB> cur = f.lib->clone();
  int left = d;
  while (left > 0) {
    int s = (int)g.irange(0, left);
    std::unique_ptr<FB> nx = g.chance(0.5) ? cur->deriv(s) : std::make_unique<FE>(cur->derivate(s));
    cur = std::move(nx);  // the source of the derivative is gone
    left -= s;
    c.dv("step", s);
  }
  compare_fn(c, *cur, *f.ref, d, "stepwise", 1e-8);
}
static void default_order(Ctx& c, const Fn& f) {
  c.d(f.ref->str());
  compare_fn(c, f.lib->derivate(), *f.ref, 1, "derivate-default", 1e-8);
  compare_fn(c, *f.lib->deriv(), *f.ref, 1, "deriv-default", 1e-8);
  compare_fn(c, f.lib->derivate(0), *f.ref, 0, "derivate-0", 1e-9);
  compare_fn(c, *f.lib->deriv(0), *f.ref, 0, "deriv-0", 1e-9);
}
// algebra of derivatives: derivatives used as operands, then differentiated again
static void mixed(Ctx& c) {
  Rng& g = c.rng;
  Dom d = random_dom(g);
  int k = (int)g.size(1, 3, 7);
  Fn a = random_fn(g, d, k, (int)g.irange(1, 2)), b = random_fn(g, d, g.chance(0.5) ? k : 1, (int)g.irange(1, 2));
  FE da = a.lib->derivate(1);
  FE db = b.lib->derivate(1);
  // (a' * b)' or (a' + b')'  -> compare with jets by hand
  bool mul = b.ref->codom == 1 && g.chance(0.6);
  if (!mul && b.ref->codom != k) { c.d("skip"); return; }
  c.d(mul ? "(a'*b')'" : "(a'-b')'"); c.d(a.ref->str()); c.d(b.ref->str());
  FE r = mul ? (da * db).derivate(1) : (da - db).derivate(1);
  VX t = random_points(g, d, 6);
  MX v = r(t);
  if (!c.check(v.cols() == k, "mixed:codomain", "")) return;
  for (int i = 0; i < t.size(); i++) {
    std::vector<ld> a1, a2, b1, b2, sa1, sa2, sb1, sb2;
    if (!ref_value(*a.ref, t(i), 1, a1, sa1, 1) || !ref_value(*a.ref, t(i), 2, a2, sa2, 2) ||
        !ref_value(*b.ref, t(i), 1, b1, sb1, 3) || !ref_value(*b.ref, t(i), 2, b2, sb2, 4)) continue;
    c.count("points");
    for (int q = 0; q < k; q++) {
      ld e = mul ? a2[q] * b1[0] + a1[q] * b2[0] : a2[q] - b2[q];
      ld s = mul ? sa2[q] * sb1[0] + sa1[q] * sb2[0] : sa2[q] + sb2[q];
      if (!c.close(v(i, q), e, s + 1e-12L, 1e-8, "mixed:value", a.ref->str() + " " + b.ref->str())) return;
    }
  }
}
static void leaves(Ctx& c) {  // every elementary function at any order
  Rng& g = c.rng;
  int t = (int)g.irange(0, 6), d = (int)g.irange(0, 13);
  Fn f = mk_leaf(g, random_dom(g), t == 0 ? (int)g.irange(1, 3) : 1, t);
  c.dv("deg", d); c.d(f.ref->str());
  compare_fn(c, f.lib->derivate(d), *f.ref, d, "leaf-derivate", 1e-9);
  compare_fn(c, *f.lib->deriv(d), *f.ref, d, "leaf-deriv", 1e-9);
  int a = (int)g.irange(0, d);
  auto p = f.lib->deriv(a);
  compare_fn(c, *p->deriv(d - a), *f.ref, d, "leaf-two-steps", 1e-9);
  FE e = f.lib->derivate(a);
  compare_fn(c, e.derivate(d - a), *f.ref, d, "leaf-two-steps-expr", 1e-9);
}
// derivatives of the result of one operation in any value category
static Fn combo_fn(Ctx& c) {
  Combo k = random_combo(c.rng);
  FE ea = k.a.expr(), eb = k.b.expr();
  int cat = (int)c.rng.irange(0, 3);
  c.d(opn(k.op)); c.dv("cat", cat);
  return wrap(apply_fe(k.op, cat, ea, eb), k.ref);
}
static Fn gen(Ctx& c) { Rng& g = c.rng; return random_fn(g, random_dom(g), g.chance(0.5) ? 1 : (int)g.irange(2, 3), (int)g.irange(1, 5)); }
static void register_all() {
  scenario("oneshot", [](Ctx& c) { oneshot(c, gen(c)); }, 4);
  scenario("combo", [](Ctx& c) { oneshot(c, combo_fn(c)); }, 3);
  scenario("combo-steps", [](Ctx& c) { steps(c, combo_fn(c)); }, 2);
  scenario("steps", [](Ctx& c) { steps(c, gen(c)); }, 3);
  scenario("default", [](Ctx& c) { default_order(c, gen(c)); }, 2);
  scenario("mixed", mixed, 2);
  scenario("leaf", leaves, 2);
}
VH_MAIN
