// Common runtime-monitoring support: deterministic case generation, monitors,
// and an independent long double reference for bases, splines and functions.
#pragma once
#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/SparseCore>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <utility>
#include <vector>

#include <gsplines/Basis/Basis.hpp>
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/GSpline.hpp>

namespace vh {
using ld = long double;
using VX = Eigen::VectorXd;
using MX = Eigen::MatrixXd;
constexpr double EPS = 2.220446049250313e-16;

// ---------------------------------------------------------------- RNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  long irange(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  // usually in [a,b], now and then up to B: sizes past which a shortcut may set in
  long size(long a, long b, long B, double p = 0.07) { return u() < p ? irange(b + 1, B) : irange(a, b); }
  // a factor: now and then one of the special ones
  double num(double a, double b) { if (u() < 0.25) { static const double sp[] = {0, 1, -1, 2, 0.5, -0.0}; return sp[next() % 6]; } return uni(a, b); }
  bool chance(double p) { return u() < p; }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  double sgn() { return chance(0.5) ? 1.0 : -1.0; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
// values of one object: mostly generic, at times sparse, all zero or small integers, which
// is where shortcuts for special values show
struct Vals {
  Rng& g; double lo, hi; int style;
  Vals(Rng& r, double a, double b) : g(r), lo(a), hi(b), style(0) { double u = r.u(); style = u < 0.72 ? 0 : u < 0.86 ? 1 : u < 0.9 ? 2 : 3; }
  double operator()() {
    if (style == 1 && g.chance(0.5)) return 0.0;
    if (style == 2) return 0.0;
    if (style == 3) return (double)g.irange((long)std::ceil(lo), (long)std::floor(hi));
    return g.uni(lo, hi);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x1234567);
  r.next();
  return r.next();
}
inline uint64_t fnv(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// ---------------------------------------------------------------- reporting
inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 0x20) o += ' ';
    else o += c;
  }
  return o;
}
struct Ctx {
  Rng rng{0};
  long id = 0;
  std::string desc;          // what the case is (used for the fingerprint and samples)
  bool nontrivial = false;   // set when the case observed something non-degenerate
  long checks = 0;
  long fails = 0;
  std::set<std::string> keys;  // violations of this case
  std::map<std::string, long> cnt;
  FILE* out = nullptr;
  void d(const std::string& s) { desc += s; desc += ' '; }
  template <class T> void dv(const char* k, const T& v) {
    std::ostringstream o; o << k << "=" << v << " "; desc += o.str();
  }
  void count(const std::string& k, long n = 1) { cnt[k] += n; }
  void fail(const std::string& key, const std::string& detail) {
    fails++;
    if (!keys.insert(key).second) return;
    fprintf(out, "V %ld {\"key\":\"%s\",\"case\":%ld,\"desc\":\"%s\",\"detail\":\"%s\"}\n", id,
            esc(key).c_str(), id, esc(desc.substr(0, 1500)).c_str(), esc(detail.substr(0, 1500)).c_str());
    fflush(out);
  }
  bool check(bool ok, const std::string& key, const std::string& detail = "") {
    checks++;
    if (!ok) fail(key, detail);
    return ok;
  }
  // |got - ref| <= rel * scale (scale: magnitude of the quantities that enter)
  bool close(double got, ld ref, ld scale, double rel, const std::string& key,
             const std::string& extra = "") {
    checks++;
    ld err = fabsl((ld)got - ref);
    if (std::isfinite(got) && err <= (ld)rel * scale) {
      if (fabsl(ref) > 1e-3L * scale) nontrivial = true;
      return true;
    }
    if (std::isnan(got) && std::isnan(ref)) return true;
    char b[300];
    snprintf(b, sizeof b, "got %.17g expected %.17Lg scale %.6Lg rel %.3g ", got, ref, scale, rel);
    fail(key, b + extra);
    return false;
  }
  void progress() { fprintf(out, "P %ld\n", id); fflush(out); }
};

using CaseFn = std::function<void(Ctx&)>;
struct Scenario { std::string name; CaseFn fn; int weight; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
inline void scenario(const std::string& n, CaseFn f, int w = 1) { scenarios().push_back({n, f, w}); }

inline int harness_main(int argc, char** argv) {
  uint64_t seed = 1; long from = 0, to = 10, step = 1; std::string out = "/dev/stdout";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
    else if (a == "--from") from = atol(argv[i + 1]);
    else if (a == "--to") to = atol(argv[i + 1]);
    else if (a == "--step") step = atol(argv[i + 1]);
    else if (a == "--out") out = argv[i + 1];
  }
  FILE* f = fopen(out.c_str(), "w");
  if (!f) { perror("out"); return 3; }
  std::vector<int> order;
  for (size_t i = 0; i < scenarios().size(); i++)
    for (int w = 0; w < scenarios()[i].weight; w++) order.push_back((int)i);
  std::map<std::string, long> total;
  long nsample = 0;
  unsigned alarm_s = getenv("VH_ALARM") ? (unsigned)atoi(getenv("VH_ALARM")) : 60;
  for (long c = from; c < to; c += step) {
    Ctx x;
    x.id = c;
    x.out = f;
    x.rng = Rng(mix(seed, (uint64_t)c));
    const Scenario& sc = scenarios()[order[c % order.size()]];
    x.desc = sc.name + ": ";
    fprintf(f, "B %ld %s\n", c, sc.name.c_str());
    fflush(f);
    alarm(alarm_s);
    try {
      sc.fn(x);
    } catch (const std::exception& e) {
      x.fail("exception:" + sc.name, std::string("unexpected exception: ") + e.what());
    } catch (...) {
      x.fail("exception:" + sc.name, "unexpected exception of unknown type");
    }
    fprintf(f, "E %ld %016llx %d %ld %s\n", c, (unsigned long long)fnv(x.desc), x.nontrivial ? 1 : 0,
            x.checks, sc.name.c_str());
    if (nsample < 3 && x.nontrivial) {
      fprintf(f, "X %s\n", x.desc.substr(0, 600).c_str());
      nsample++;
    }
    for (auto& k : x.cnt) total[k.first] += k.second;
  }
  alarm(0);
  for (auto& k : total) fprintf(f, "C %s %ld\n", k.first.c_str(), k.second);
  fprintf(f, "D\n");
  fclose(f);
  return 0;
}

// ---------------------------------------------------------------- jets
// Truncated Taylor series in long double: c[k] = f^(k)/k!
struct Jet {
  std::vector<ld> c;
  explicit Jet(int n = 0, ld v = 0) : c(n + 1, 0.0L) { c[0] = v; }
  static Jet var(int n, ld v) { Jet j(n, v); if (n >= 1) j.c[1] = 1; return j; }
  int n() const { return (int)c.size() - 1; }
  ld v() const { return c[0]; }
  ld d(int k) const { ld f = c[k]; for (int i = 2; i <= k; i++) f *= i; return f; }
};
inline Jet operator+(const Jet& a, const Jet& b) { Jet r(a.n()); for (int i = 0; i <= a.n(); i++) r.c[i] = a.c[i] + b.c[i]; return r; }
inline Jet operator-(const Jet& a, const Jet& b) { Jet r(a.n()); for (int i = 0; i <= a.n(); i++) r.c[i] = a.c[i] - b.c[i]; return r; }
inline Jet operator-(const Jet& a) { Jet r(a.n()); for (int i = 0; i <= a.n(); i++) r.c[i] = -a.c[i]; return r; }
inline Jet operator*(ld s, const Jet& a) { Jet r(a.n()); for (int i = 0; i <= a.n(); i++) r.c[i] = s * a.c[i]; return r; }
inline Jet operator*(const Jet& a, const Jet& b) {
  Jet r(a.n());
  for (int i = 0; i <= a.n(); i++) for (int j = 0; j <= i; j++) r.c[i] += a.c[j] * b.c[i - j];
  return r;
}
inline Jet operator+(const Jet& a, ld s) { Jet r(a); r.c[0] += s; return r; }
inline Jet exp(const Jet& a) {
  Jet r(a.n()); r.c[0] = expl(a.c[0]);
  for (int k = 1; k <= a.n(); k++) { ld s = 0; for (int j = 1; j <= k; j++) s += j * a.c[j] * r.c[k - j]; r.c[k] = s / k; }
  return r;
}
inline void sincos(const Jet& a, Jet& s, Jet& co) {
  s = Jet(a.n()); co = Jet(a.n()); s.c[0] = sinl(a.c[0]); co.c[0] = cosl(a.c[0]);
  for (int k = 1; k <= a.n(); k++) {
    ld x = 0, y = 0;
    for (int j = 1; j <= k; j++) { x += j * a.c[j] * co.c[k - j]; y += j * a.c[j] * s.c[k - j]; }
    s.c[k] = x / k; co.c[k] = -y / k;
  }
}
inline Jet sin(const Jet& a) { Jet s, c; sincos(a, s, c); return s; }
inline Jet cos(const Jet& a) { Jet s, c; sincos(a, s, c); return c; }

// ---------------------------------------------------------------- bases
enum Kind { LEG, LAG, GLL, B0101 };
inline const char* kname(Kind k) { return k == LEG ? "legendre" : k == LAG ? "lagrange" : k == GLL ? "gll" : "0101"; }

// exact Gauss-Lobatto nodes in long double (independent: bisection on P'_{n-1})
inline void legP(int n, ld x, ld& p, ld& dp, ld& ddp) {
  ld p0 = 1, p1 = x, d0 = 0, d1 = 1, e0 = 0, e1 = 0;
  if (n == 0) { p = 1; dp = 0; ddp = 0; return; }
  for (int k = 1; k < n; k++) {
    ld p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1);
    ld d2 = ((2 * k + 1) * (p1 + x * d1) - k * d0) / (k + 1);
    ld e2 = ((2 * k + 1) * (2 * d1 + x * e1) - k * e0) / (k + 1);
    p0 = p1; p1 = p2; d0 = d1; d1 = d2; e0 = e1; e1 = e2;
  }
  p = p1; dp = d1; ddp = e1;
}
inline std::vector<ld> ref_gll_nodes(int n) {
  static thread_local std::map<int, std::vector<ld>> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  std::vector<ld> x;
  x.push_back(-1);
  int m = n - 1;  // interior nodes: roots of P'_m
  int grid = 60 * n * n / 10 + 400;
  ld prevx = -1 + 1e-12L, p, dp, ddp;
  legP(m, prevx, p, dp, ddp);
  ld prev = dp;
  for (int i = 1; i <= grid && n > 2; i++) {
    // cosine grid clusters near the ends like the roots do
    ld xx = -cosl(3.14159265358979323846264338327950288L * i / grid);
    if (i == grid) xx = 1 - 1e-12L;
    legP(m, xx, p, dp, ddp);
    if (dp == 0) { x.push_back(xx); }
    else if (prev != 0 && ((prev < 0) != (dp < 0))) {
      ld a = prevx, b = xx, fa = prev;
      for (int it2 = 0; it2 < 90; it2++) {
        ld c = (a + b) / 2, q, dq, ddq;
        legP(m, c, q, dq, ddq);
        if ((dq < 0) == (fa < 0)) { a = c; fa = dq; } else b = c;
      }
      x.push_back((a + b) / 2);
    }
    prev = dp; prevx = xx;
  }
  x.push_back(1);
  cache[n] = x;
  return x;
}
inline std::vector<ld> ref_gll_weights(int n) {
  std::vector<ld> x = ref_gll_nodes(n), w;
  for (ld t : x) { ld p, dp, ddp; legP(n - 1, t, p, dp, ddp); w.push_back(2.0L / (n * (n - 1) * p * p)); }
  return w;
}
// Gauss-Legendre rule in long double, for reference integrals
inline void ref_gauss(int n, std::vector<ld>& x, std::vector<ld>& w) {
  static thread_local std::map<int, std::pair<std::vector<ld>, std::vector<ld>>> cache;
  auto it = cache.find(n);
  if (it != cache.end()) { x = it->second.first; w = it->second.second; return; }
  x.clear(); w.clear();
  for (int i = 0; i < n; i++) {
    ld t = -cosl(3.14159265358979323846264338327950288L * (i + 0.75L) / (n + 0.5L)), p, dp, ddp;
    for (int k = 0; k < 60; k++) { legP(n, t, p, dp, ddp); ld dt = p / dp; t -= dt; if (fabsl(dt) < 1e-21L) break; }
    legP(n, t, p, dp, ddp);
    x.push_back(t); w.push_back(2 / ((1 - t * t) * dp * dp));
  }
  cache[n] = {x, w};
}

struct RefBasis {
  Kind kind; int dim; std::vector<ld> nodes; double alpha = 0.5;
  ld k() const { return sqrtl(2.0L) / 4 * powl((ld)alpha / (1 - (ld)alpha), 0.25L); }
  // jets of the basis functions in the window variable s, order n
  std::vector<Jet> jets(ld s, ld tau, int n) const {
    std::vector<Jet> r;
    Jet S = Jet::var(n, s);
    if (kind == LEG) {
      r.push_back(Jet(n, 1));
      if (dim > 1) r.push_back(S);
      for (int i = 1; i + 1 < dim; i++)
        r.push_back((1.0L / (i + 1)) * ((ld)(2 * i + 1) * (S * r[i]) - (ld)i * r[i - 1]));
    } else if (kind == LAG || kind == GLL) {
      for (int j = 0; j < dim; j++) {
        Jet p(n, 1);
        for (int m = 0; m < dim; m++)
          if (m != j) p = (1.0L / (nodes[j] - nodes[m])) * (p * (S + (-nodes[m])));
        r.push_back(p);
      }
    } else {
      Jet P = (tau * k()) * S;
      Jet e = exp(P), ei = exp(-P), si, co;
      sincos(P, si, co);
      r = {e * co, e * si, ei * co, ei * si, P, Jet(n, 1)};
    }
    return r;
  }
  // d^deg/dt^deg of basis function j at window point s
  std::vector<ld> deriv(ld s, ld tau, int deg) const {
    std::vector<ld> r;
    ld f = powl(2.0L / tau, deg);
    for (auto& j : jets(s, tau, deg)) r.push_back(f * j.d(deg));
    return r;
  }
  // derivative with respect to tau (window point fixed) of the above
  std::vector<ld> deriv_tau(ld s, ld tau, int deg) const {
    std::vector<ld> r;
    if (kind != B0101) {
      r = deriv(s, tau, deg);
      for (auto& v : r) v *= -(ld)deg / tau;
      return r;
    }
    // phi(s;tau) = g(tau k s); d^deg/dt^deg = (2k)^deg g^(deg)(tau k s)
    Jet P = Jet::var(deg + 1, tau * k() * s);
    Jet e = exp(P), ei = exp(-P), si, co;
    sincos(P, si, co);
    std::vector<Jet> g = {e * co, e * si, ei * co, ei * si, P, Jet(deg + 1, 1)};
    for (auto& j : g) r.push_back(powl(2 * k(), deg) * j.d(deg + 1) * k() * s);
    return r;
  }
};

// magnitude against which rounding errors of derivative `deg` of function j are
// judged: its largest size on [-1,1] and at s (for orders past the degree, where the
// true derivative is zero, the size of the last nonzero one times the usual growth)
struct BasisScale {
  const RefBasis& b;
  std::map<int, std::vector<ld>> cache;  // polynomial bases: max |d^deg phi_j/ds^deg| on [-1,1]
  explicit BasisScale(const RefBasis& bb) : b(bb) {}
  const std::vector<ld>& smax(int deg) {
    auto it = cache.find(deg);
    if (it != cache.end()) return it->second;
    std::vector<ld> m(b.dim, 0);
    int dg = std::min(deg, b.dim - 1);
    std::vector<ld> pts = b.nodes;
    for (int i = 0; i <= 2 * b.dim; i++) pts.push_back(-cosl(3.14159265358979323846L * i / (2 * b.dim)));
    for (ld s : pts) { auto js = b.jets(s, 1, dg); for (int j = 0; j < b.dim; j++) m[j] = std::max(m[j], fabsl(js[j].d(dg))); }
    if (b.kind == LEG) {  // low functions have zero high derivatives but share the recurrences
      for (int j = 0; j < b.dim; j++) if (m[j] == 0) m[j] = 1e-6L;
    }
    for (int k = dg; k < deg; k++) for (auto& v : m) v *= (ld)(b.dim * b.dim + 1);
    return cache[deg] = m;
  }
  ld operator()(int j, ld s, ld tau, int deg) {
    if (b.kind == B0101) {
      ld p = fabsl(tau * b.k() * s), f = powl(2 * b.k() * sqrtl(2.0L), deg);
      if (j < 4) return f * expl(p) * (1 + p);
      return j == 4 ? f * (p + 1) : f;
    }
    ld base = smax(deg)[j];
    if (fabsl(s) > 1) base = std::max(base, fabsl(b.jets(s, tau, std::min(deg, b.dim - 1))[j].d(std::min(deg, b.dim - 1)))) * powl(fabsl(s), b.dim);
    return powl(2 / tau, deg) * base;
  }
};

struct BasisPair {
  std::unique_ptr<gsplines::basis::Basis> lib;
  RefBasis ref;
  std::string str() const {
    std::ostringstream o; o << kname(ref.kind) << "/" << ref.dim;
    if (ref.kind == B0101) o << "/" << ref.alpha;
    if (ref.kind == LAG) { o << "/["; for (ld x : ref.nodes) o << (double)x << ","; o << "]"; }
    return o.str();
  }
};
inline BasisPair make_basis(Kind kind, int dim, Rng& g) {
  using namespace gsplines::basis;
  BasisPair b;
  b.ref.kind = kind;
  b.ref.dim = dim;
  if (kind == LEG) b.lib = std::make_unique<BasisLegendre>(dim);
  else if (kind == GLL) {
    b.lib = std::make_unique<BasisLagrangeGaussLobatto>(dim);
    b.ref.nodes = ref_gll_nodes(dim);
  } else if (kind == LAG) {
    // distinct nodes: jittered uniform, Chebyshev-like, with or without the ends,
    // sometimes not sorted
    VX x(dim);
    int t = (int)g.irange(0, 3);
    for (int i = 0; i < dim; i++) {
      if (t == 0) x(i) = dim == 1 ? 0.0 : -1.0 + 2.0 * i / (dim - 1);
      else if (t == 1) x(i) = -std::cos(M_PI * (i + 0.5) / dim);
      else if (t == 2) x(i) = -1.0 + 2.0 * (i + g.uni(0.25, 0.75)) / dim;
      else x(i) = dim == 1 ? 0.0 : -std::cos(M_PI * i / (dim - 1));
    }
    if (g.chance(0.25)) for (int i = dim - 1; i > 0; i--) std::swap(x(i), x(g.irange(0, i)));
    b.lib = std::make_unique<BasisLagrange>(x);
    for (int i = 0; i < dim; i++) b.ref.nodes.push_back(x(i));
  } else {
    b.ref.alpha = g.chance(0.15) ? g.logu(1e-3, 0.5) : g.uni(0.02, 0.98);
    b.lib = std::make_unique<Basis0101>(b.ref.alpha);
    b.ref.dim = 6;
  }
  return b;
}
inline BasisPair random_basis(Rng& g, int dmin, int dmax, bool even = false, bool with0101 = true) {
  Kind k = g.pick(with0101 ? std::vector<Kind>{LEG, LEG, LAG, GLL, B0101} : std::vector<Kind>{LEG, LEG, LAG, GLL});
  int dim = (int)g.irange(dmin, dmax);
  if (even) dim = std::max(2, dim - dim % 2);
  if (k == GLL && dim < 2) dim = 2;
  return make_basis(k, dim, g);
}

// ---------------------------------------------------------------- splines
struct RefSpline {
  RefBasis b; double t0; VX taus, coeff; int codom;
  int n() const { return (int)taus.size(); }
  std::vector<ld> bps() const {
    std::vector<ld> r{(ld)t0};
    for (int i = 0; i < taus.size(); i++) r.push_back(r.back() + (ld)taus(i));
    return r;
  }
  // piece of a point by the documented convention: (left, right], first/last outside
  int piece(ld t) const {
    auto p = bps();
    for (int i = 0; i < n(); i++) if (t <= p[i + 1]) return i;
    return n() - 1;
  }
  // value of derivative deg of component c of piece i at t, and magnitude of the terms
  ld at(int i, int c, ld t, int deg, ld* scale = nullptr) const {
    auto p = bps();
    ld s = 2 * (t - p[i]) / (ld)taus(i) - 1;
    auto ph = b.deriv(s, taus(i), deg);
    ld r = 0, sc = 0;
    for (int j = 0; j < b.dim; j++) {
      ld q = (ld)coeff((i * codom + c) * b.dim + j) * ph[j];
      r += q; sc += fabsl(q);
    }
    if (scale) *scale = sc;
    return r;
  }
  Jet jet(int i, int c, const Jet& t) const {  // compose with a jet in t
    auto p = bps();
    int n = t.n();
    ld s0 = 2 * (t.v() - p[i]) / (ld)taus(i) - 1;
    auto js = b.jets(s0, taus(i), n);
    Jet acc(n, 0);
    for (int j = 0; j < b.dim; j++) acc = acc + (ld)coeff((i * codom + c) * b.dim + j) * js[j];
    // acc is the series in s around s0; substitute s - s0 = 2 (t - t(0)) / tau
    Jet h = (2.0L / (ld)taus(i)) * t; h.c[0] = 0;
    Jet r(n, acc.c[n]);
    for (int k = n - 1; k >= 0; k--) r = r * h + acc.c[k];
    return r;
  }
};
struct Spline {
  RefSpline ref;
  std::unique_ptr<gsplines::GSpline> lib;
};
inline VX random_taus(Rng& g, int n, bool dyadic, double lo = 0.1, double hi = 5.0) {
  VX t(n);
  bool rep = g.chance(0.25);  // some lengths equal
  for (int i = 0; i < n; i++) t(i) = rep && i && g.chance(0.6) ? t(i - 1) : dyadic ? (double)g.irange(1, 64) / 16.0 : g.logu(lo, hi);
  return t;
}
inline RefSpline random_ref_spline(Rng& g, const RefBasis& b, int n, int codom, bool dyadic,
                                   double lo = 0.1, double hi = 5.0) {
  RefSpline r;
  r.b = b; r.codom = codom;
  r.t0 = g.chance(0.3) ? 0.0 : dyadic ? (double)g.irange(-160, 160) / 16.0 : g.uni(-10, 10);
  r.taus = random_taus(g, n, dyadic, lo, hi);
  if (b.kind != B0101 && lo == 0.1 && g.chance(0.15)) r.taus *= dyadic ? std::ldexp(1.0, (int)g.irange(-10, 10)) : g.logu(1e-3, 1e3);
  r.coeff.resize((long)n * codom * b.dim);
  double mag = g.chance(0.2) ? g.logu(1e-4, 1e6) : 1.0;
  Vals val(g, -1, 1);
  for (long i = 0; i < r.coeff.size(); i++) r.coeff(i) = g.chance(0.05) ? 0.0 : mag * val();
  if (g.chance(0.1)) {  // pieces that use only the first functions of the basis
    long keep = g.irange(0, b.dim);
    for (long i = 0; i < r.coeff.size(); i++) if (i % b.dim >= keep) r.coeff(i) = 0;
  }
  return r;
}
inline gsplines::GSpline to_lib(const RefSpline& r, const gsplines::basis::Basis& b) {
  double t1 = r.t0 + r.taus.sum();
  return gsplines::GSpline({r.t0, t1}, r.codom, r.n(), b, r.coeff, r.taus);
}
inline std::string vec_str(const VX& v, int m = 8) {
  std::ostringstream o; o.precision(17); o << "[";
  for (int i = 0; i < std::min<long>(m, v.size()); i++) o << (i ? "," : "") << v(i);
  if (v.size() > m) o << ",..(" << v.size() << ")";
  o << "]"; return o.str();
}
inline bool same_bits(const VX& a, const VX& b) {
  return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0);
}
// expects an exception derived from std::exception
template <class F> bool throws(F&& f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
}  // namespace vh
#define VH_MAIN int main(int argc, char** argv) { register_all(); return vh::harness_main(argc, argv); }
