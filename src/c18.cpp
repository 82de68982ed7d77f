// Memory monitors over the mixed workload. Built with AddressSanitizer and UBSan it also
// audits the balance of allocations; built plain it repeats each history over different
// contents of fresh heap and stack memory, and runs under memcheck.
#include "mix.hpp"
#include <malloc.h>
using namespace vh;
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

__attribute__((noinline)) static void paint_stack(int byte) {
  volatile unsigned char buf[256 * 1024];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char)byte;
}
struct Seen { std::vector<OpLog> log; long values = 0; };
static Seen run(uint64_t seed, int n, int fill) {
  Seen s;
  if (fill >= 0) { mallopt(M_PERTURB, fill); paint_stack(fill ^ 0xff); }
  {
    Pool p;
    s.log = mix_run(p, seed, n, true);
  }
  if (fill >= 0) mallopt(M_PERTURB, 0);
  for (auto& l : s.log) s.values += l.n;
  return s;
}
static void compare(Ctx& x, const Seen& a, const Seen& b, const std::string& what) {
  if (!x.check(a.log.size() == b.log.size(), "operation-count", what)) return;
  for (size_t k = 0; k < a.log.size(); k++)
    if (!x.check(a.log[k].h == b.log[k].h, std::string("result-not-determined:") + a.log[k].name, what + " operation " + std::to_string(k))) return;
}
static void history(Ctx& x) {
  uint64_t seed = x.rng.next();
  int n = (int)x.rng.irange(32, 70);
  x.dv("seed", seed); x.dv("ops", n);
  bool mc = getenv("VH_MEMCHECK") != nullptr;
#if defined(__SANITIZE_ADDRESS__)
  Seen a = run(seed, n, -1);
  size_t b0, b1;
  Seen b;
  b.log.reserve(256); { std::vector<OpLog> w; w.reserve(256); }
  {
    b0 = __sanitizer_get_current_allocated_bytes();
    { Seen t = run(seed, n, -1); b.log.assign(t.log.begin(), t.log.end()); b.values = t.values; }
    b1 = __sanitizer_get_current_allocated_bytes();
  }
  compare(x, a, b, "the same history again");
  x.check(b0 == b1, "leak", std::to_string((long)(b1 - b0)) + " bytes stay allocated after a history that was run before");
  x.count("allocation balances");
#else
  Seen a = run(seed, n, mc ? -1 : 0xff);
  if (!mc) {
    for (int f : {0x01, 0xbf, 0x80}) { Seen b = run(seed, n, f); compare(x, a, b, "fill " + std::to_string(f)); }
    x.count("memory fills", 4);
  }
#endif
  long threw = 0;
  for (auto& l : a.log) threw += l.threw;
  x.nontrivial = a.values > 200;
  x.count("operations", (long)a.log.size()); x.count("numbers", a.values); x.count("refused operations", threw);
}
static void register_all() { mix_solver(); scenario(getenv("VH_MEMCHECK") ? "memcheck" : "history", history); }
VH_MAIN
