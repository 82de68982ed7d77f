// Race detector and digest monitor: threads on distinct objects, against the same work alone.
#include "mix.hpp"
#include <atomic>
#include <thread>
using namespace vh;

static void threads(Ctx& x) {
  Rng& g = x.rng;
  int nt = (int)g.irange(2, 8), n = (int)g.irange(25, 45);
  uint64_t base = g.next();
  bool same = g.chance(0.3);  // all threads the same work: every buffer is met by all of them
  x.dv("threads", nt); x.dv("ops", n); x.dv("same", same); x.dv("seed", base);
  // a common origin: every thread works on copies made before it starts
  Pool common;
  { Rng q(base); for (int i = 0; i < 3; i++) { common.fns.push_back(random_fn(q, random_dom(q), (int)q.irange(1, 3), (int)q.irange(2, 5)).lib); common.spl.push_back(mix_spline(q)); common.bas.push_back(random_basis(q, 2, 6).lib); common.gll.push_back(mix_gll(q)); } }
  std::vector<std::unique_ptr<Pool>> own, alone;
  for (int i = 0; i < nt; i++) { own.push_back(std::make_unique<Pool>(common)); alone.push_back(std::make_unique<Pool>(common)); }
  if (g.chance(0.5)) common.clear();
  std::vector<std::vector<OpLog>> log(nt);
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  std::vector<int> delay(nt);
  for (int& v : delay) v = g.chance(0.5) ? 0 : (int)g.irange(0, 300);
  auto seed = [&](int i) { return same ? base : mix(base, 100 + i); };
  for (int i = 0; i < nt; i++)
    th.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);  // relaxed: the start must not order the threads' work
      while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
      if (delay[i]) usleep(delay[i]);
      log[i] = mix_run(*own[i], seed(i), n, true, true);
    });
  for (auto& t : th) t.join();
  // the same work alone, one thread after the other
  long ops = 0, values = 0;
  for (int i = 0; i < nt; i++) {
    auto ref = mix_run(*alone[i], seed(i), n, true);
    if (!x.check(ref.size() == log[i].size(), "operation-count", "")) continue;
    for (size_t k = 0; k < ref.size(); k++) {
      ops++; values += ref[k].n;
      if (!x.check(ref[k].h == log[i][k].h, std::string("result-differs:") + ref[k].name, "thread " + std::to_string(i) + " operation " + std::to_string(k)))
        break;  // later ones act on what is already different
    }
  }
  // which operations were seen in progress at the same time
  std::set<std::pair<std::string, std::string>> pairs;
  for (int i = 0; i < nt; i++) for (int j = i + 1; j < nt; j++)
    for (auto& a : log[i]) for (auto& b : log[j]) if (a.t0 < b.t1 && b.t0 < a.t1) pairs.insert(std::minmax(std::string(a.name), std::string(b.name)));
  x.nontrivial = nt >= 2 && pairs.size() > 3;
  x.count("operations", ops); x.count("numbers compared", values); x.count("overlapping operation pairs", (long)pairs.size()); x.count("threads", nt);
}
static void register_all() { mix_solver(); scenario("distinct-objects", threads); }
VH_MAIN
