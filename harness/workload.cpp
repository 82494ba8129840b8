// P21: range of the workload's number generators, P22: their distributions,
// P23: configuration texts and small helpers, P24: the workload core, the
// client and the driver program against a recording store.
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include "core/client.h"
#include "core/core_workload.cpp"
#include "core/core_workload.h"
#include "utils/const_generator.h"
#include "utils/counter_generator.h"
#include "utils/discrete_generator.h"
#include "utils/properties.h"
#include "utils/scrambled_zipfian_generator.h"
#include "utils/skewed_latest_generator.h"
#include "utils/uniform_generator.h"
#include "utils/utils.h"
#include "utils/zipfian_generator.h"
#include <cmath>
#include <deque>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include "db/db_factory.h"
using pbt::src;
using namespace ycsbc;
using u64 = uint64_t;
using TG = Generator<u64>;

// Findings that are recorded (known_findings.json): what they break is not
// generated, or the very deviation is accepted, so that anything else is
// still reported.
#define FLAG(kf, name) constexpr bool name = kf
#ifdef KF_zipfian_lower_bound // the two first ranks are 0 and 1 whatever the range
FLAG(true, LOW_RANKS);
#else
FLAG(false, LOW_RANKS);
#endif
#ifdef KF_zipfian_growth // the closed form keeps the first item count
FLAG(true, NO_GROWTH);
#else
FLAG(false, NO_GROWTH);
#endif
#ifdef KF_randomdouble_bounds // the bounds of a thread's first call stay
FLAG(true, FIRST_BOUNDS);
#else
FLAG(false, FIRST_BOUNDS);
#endif
#ifdef KF_client_field_names // "fieldfield3" is asked for
FLAG(true, DOUBLE_PREFIX);
#else
FLAG(false, DOUBLE_PREFIX);
#endif
#ifdef KF_driver_remainder // what the threads cannot share evenly is left out
FLAG(true, EVEN_WORK);
#else
FLAG(false, EVEN_WORK);
#endif
#ifdef KF_zipfian_few_records // no draw is an existing record
FLAG(true, MANY_RECORDS);
#else
FLAG(false, MANY_RECORDS);
#endif
namespace {
#ifndef PBT_SCHED
// The helpers draw from a generator private to each thread: a fresh thread
// makes a case depend on its own choices only; burnt draws move it along.
template <typename F> void fresh(F f, bool burnt = true) {
  std::thread([&] {
    srand((unsigned)src.below(1000));
    int burn = 0;
    if (burnt) burn = (int)src.below(src.below(4) ? 200 : 5000);
    for (int i = 0; i < burn; i++) utils::RandomDouble();
    f();
  }).join();
}
u64 skewed(u64 cap) { // sizes of every order of magnitude
  int bits = 0;
  while (bits < 63 && (2ull << bits) <= cap) bits++;
  u64 c = std::min<u64>(cap, (2ull << src.below(bits + 1)) - 1);
  return src.below(c + 1);
}
u64 any_base() {
  switch (src.below(6)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return src.below(100);
  case 3: return src.below(1000000);
  case 4: return (1ull << 32) - 2 + src.below(5);
  default: return src.u64() >> 3;
  }
}
double theta() {
  static const double T[] = {0.99, 0.99, 0.5, 0.8, 0.9, 0.2, 0.05, 0.95, 0.999};
  size_t i = src.below(10);
  return i < 9 ? T[i] : 0.01 + 0.98 * (double)src.below(1000) / 1000;
}
#endif

#if defined(P21) && !defined(PBT_SCHED)
void uni() {
  fresh([] {
    u64 lo, hi;
    switch (src.below(6)) {
    case 0: lo = hi = any_base(); break;
    case 1: lo = any_base(); hi = lo + skewed(1000); break;
    case 2: lo = 0; hi = ~0ull; break;
    case 3: hi = ~0ull; lo = hi - skewed(~0ull >> 1); break;
    case 4: lo = skewed(1000000); hi = lo + skewed(~0ull >> 1); break;
    default: lo = 0; hi = skewed(100); break;
    }
    PBT_LOG("UniformGenerator(%lu, %lu)", lo, hi);
    UniformGenerator g(lo, hi);
    PBT_CHECK(g.Last() >= lo && g.Last() <= hi, "the last value %lu of a new uniform generator is outside [%lu, %lu]", g.Last(), lo, hi);
    int n = 1 + (int)src.below(300);
    for (int i = 0; i < n; i++) {
      bool un = src.below(2);
      u64 v = un ? g.NextUnlocked() : g.Next();
      PBT_LOG("%lu", v);
      PBT_CHECK(v >= lo && v <= hi, "uniform value %lu is outside [%lu, %lu]", v, lo, hi);
      PBT_CHECK(g.Last() == v && g.LastUnlocked() == v, "the last value is reported as %lu after %lu", g.Last(), v);
    }
    if (n > 20) pbt::nontrivial();
  });
}
void counter() {
  fresh([] {
    u64 s = any_base();
    CounterGenerator g(s);
    TG &b = g;
    int n = 1 + (int)src.below(100);
    PBT_LOG("CounterGenerator(%lu)", s);
    for (int i = 0; i < n; i++) switch (src.below(8)) {
      case 0: s = any_base(); g.Set(s); PBT_LOG("Set(%lu)", s); break;
      case 1: if (s) PBT_CHECK(b.Last() == s - 1, "the last count is reported as %lu, not %lu", b.Last(), s - 1); break;
      default: { u64 v = b.Next(); PBT_LOG("%lu", v); PBT_CHECK(v == s, "the count is %lu, not %lu", v, s); s++; PBT_CHECK(b.Last() == v, "the last count is reported as %lu after %lu", b.Last(), v); }
      }
    int c = (int)src.below(1 << 20);
    ConstGenerator k(c);
    for (int i = 0; i < 3; i++) PBT_CHECK(k.Next() == (u64)c && k.Last() == (u64)c, "the constant generator does not yield %d", c);
    if (n > 10) pbt::nontrivial();
  });
}
bool in(u64 v, u64 lo, u64 n) { return (v >= lo && v - lo < n) || (LOW_RANKS && v < 2); }
template <typename G> void drawz(G &g, u64 lo, u64 n, int k, const char *what) {
  for (int i = 0; i < k; i++) {
    u64 v = g.Next();
    PBT_LOG("%s -> %lu", what, v);
    PBT_CHECK(in(v, lo, n), "%s value %lu is outside [%lu, %lu]", what, v, lo, lo + n - 1);
    PBT_CHECK(g.Last() == v, "%s: the last value is reported as %lu after %lu", what, g.Last(), v);
  }
}
u64 zsize() { static const u64 C[] = {2, 3, 5, 10, 50, 50, 1000, 20000}; return 2 + src.below(C[src.below(8)]); }
void zipf() {
  fresh([] {
    u64 lo = any_base(), n = zsize();
    if (LOW_RANKS) lo %= 1000000; // larger ones lose digits
    double th = theta();
    bool dflt = src.below(4) == 3;
    if (dflt) lo = 0;
    PBT_LOG("ZipfianGenerator [%lu, %lu] theta %g", lo, lo + n - 1, dflt ? 0.99 : th);
    std::unique_ptr<ZipfianGenerator> g(dflt ? new ZipfianGenerator(n) : new ZipfianGenerator(lo, lo + n - 1, th));
    PBT_CHECK(in(g->Last(), lo, n), "the last value %lu of a new Zipfian generator is outside its range", g->Last());
    drawz(*g, lo, n, 1 + (int)src.below(200), "Zipfian");
    int rounds = (int)src.below(4);
    for (int r = 0; r < rounds; r++) { // other item counts, larger and smaller
      u64 m = src.below(3) ? n + skewed(2000) : zsize();
      if (NO_GROWTH && n == 2) m = n;
      int k = 1 + (int)src.below(60);
      for (int i = 0; i < k; i++) {
        bool un = src.below(2);
        u64 v = un ? g->NextUnlocked(m) : g->Next(m);
        PBT_LOG("Next(%lu) -> %lu", m, v);
        PBT_CHECK(in(v, lo, m), "Zipfian value %lu for %lu items is outside [%lu, %lu]", v, m, lo, lo + m - 1);
        PBT_CHECK(g->Last() == v && g->LastUnlocked() == v, "Zipfian: the last value is reported as %lu after %lu", g->Last(), v);
      }
      drawz(*g, lo, n, 1 + (int)src.below(40), "Zipfian");
      for (int i = 0; i < 5; i++) { u64 v = g->NextUnlocked(); PBT_CHECK(in(v, lo, n), "Zipfian value %lu is outside its range", v); }
    }
    if (lo) pbt::label("range not starting at zero");
    if (rounds) { pbt::label("item count changed"); }
    if (lo || rounds) pbt::nontrivial();
  });
}
void scrambled() {
  fresh([] {
    u64 lo = any_base(), n = zsize();
    bool dflt = src.below(4) == 3;
    if (dflt) lo = 0;
    double th = theta();
    PBT_LOG("ScrambledZipfianGenerator [%lu, %lu] theta %g", lo, lo + n - 1, th);
    std::unique_ptr<ScrambledZipfianGenerator> g(dflt ? new ScrambledZipfianGenerator(n) : src.below(2) ? new ScrambledZipfianGenerator(lo, lo + n - 1) : new ScrambledZipfianGenerator(lo, lo + n - 1, th));
    PBT_CHECK(g->Last() >= lo && g->Last() - lo < n, "the last value %lu of a new scrambled generator is outside [%lu, %lu]", g->Last(), lo, lo + n - 1);
    drawz(*g, lo, n, 1 + (int)src.below(300), "scrambled Zipfian");
    if (lo) { pbt::label("range not starting at zero"); pbt::nontrivial(); }
  });
}
void latest() {
  fresh([] {
    u64 s = (NO_GROWTH ? 4 : 3) + skewed(3000);
    CounterGenerator c(s);
    SkewedLatestGenerator g(c);
    PBT_LOG("SkewedLatestGenerator over a counter at %lu", s);
    PBT_CHECK(g.Last() < s, "the last value %lu of a new latest-skewed generator is not below the counter %lu", g.Last(), s);
    int n = 1 + (int)src.below(200), grown = 0;
    for (int i = 0; i < n; i++) {
      switch (src.below(10)) {
      case 0: { int k = (int)src.below(20); for (int j = 0; j < k; j++) c.Next(); s += k; grown += k; PBT_LOG("counter + %d", k); break; }
      case 1: if (src.below(4) == 3) { s = 3 + skewed(3000); c.Set(s); PBT_LOG("counter = %lu", s); grown++; } break;
      default: break;
      }
      u64 v = g.Next();
      PBT_LOG("%lu", v);
      PBT_CHECK(v < s, "latest-skewed value %lu is not below the counter %lu", v, s);
      PBT_CHECK(g.Last() == v, "latest-skewed: the last value is reported as %lu after %lu", g.Last(), v);
    }
    if (grown) pbt::nontrivial();
  });
}
void discrete() {
  fresh([] {
    DiscreteGenerator<int> g;
    std::map<int, double> w;
    auto add = [&] {
      int v = (int)src.range(-3, 8);
      double x = src.below(4) == 3 ? 0 : src.below(2) ? (double)src.below(1000) / 100 : (double)(1 + src.below(100)) / 1e6;
      if (w.empty() && x == 0 ) x = 1;
      PBT_LOG("AddValue(%d, %g)", v, x);
      g.AddValue(v, x);
      w[v] += x;
    };
    auto total = [&] { double t = 0; for (auto &p : w) t += p.second; return t; };
    add();
    while (src.more(4)) add();
    int n = 1 + (int)src.below(200);
    for (int i = 0; i < n; i++) {
      if (src.below(20) == 19) add();
      if (total() <= 0) return;
      int v = g.Next();
      PBT_LOG("%d", v);
      PBT_CHECK(w.count(v) && w[v] > 0, "the discrete generator yields %d, which has no weight", v);
      PBT_CHECK(g.Last() == v, "discrete: the last value is reported as %d after %d", (int)g.Last(), v);
    }
    if (w.size() > 1) pbt::nontrivial();
  });
}
pbt::RegProbe p1("P21", "zipfian-lower-bound", [] { fresh([] {
  ZipfianGenerator g(10, 19);
  for (int i = 0; i < 100; i++) { u64 v = g.Next(); PBT_LOG("Zipfian over [10, 19] yields %lu", v); PBT_CHECK(v >= 10 && v <= 19, "Zipfian over [10, 19] yields %lu", v); }
}); });
pbt::RegProbe p2("P21", "zipfian-growth", [] { fresh([] {
  ZipfianGenerator g(2);
  for (int i = 0; i < 100; i++) { u64 v = g.Next(50); PBT_LOG("Zipfian over 2, then 50 items yields %lu", v); PBT_CHECK(v < 50, "Zipfian over 2, then 50 items yields %lu", v); }
}); });
pbt::Reg a1("P21", "uniform", uni), a2("P21", "counter", counter, 5), a3("P21", "zipfian", zipf), a4("P21", "scrambled", scrambled), a5("P21", "latest", latest), a6("P21", "discrete", discrete);
#endif

#if defined(P21) && defined(PBT_SCHED)
// generators shared by threads: every count is handed out once, values in range
void shared_case() {
  sim::opts.tso = true;
  int nt = 2 + (int)src.below(3);
  u64 s = src.below(2) ? 0 : src.below(1000000), lo = src.below(100), hi = lo + src.below(20);
  CounterGenerator c(s);
  UniformGenerator u(lo, hi);
  std::vector<std::vector<int>> prog(nt);
  std::vector<std::vector<u64>> got(nt);
  size_t n = 0;
  for (auto &p : prog) while (src.more(5) && p.size() < 14) p.push_back((int)src.below(8));
  for (auto &p : prog) for (int o : p) n += o < 5;
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      for (int o : prog[t]) {
        if (o < 5) got[t].push_back(c.Next());
        else if (o < 7) { u64 v = u.Next(); PBT_CHECK(v >= lo && v <= hi, "uniform value %lu is outside [%lu, %lu]", v, lo, hi); }
        else { u64 v = u.Last(); PBT_CHECK(v >= lo && v <= hi, "last uniform value %lu is outside [%lu, %lu]", v, lo, hi); }
      }
    });
  sim::run();
  std::set<u64> all;
  for (auto &g : got) for (size_t i = 0; i < g.size(); i++) {
    PBT_CHECK(g[i] >= s && g[i] < s + n, "the shared counter yields %lu, outside [%lu, %lu)", g[i], s, s + n);
    PBT_CHECK(!i || g[i] > g[i - 1], "the shared counter goes back from %lu to %lu", g[i - 1], g[i]);
    PBT_CHECK(all.insert(g[i]).second, "the shared counter yields %lu twice", g[i]);
  }
  if (n > 3 && sim::switches() > 6) pbt::nontrivial();
}
pbt::Reg a1("P21", "threads", shared_case);
#endif

#if (defined(P22) || defined(P24) || defined(P23)) && !defined(PBT_SCHED)
// The cumulative distribution of the usual closed-form approximation of a
// Zipf law (Gray et al., SIGMOD 94), and the exact one.
struct Zipf {
  u64 n; double th;
  std::vector<double> exact; // P(rank < k)
  double zeta, zeta2, eta;
  Zipf(u64 n_, double th_) : n(n_), th(th_) {
    exact.resize(n + 1);
    double z = 0;
    for (u64 i = 1; i <= n; i++) { z += std::pow((double)i, -th); exact[i] = z; }
    for (auto &x : exact) x /= z;
    zeta = z; zeta2 = 1 + std::pow(0.5, th);
    eta = (1 - std::pow(2.0 / n, 1 - th)) / (1 - zeta2 / zeta);
  }
  double gray(u64 k) const {
    if (k == 0) return 0;
    if (k >= n) return 1;
    if (k == 1) return 1 / zeta;
    double u = (std::pow((double)k / n, 1 - th) - 1 + eta) / eta;
    return std::min(1.0, std::max(u, zeta2 / zeta));
  }
  // how far an empirical distribution function may be from the exact one
  double slack(u64 k, double draws) const {
    double p = exact[k], g = gray(k), q = std::max(p * (1 - p), g * (1 - g));
    return std::fabs(g - p) + 7 * std::sqrt(q / draws) + 0.003;
  }
};
void check_ranks(const std::vector<u64> &count, u64 draws, double th, const char *what) {
  Zipf z(count.size(), th);
  u64 c = 0;
  for (u64 k = 1; k < count.size(); k++) {
    c += count[k - 1];
    double e = (double)c / draws;
    PBT_CHECK(std::fabs(e - z.exact[k]) <= z.slack(k, draws),
              "%s, %lu items, exponent %g: the first %lu ranks get %.4f of %lu draws, a Zipf law gives them %.4f (allowed difference %.4f)", what, count.size(), th, k, e, draws, z.exact[k], z.slack(k, draws));
  }
}
void check_even(const std::vector<u64> &count, u64 draws, const char *what) {
  if (count.size() < 2) return;
  double e = (double)draws / count.size(), x = 0;
  for (u64 c : count) x += (c - e) * (c - e) / e;
  double df = count.size() - 1;
  PBT_CHECK(x <= df + 7 * std::sqrt(2 * df) + 40, "%s: draws are not even over the range: chi square %.1f with %g degrees of freedom", what, x, df);
}
void check_share(double got, double want, double draws, const char *what) {
  PBT_CHECK(std::fabs(got - want) <= 7 * std::sqrt(want * (1 - want) / draws) + 0.003, "%s: share %.4f of the draws instead of %.4f", what, got, want);
}
#endif

#if defined(P22) && !defined(PBT_SCHED)
int draws() { static const int D[] = {20000, 4000, 20000, 50000}; return D[src.below(4)]; }
void d_uni() {
  fresh([] {
    int N = draws();
    u64 lo = any_base(), span = 2 + (src.below(2) ? src.below(60) : skewed(~0ull >> 8)), cells = std::min<u64>(span, 64);
    PBT_LOG("UniformGenerator(%lu, %lu), %d draws", lo, lo + span - 1, N);
    UniformGenerator g(lo, lo + span - 1);
    std::vector<u64> c(cells);
    if (span > 64 && span < 6400) { span -= span % 64; } // whole cells only
    u64 n = 0;
    for (int i = 0; i < N; i++) { u64 v = g.Next() - lo; if (v >= span) continue; n++; c[(unsigned __int128)v * cells / span]++; }
    PBT_CHECK(n > (u64)N / 3, "uniform draws leave out most of the range");
    check_even(c, n, "uniform generator");
    pbt::nontrivial();
  });
}
u64 dsize() { static const u64 C[] = {2, 5, 20, 100, 1000, 5000}; return 2 + src.below(C[src.below(6)]); }
void d_zipf() {
  fresh([] {
    int N = draws();
    u64 lo = any_base(), n = dsize(), now = n;
    double th = theta();
    if (src.below(3) == 2) { th = 0.99; lo = 0; }
    if (LOW_RANKS) lo = 0;
    bool dflt = th == 0.99 && lo == 0 && src.below(2);
    std::unique_ptr<ZipfianGenerator> g(dflt ? new ZipfianGenerator(n) : new ZipfianGenerator(lo, lo + n - 1, th));
    PBT_LOG("ZipfianGenerator(%lu, %lu, %g), %d draws", lo, lo + n - 1, th, N);
    int stages = 1 + (int)src.below(4);
    if (NO_GROWTH) stages = 1;
    for (int s = 0; s < stages; s++) {
      if (s) { u64 add = src.below(3) ? skewed(3 * n + 10) : skewed(8000); now += add; PBT_LOG("grows to %lu items", now); }
      if (s && s + 1 < stages && src.below(2)) { for (int i = 0; i < 3; i++) g->Next(now); continue; } // grows on without being measured
      std::vector<u64> c(now);
      for (int i = 0; i < N; i++) { u64 v = (now == n && src.below(1) == 0 ? g->Next() : g->Next(now)) - lo; PBT_CHECK(v < now, "Zipfian value out of range"); c[v]++; }
      check_ranks(c, N, th, s ? "Zipfian generator after growth" : "Zipfian generator");
    }
    if (stages > 1) pbt::label("item count grew");
    if (n > 10) pbt::nontrivial();
  });
}
void d_scr() {
  fresh([] {
    int N = draws();
    u64 lo = any_base(), n = dsize();
    if (LOW_RANKS) lo %= 1000000; // larger ones lose digits
    double th = theta();
    bool dflt = src.below(3) == 2;
    if (dflt) { th = 0.99; lo = 0; }
    std::unique_ptr<ScrambledZipfianGenerator> g(dflt ? new ScrambledZipfianGenerator(n) : new ScrambledZipfianGenerator(lo, lo + n - 1, th));
    PBT_LOG("ScrambledZipfianGenerator(%lu, %lu, %g), %d draws", lo, lo + n - 1, th, N);
    std::vector<u64> c(n);
    for (int i = 0; i < N; i++) { u64 v = g->Next() - lo; PBT_CHECK(v < n, "scrambled Zipfian value out of range"); c[v]++; }
    Zipf z(n, th);
    // the skew is preserved: the k most drawn items get at least what the k
    // first ranks do (several ranks may meet in one item)
    std::vector<u64> top(c);
    std::sort(top.rbegin(), top.rend());
    u64 got = 0;
    for (u64 k = 1; k <= std::min<u64>(n, 40); k++) {
      got += top[k - 1];
      double e = (double)got / N;
      PBT_CHECK(e >= std::min(z.exact[k], z.gray(k)) - z.slack(k, N), "scrambled Zipfian, %lu items, exponent %g: the %lu most drawn items get %.4f of the draws, a Zipf law gives %.4f", n, th, k, e, z.exact[k]);
    }
    // and spread over the range: no part of it gets much more than its size
    double sq = 0;
    for (u64 i = 1; i <= n; i++) { double p = std::max(z.exact[i] - z.exact[i - 1], z.gray(i) - z.gray(i - 1)); sq += p * p; }
    if (n >= 64) for (int q = 0; q < 4; q++) {
      u64 b = n * q / 4, e = n * (q + 1) / 4, s = 0;
      for (u64 i = b; i < e; i++) s += c[i];
      double want = (double)(e - b) / n, allow = 7 * std::sqrt(0.1875 * sq) + 7 * std::sqrt(0.1875 / N) + 0.01;
      PBT_CHECK(std::fabs((double)s / N - want) <= allow, "scrambled Zipfian, %lu items, exponent %g: quarter %d of the range gets %.4f of the draws (allowed %.4f +- %.4f)", n, th, q, (double)s / N, want, allow);
      if (allow < 0.25) pbt::label("spread judged");
    }
    if (n > 10) pbt::nontrivial();
  });
}
void d_latest() {
  fresh([] {
    int N = draws();
    u64 s = 3 + dsize();
    CounterGenerator c(s);
    SkewedLatestGenerator g(c);
    PBT_LOG("SkewedLatestGenerator over %lu items, %d draws", s, N);
    int stages = 1 + (int)src.below(3);
    if (NO_GROWTH) stages = 1;
    for (int st = 0; st < stages; st++) {
      if (st) { u64 k = skewed(2 * s); for (u64 i = 0; i < k; i++) c.Next(); s += k; PBT_LOG("grows to %lu", s); }
      std::vector<u64> cnt(s - 1); // item s-1 is the most recent
      for (int i = 0; i < N; i++) { u64 v = g.Next(); PBT_CHECK(v < s, "latest-skewed value out of range"); if (s - 1 - v < cnt.size()) cnt[s - 1 - v]++; }
      check_ranks(cnt, N, 0.99, "latest-skewed generator, by age");
    }
    if (stages > 1) pbt::label("items added");
    pbt::nontrivial();
  });
}
void d_disc() {
  fresh([] {
    int N = draws();
    DiscreteGenerator<int> g;
    std::map<int, double> w;
    int k = 1 + (int)src.below(8);
    auto add = [&] {
      double x = src.below(5) == 4 ? 0 : src.below(3) ? (double)(1 + src.below(100)) / 100 : (double)(1 + src.below(100)) * 10;
      int v = (int)src.below(10);
      g.AddValue(v, x); w[v] += x;
      PBT_LOG("AddValue(%d, %g)", v, x);
    };
    for (int i = 0; i < k; i++) add();
    int stages = 1 + (int)src.below(2);
    for (int st = 0; st < stages; st++) {
      if (st) add();
      double t = 0;
      for (auto &p : w) t += p.second;
      if (t <= 0) return;
      std::map<int, u64> c;
      for (int i = 0; i < N; i++) c[g.Next()]++;
      for (auto &p : c) PBT_CHECK(w.count(p.first) && w[p.first] > 0, "the discrete generator yields %d, which has no weight", p.first);
      for (auto &p : w) check_share((double)c[p.first] / N, p.second / t, N, "discrete generator, one value");
    }
    if (w.size() > 1) pbt::nontrivial();
  });
}
pbt::RegProbe p1("P22", "zipfian-lower-bound", [] { fresh([] {
  ZipfianGenerator g(10, 109);
  std::vector<u64> c(100);
  for (int i = 0; i < 20000; i++) { u64 v = g.Next(); if (v >= 10 && v < 110) c[v - 10]++; }
  check_ranks(c, 20000, 0.99, "Zipfian generator over [10, 109]");
}); });
pbt::RegProbe p2("P22", "zipfian-growth", [] { fresh([] {
  ZipfianGenerator g(10);
  std::vector<u64> c(5000);
  for (int i = 0; i < 20000; i++) c[std::min<u64>(g.Next(5000), 4999)]++;
  check_ranks(c, 20000, 0.99, "Zipfian generator after growth from 10");
}); });
pbt::Reg a1("P22", "uniform", d_uni, 5), a2("P22", "zipfian", d_zipf), a3("P22", "scrambled", d_scr), a4("P22", "latest", d_latest), a5("P22", "discrete", d_disc, 5);
#endif

#if !defined(PBT_SCHED)
struct TextFile { // a file without a name
  int fd;
  std::string path;
  TextFile(const std::string &t) {
    fd = memfd_create("text", 0);
    if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) abort();
    path = "/proc/self/fd/" + std::to_string(fd);
  }
  ~TextFile() { close(fd); }
};
#endif
#if defined(P23) && !defined(PBT_SCHED)
bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
std::string strip(const std::string &s) {
  size_t b = 0, e = s.size();
  while (b < e && blank(s[b])) b++;
  while (e > b && blank(s[e - 1])) e--;
  return s.substr(b, e - b);
}
std::string show(const std::string &s) {
  std::string o;
  for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126) snprintf(b, 8, "\\x%02x", c); else snprintf(b, 8, "%c", c); o += b; }
  return o;
}
std::string word(bool eq, int mean) {
  static const char T[] = "abkey019_.-xyz  \t\r\v\f#\0\xff\xe9\"\\";
  static const std::string A(T, sizeof T - 1);
  std::string s;
  while (src.more(mean) && s.size() < 5000) { char c = A[src.below(A.size())]; s += eq && src.below(12) == 11 ? '=' : c; }
  return s;
}
std::string blanks() { static const char B[] = " \t\r\v\f"; std::string s; while (src.more(1)) s += B[src.below(5)]; return s; }
void load() {
  utils::Properties p;
  std::map<std::string, std::string> want;
  std::vector<std::string> keys = {"recordcount", "a", "b", "ab", "", "field_len_dist"};
  int texts = 1 + (int)src.below(3), lines = 0, over = 0;
  auto put = [&](const std::string &k, const std::string &v) { if (want.count(k)) over++; want[k] = v; };
  for (int t = 0; t < texts; t++) {
    if (src.below(4) == 3) { auto k = src.pick(keys); auto v = word(true, 4); p.SetProperty(k, v); put(k, v); PBT_LOG("SetProperty(%s, %s)", show(k).c_str(), show(v).c_str()); }
    std::string text;
    while (src.more(6)) {
      std::string l;
      switch (src.below(9)) {
      case 0: break;
      case 1: l = "#" + word(true, 8); break;
      case 2: l = blanks(); break;
      case 3: l = "no separator " + word(false, 6); break;
      case 4: l = word(true, 10); break;
      case 5: l = blanks() + word(false, 4) + blanks() + "=" + blanks() + word(true, src.below(20) ? 6 : 600) + blanks(); break;
      default: l = blanks() + src.pick(keys) + blanks() + "=" + blanks() + word(true, 5) + blanks(); break;
      }
      size_t f = l.find_first_not_of(" \t\n\v\f\r");
      if (f && f != std::string::npos && l[f] == '#') continue; // an indented comment: left open
      text += l;
      lines++;
      bool last = src.below(8) == 7; // the last line need not end
      if (!last) text += "\n";
      size_t e = l.find('=');
      if ((l.empty() || l[0] != '#') && e != std::string::npos) put(strip(l.substr(0, e)), strip(l.substr(e + 1)));
      PBT_LOG("line |%s|%s", show(l).c_str(), last ? " (end of the text)" : "");
      if (last) break;
    }
    TextFile f(text);
    std::ifstream in(f.path);
    PBT_CHECK(p.Load(in), "loading a text fails");
    const auto &got = p.properties();
    for (auto &w : want) {
      PBT_CHECK(got.count(w.first), "property \"%s\" is missing after loading", show(w.first).c_str());
      PBT_CHECK(got.at(w.first) == w.second, "property \"%s\" is \"%s\" instead of \"%s\"", show(w.first).c_str(), show(got.at(w.first)).c_str(), show(w.second).c_str());
      PBT_CHECK(p.GetProperty(w.first, "other") == w.second && p.GetProperty(w.first) == w.second && p[w.first] == w.second, "looking up \"%s\" does not give its value", show(w.first).c_str());
    }
    for (auto &g : got) PBT_CHECK(want.count(g.first), "property \"%s\" comes from nowhere", show(g.first).c_str());
    for (auto &k : keys) if (!want.count(k)) {
      PBT_CHECK(p.GetProperty(k, "the default") == "the default" && p.GetProperty(k) == "", "a property that is not set does not give the default");
      bool thrown = false;
      try { p[k]; } catch (const std::exception &) { thrown = true; }
      PBT_CHECK(thrown, "operator[] finds a property that is not set");
      PBT_CHECK(!p.properties().count(k), "looking up a property sets it");
    }
  }
  std::ifstream none;
  bool thrown = false;
  try { p.Load(none); } catch (const utils::Exception &e) { thrown = *e.what() != 0; }
  PBT_CHECK(thrown, "loading a file that is not open goes unnoticed");
  if (over) pbt::label("a key is set again");
  if (lines > 3) pbt::nontrivial();
}
u64 fnv(u64 v) {
  unsigned __int128 h = 14695981039346656037ull;
  for (int i = 0; i < 64; i += 8) { h ^= (v >> i) & 255; h = (h * 1099511628211ull) & ~0ull; }
  return (u64)h;
}
void helpers() {
  fresh([] {
    for (int i = 0; i < 5; i++) {
      std::string s = blanks() + word(true, src.below(10) ? 5 : 200) + blanks();
      if (src.below(3) == 2) s += "\n";
      PBT_LOG("Trim(\"%s\")", show(s).c_str());
      PBT_CHECK(utils::Trim(s) == strip(s), "Trim(\"%s\") gives \"%s\"", show(s).c_str(), show(utils::Trim(s)).c_str());
      static const std::vector<std::string> W = {"true", "false", "1", "0", "t", "yes", "", "tru", "truee", "false ", " 0", "01", "10", "2", "00", "11", "fals"};
      std::string b = src.pick(W), low = b;
      for (auto &c : b) if (src.below(2)) c = (char)toupper(c);
      int want = low == "true" || low == "1" ? 1 : low == "false" || low == "0" ? 0 : 2, got;
      try { got = utils::StrToBool(b); } catch (const utils::Exception &) { got = 2; }
      PBT_LOG("StrToBool(\"%s\") -> %d", b.c_str(), got);
      PBT_CHECK(got == want, "StrToBool(\"%s\") gives %s", b.c_str(), got == 2 ? "an exception" : got ? "true" : "false");
      u64 v = src.below(2) ? src.below(1000) : src.u64();
      PBT_CHECK(utils::FNVHash64(v) == fnv(v) && utils::Hash(v) == fnv(v), "the hash of %lu is %lx, the FNV-1a hash of its bytes is %lx", v, utils::FNVHash64(v), fnv(v));
      char c = utils::RandomPrintChar();
      PBT_CHECK(c >= 33 && c <= 126, "RandomPrintChar gives %d", c);
      double lo = src.below(2) ? 0 : (double)src.range(-1000, 1000) / 8, hi = lo + (double)(1 + src.below(2000)) / 16;
      if (FIRST_BOUNDS) lo = 0, hi = 1;
      double d = utils::RandomDouble(lo, hi);
      PBT_CHECK(d >= lo && d < hi, "RandomDouble(%g, %g) gives %g", lo, hi, d);
      d = utils::RandomDouble();
      PBT_CHECK(d >= 0 && d < 1, "RandomDouble() gives %g", d);
    }
    pbt::nontrivial();
  });
}
template <typename T> void values() {
  using L = std::numeric_limits<T>;
  T lo, hi;
  switch (src.below(4)) {
  case 0: lo = (T)src.below(10); hi = (T)(lo + (T)src.below(10)); break;
  case 1: lo = L::min(); hi = L::max(); break;
  case 2: lo = L::max() - (T)src.below(3); hi = L::max(); break;
  default: lo = L::min(); hi = (T)(L::min() + (T)src.below(1000)); break;
  }
  size_t n = src.below(300);
  PBT_LOG("generateRandomValues(%zu, %s, %s)", n, std::to_string(lo).c_str(), std::to_string(hi).c_str());
  auto v = utils::generateRandomValues<T>(n, lo, hi);
  std::set<T> seen;
  for (size_t i = 0; i < n; i++) { PBT_CHECK(v[i] >= lo && v[i] <= hi, "random value %s is outside the range", std::to_string(v[i]).c_str()); seen.insert(v[i]); }
  if (n >= 200 && hi != lo) PBT_CHECK(seen.size() > 1, "all %zu random values are the same", n);
  pbt::nontrivial();
}
void randoms() { // the helpers' distributions
  fresh([] {
    int N = 20000;
    double lo = src.below(2) ? 0 : (double)src.range(-1000, 1000) / 8, hi = lo + (double)(1 + src.below(2000)) / 16;
    std::vector<u64> c(50), e(94);
    for (int i = 0; i < N; i++) {
      double d = (utils::RandomDouble(lo, hi) - lo) / (hi - lo);
      PBT_CHECK(d >= 0 && d < 1, "RandomDouble(%g, %g) is out of range", lo, hi);
      c[std::min(49, (int)(d * 50))]++;
      char p = utils::RandomPrintChar();
      PBT_CHECK(p >= 33 && p <= 126, "RandomPrintChar gives %d", p);
      e[p - 33]++;
    }
    check_even(c, N, "RandomDouble");
    check_even(e, N, "RandomPrintChar");
    pbt::nontrivial();
  }, !FIRST_BOUNDS);
}
pbt::RegProbe p1("P23", "randomdouble-bounds", [] { fresh([] {
  utils::RandomDouble();
  double d = utils::RandomDouble(5, 6);
  PBT_LOG("RandomDouble() then RandomDouble(5, 6) = %g", d);
  PBT_CHECK(d >= 5 && d < 6, "RandomDouble(5, 6) after RandomDouble() gives %g", d);
}); });
pbt::Reg a1("P23", "load", load, 20), a2("P23", "helpers", helpers, 10), a3("P23", "values", [] {
  switch (src.below(6)) {
  case 0: values<int>(); break;
  case 1: values<u64>(); break;
  case 2: values<long>(); break;
  case 3: values<unsigned>(); break;
  case 4: values<short>(); break;
  default: values<unsigned short>(); break;
  }
}, 3), a4("P23", "randoms", randoms, 1);
#endif

#ifdef P24
struct Call { int op; std::string table, key; bool all; std::vector<std::string> fields; std::map<std::string, std::string> values; int count, len; };
enum { C_READ, C_SCAN, C_UPDATE, C_INSERT, C_DELETE };
struct Recorder : DB {
  std::mutex m;
  std::vector<Call> calls;
  int status = 0, inits = 0, closes = 0;
  bool keep = true;
  size_t inserts = 0, others = 0;
  void Init() override { std::lock_guard<std::mutex> g(m); inits++; }
  void Close() override { std::lock_guard<std::mutex> g(m); closes++; }
  int add(Call c) {
    std::lock_guard<std::mutex> g(m);
    calls.push_back(std::move(c));
    return status;
  }
  static std::vector<std::string> names(const FieldSet *f) { std::vector<std::string> v; if (f) v.assign(f->begin(), f->end()); return v; }
  int Read(const std::string &t, const std::string &k, const FieldSet *f, int n, std::vector<KVPair> &) override { return add({C_READ, t, k, !f, names(f), {}, n, 0}); }
  int Scan(const std::string &t, const std::string &k, int len, const FieldSet *f, int n, std::vector<std::vector<KVPair>> &) override { return add({C_SCAN, t, k, !f, names(f), {}, n, len}); }
  int Update(const std::string &t, const std::string &k, int n, FieldMap &v) override { Call c{C_UPDATE, t, k, true, {}, {}, n, 0}; for (auto &p : v) c.values[p.first] = p.second; return add(c); }
  int Insert(const std::string &t, const std::string &k, std::vector<KVPair> &v) override {
    Call c{C_INSERT, t, k, true, {}, {}, (int)v.size(), 0};
    for (auto &p : v) PBT_CHECK(c.values.emplace(p.first, p.second).second, "a new record has field %s twice", p.first.c_str());
    return add(c);
  }
  int Delete(const std::string &t, const std::string &k) override { return add({C_DELETE, t, k, true, {}, {}, 0, 0}); }
};
struct Cfg {
  utils::Properties p;
  std::string text, table = "usertable", req = "uniform", lend = "constant", scand = "uniform";
  int records, ops, fields = 10, flen = 100, maxscan = 1000, start = 0;
  bool readall = true, writeall = false, ordered = false;
  double prop[5] = {0.95, 0.05, 0, 0, 0}; // read update insert scan rmw
  void set(const char *k, const std::string &v) { p.SetProperty(k, v); text += std::string(k) + "=" + v + "\n"; PBT_LOG("%s=%s", k, v.c_str()); }
  static std::string boolean(bool b) { static const char *T[] = {"true", "1", "True", "false", "0", "FALSE"}; return T[(b ? 0 : 3) + src.below(3)]; }
  void draw(bool sched) {
    static const int R[] = {5, 30, 100, 1000, 5000};
    req = src.pick(std::vector<std::string>{"uniform", "zipfian", "latest"});
    records = (req == "latest" ? 3 : req == "zipfian" ? 2 : 1) + (int)src.below(R[src.below(sched ? 2 : 5)]);
    ops = (int)src.below(R[src.below(sched ? 2 : 5)] + 1);
    if (sched && req != "uniform") req = "uniform";
    if (src.below(2) || req != "uniform") set("requestdistribution", req);
    set("recordcount", std::to_string(records));
    set("operationcount", std::to_string(ops));
    if (src.below(4) == 3) { table = "t" + std::to_string(src.below(20)); set("table", table); }
    if (src.below(2)) { fields = 1 + (int)src.below(12); set("fieldcount", std::to_string(fields)); }
    if (!sched && src.below(2)) { lend = src.pick(std::vector<std::string>{"constant", "uniform", "zipfian"}); set("field_len_dist", lend); }
    if (src.below(4) || sched) { flen = (lend == "zipfian" ? 2 : 1) + (int)src.below(src.below(5) ? 12 : 150); set("fieldlength", std::to_string(flen)); }
    if (src.below(2)) { readall = src.below(2); set("readallfields", boolean(readall)); }
    if (src.below(2)) { writeall = src.below(2); set("writeallfields", boolean(writeall)); }
    static const char *N[] = {"readproportion", "updateproportion", "insertproportion", "scanproportion", "readmodifywriteproportion"};
    int style = (int)src.below(3);
    double sum = 0;
    for (int i = 0; i < 5; i++) {
      if (style == 0 && src.below(2)) { if (prop[i] == 0) continue; }
      else { prop[i] = src.below(3) == 0 ? 0 : (double)(1 + src.below(20)) / (style == 1 ? 20 : 100); char b[32]; snprintf(b, 32, "%g", prop[i]); set(N[i], b); }
    }
    for (double x : prop) sum += x;
    if (sum <= 0) { prop[0] = 1; set(N[0], "1"); }
    int add = (int)(ops * prop[2] * 2), had = records;
    auto share = [&] { // of the draws that are existing records
      double z = 0, e = 0;
      u64 n = records + add;
      for (u64 k = 0; k < n; k++) { double p = std::pow(k + 1.0, -0.99); z += p; if (utils::FNVHash64(k) % n < (u64)records) e += p; }
      return e / z;
    };
    if (MANY_RECORDS && req == "zipfian" && add) while (share() < 0.02) records += records / 2 + 1;
    if (records != had) set("recordcount", std::to_string(records));
    scand = src.below(3) == 2 && !sched ? "zipfian" : "uniform";
    if (scand == "zipfian" || src.below(2)) set("scanlengthdistribution", scand);
    if (src.below(2)) { maxscan = (scand == "zipfian" ? 2 : 1) + (int)src.below(src.below(2) ? 10 : 3000); set("maxscanlength", std::to_string(maxscan)); }
    if (src.below(2)) { ordered = src.below(2); set("insertorder", ordered ? "ordered" : "hashed"); }
  }
  bool asked(const std::string &f) const { return is_field(f) || (DOUBLE_PREFIX && f.compare(0, 10, "fieldfield") == 0 && is_field(f.substr(5))); }
  bool is_field(const std::string &f) const {
    for (int i = 0; i < fields; i++) if (f == "field" + std::to_string(i)) return true;
    return false;
  }
  void value(const std::string &v) const {
    PBT_CHECK(lend == "constant" ? (int)v.size() == flen : (!v.empty() || (LOW_RANKS && lend == "zipfian")) && (int)v.size() <= flen, "a value has %zu characters; %s field length %d is configured", v.size(), lend.c_str(), flen);
    for (char c : v) PBT_CHECK(c >= 33 && c <= 126, "a value contains the character %d", c);
  }
  void all_fields(const Call &c) const {
    PBT_CHECK((int)c.values.size() == fields, "%zu fields are written, %d are configured", c.values.size(), fields);
    for (auto &v : c.values) { PBT_CHECK(is_field(v.first), "field %s is written but not configured", v.first.c_str()); value(v.second); }
  }
  void insert(const Call &c) const { PBT_CHECK(c.op == C_INSERT && c.table == table, "an insertion does not insert a record of table %s", table.c_str()); all_fields(c); }
  void request(const Call &c) const { // fields asked for
    PBT_CHECK(c.table == table, "table %s is used instead of %s", c.table.c_str(), table.c_str());
    PBT_CHECK(c.count == fields, "the client announces %d fields, %d are configured", c.count, fields);
    if (c.op == C_UPDATE) {
      if (writeall) all_fields(c);
      else { PBT_CHECK(c.values.size() == 1 && is_field(c.values.begin()->first), "an update does not write exactly one configured field"); value(c.values.begin()->second); }
      return;
    }
    PBT_CHECK(c.all == readall, readall ? "fields are selected although all are to be read" : "all fields are read although one is to be selected");
    if (!readall) PBT_CHECK(c.fields.size() == 1 && asked(c.fields[0]), "%s is asked for, not one of the %d configured fields", c.fields.size() == 1 ? c.fields[0].c_str() : "not one field", fields);
    if (c.op == C_SCAN) PBT_CHECK((c.len >= 1 || (LOW_RANKS && c.len == 0 && scand == "zipfian")) && c.len <= maxscan, "a scan asks for %d records, the limit is %d", c.len, maxscan);
  }
};
void new_key(std::set<std::string> &keys, const Call &c, const Cfg &f, u64 nth) {
  PBT_CHECK(keys.insert(c.key).second, "key %s is inserted a second time", c.key.c_str());
  if (f.ordered) PBT_CHECK(c.key == "user" + std::to_string(nth), "the key of record %lu is %s", nth, c.key.c_str());
  else PBT_CHECK(c.key.compare(0, 4, "user") == 0, "a key is called %s", c.key.c_str());
}
#endif

#if defined(P24) && !defined(PBT_SCHED)
void workload() {
  fresh([] {
    Cfg f;
    f.draw(false);
    bool load_only = src.below(6) == 5;
    if (load_only) { f.start = (int)skewed(100000); f.set("insertstart", std::to_string(f.start)); }
    CoreWorkload wl;
    wl.Init(f.p);
    Recorder db;
    Client cl(db, wl);
    std::set<std::string> keys;
    u64 nth = f.start;
    std::vector<u64> fl(f.flen), sl(f.maxscan), fc(f.fields);
    for (int i = 0; i < f.records; i++) {
      db.status = src.below(100) == 99 ? DB::kErrorConflict : 0;
      bool ok = cl.DoInsert();
      PBT_CHECK(db.calls.size() == 1, "loading one record makes %zu calls of the store", db.calls.size());
      PBT_CHECK(ok == (db.status == 0), "loading a record reports %d when the store answers %d", ok, db.status);
      const Call &c = db.calls[0];
      f.insert(c);
      new_key(keys, c, f, nth++);
      for (auto &v : c.values) fl[std::max<size_t>(v.second.size(), 1) - 1]++;
      db.calls.clear();
    }
    if (load_only) { pbt::label("starts at another record"); pbt::nontrivial(); return; }
    double total = 0;
    for (double x : f.prop) total += x;
    static const char *N[] = {"reads", "updates", "inserts", "scans", "read-modify-writes"};
    u64 seen[5] = {}, reqs = 0;
    std::map<std::string, u64> hits;
    int N_ops = f.ops;
    for (int i = 0; i < N_ops; i++) {
      static const int ST[] = {DB::kOK, DB::kErrorNoData, DB::kErrorConflict};
      db.status = ST[src.below(20) ? 0 : src.below(3)];
      bool ok = cl.DoTransaction();
      PBT_CHECK(ok == (db.status == 0), "a transaction reports %d when the store answers %d", ok, db.status);
      PBT_CHECK(!db.calls.empty(), "a transaction does not use the store");
      const Call c = db.calls[0];
      int kind = c.op == C_INSERT ? 2 : c.op == C_SCAN ? 3 : c.op == C_UPDATE ? 1 : db.calls.size() == 2 ? 4 : 0;
      PBT_CHECK(c.op != C_DELETE && db.calls.size() == (kind == 4 ? 2u : 1u), "a transaction makes %zu calls of the store", db.calls.size());
      PBT_CHECK(f.prop[kind] > 0, "%s are made but not configured", N[kind]);
      seen[kind]++;
      if (kind == 2) {
        f.insert(c);
        new_key(keys, c, f, nth++);
        for (auto &v : c.values) fl[std::max<size_t>(v.second.size(), 1) - 1]++;
      } else {
        PBT_CHECK(keys.count(c.key), "a transaction uses record %s, which was never inserted", c.key.c_str());
        f.request(c);
        hits[c.key]++; reqs++;
        if (kind == 3) sl[std::max(c.len, 1) - 1]++;
        if (kind == 4) { const Call &u = db.calls[1]; PBT_CHECK(u.op == C_UPDATE && u.key == c.key, "read-modify-write does not update the record it read"); f.request(u); }
        const Call &w = db.calls.back();
        if (w.op == C_UPDATE) for (auto &v : w.values) fl[std::max<size_t>(v.second.size(), 1) - 1]++;
        if (!c.all) fc[std::stoi(c.fields[0].substr(c.fields[0].find_first_of("0123456789")))]++;
        if (w.op == C_UPDATE && !f.writeall) fc[std::stoi(w.values.begin()->first.substr(5))]++;
      }
      db.calls.clear();
    }
    if (N_ops >= 200) {
      for (int k = 0; k < 5; k++) check_share((double)seen[k] / N_ops, f.prop[k] / total, N_ops, N[k]);
      pbt::label("proportions judged");
    }
    auto sum = [](const std::vector<u64> &v) { u64 s = 0; for (u64 x : v) s += x; return s; };
    if (u64 n = sum(fl); n >= 400) {
      if (f.lend == "uniform" && n >= 8 * fl.size()) check_even(fl, n, "field lengths"), pbt::label("field lengths judged");
      if (f.lend == "zipfian" && !LOW_RANKS) check_ranks(fl, n, 0.99, "field lengths"), pbt::label("field lengths judged");
    }
    if (u64 n = sum(sl); n >= 400) {
      if (f.scand == "uniform") {
        if (n >= 8 * sl.size()) check_even(sl, n, "scan lengths");
        else { double s = 0; for (size_t i = 0; i < sl.size(); i++) s += (double)sl[i] * (i + 1); double w = (f.maxscan + 1) / 2.0; PBT_CHECK(std::fabs(s / n - w) <= 7 * f.maxscan * 0.2888 / std::sqrt((double)n) + 1, "scan lengths average %.1f instead of %.1f", s / n, w); }
      } else if (!LOW_RANKS) check_ranks(sl, n, 0.99, "scan lengths");
      pbt::label("scan lengths judged");
    }
    if (u64 n = sum(fc); n >= 8 * fc.size() && n >= 200) check_even(fc, n, "fields asked for or written");
    // which records are used
    if (reqs >= 400) {
      if (f.req == "uniform" && reqs >= 8u * f.records) {
        std::vector<u64> c; for (auto &h : hits) c.push_back(h.second);
        PBT_CHECK((int)c.size() <= f.records || f.prop[2] > 0, "more records are used than were loaded");
        c.resize(std::max<size_t>(c.size(), f.records));
        if ((int)c.size() == f.records) check_even(c, reqs, "records used"), pbt::label("record choice judged");
      } else if (f.req == "zipfian") {
        u64 top = 0; for (auto &h : hits) top = std::max(top, h.second);
        Zipf z(f.records + (u64)(f.ops * f.prop[2] * 2) + 1, 0.99);
        // the most popular key may be one that is not inserted yet, the second as well
        u64 r = std::min<u64>(5, z.n);
        double least = z.exact[r] - z.exact[r - 1];
        PBT_CHECK((double)top / reqs >= least / 2 - 7 * std::sqrt(least / reqs), "Zipfian requests: the most used record gets %.4f of them", (double)top / reqs);
        if (f.prop[2] == 0) { double p = z.exact[1]; PBT_CHECK((double)top / reqs >= p - 7 * std::sqrt(p / reqs) - 0.003, "Zipfian requests: the most used record gets %.4f of them instead of %.4f", (double)top / reqs, p); }
        pbt::label("record choice judged");
      } else if (f.req == "latest" && f.ordered && f.prop[2] == 0) {
        std::vector<u64> c(f.records - 1);
        for (auto &h : hits) { u64 k = std::stoull(h.first.substr(4)), age = f.records - 1 - k; if (age < c.size()) c[age] += h.second; }
        check_ranks(c, reqs, 0.99, "records used, by age");
        pbt::label("record choice judged");
      }
    }
    if (N_ops > 20) pbt::nontrivial();
  });
}
void invalid() { // wrong words are reported, not run
  fresh([] {
    Cfg f;
    f.draw(false);
    static const char *K[] = {"requestdistribution", "scanlengthdistribution", "field_len_dist", "readallfields", "writeallfields"};
    f.p.SetProperty(K[src.below(5)], src.below(2) ? "unknown" : "");
    bool thrown = false;
    CoreWorkload wl;
    try { wl.Init(f.p); } catch (const std::exception &) { thrown = true; }
    PBT_CHECK(thrown, "a configuration with an unknown word is accepted");
    pbt::nontrivial();
  });
}
} // namespace
extern "C" int repo_main(int, const char **); // the benchmark program's main
static Recorder *driver_store;
DB *DBFactory::CreateDB(utils::Properties &props) { return props["dbname"] == "recorder" ? driver_store : nullptr; }
namespace {
// the whole benchmark program, with a recording store
void driver() {
  Cfg f;
  f.draw(false);
  int threads = 1 + (int)src.below(8);
  if (EVEN_WORK) while (f.records % threads || f.ops % threads) threads--;
  Recorder db;
  driver_store = &db;
  TextFile file(f.text);
  std::string n = std::to_string(threads);
  const char *argv[] = {"ycsbc", "-db", "recorder", "-P", file.path.c_str(), "-threads", n.c_str(), nullptr};
  const char *alt[] = {"ycsbc", "-threads", n.c_str(), "-P", file.path.c_str(), "-db", "recorder", nullptr};
  PBT_LOG("ycsbc -db recorder -P file -threads %d", threads);
  repo_main(7, src.below(2) ? argv : alt);
  std::set<std::string> keys, nums;
  size_t tx = 0, i = 0;
  for (; i < db.calls.size() && (int)i < f.records; i++) {
    const Call &c = db.calls[i];
    PBT_CHECK(c.op == C_INSERT, "%d records are to be loaded with %d threads, only %zu are", f.records, threads, i);
    f.insert(c);
    PBT_CHECK(keys.insert(c.key).second, "key %s is inserted a second time", c.key.c_str());
  }
  PBT_CHECK((int)i == f.records, "%d records are to be loaded with %d threads, only %zu are", f.records, threads, i);
  if (f.ordered) for (int k = 0; k < f.records; k++) PBT_CHECK(keys.count("user" + std::to_string(k)), "record %d is not loaded", k);
  size_t reads = 0, updates = 0, rest = 0;
  for (; i < db.calls.size(); i++) {
    const Call &c = db.calls[i];
    if (c.op == C_INSERT) { f.insert(c); PBT_CHECK(keys.insert(c.key).second, "key %s is inserted a second time", c.key.c_str()); rest++; }
    else { PBT_CHECK(c.op != C_DELETE && keys.count(c.key), "a transaction uses record %s, which was never inserted", c.key.c_str()); f.request(c); if (c.op == C_READ) reads++; else if (c.op == C_UPDATE) updates++; else rest++; }
  }
  // a read-modify-write makes two calls
  tx = reads + updates + rest;
  if (f.prop[4] == 0) PBT_CHECK((int)tx == f.ops, "%d transactions are configured, %zu are run by %d threads", f.ops, tx, threads);
  else PBT_CHECK((int)tx >= f.ops && tx - f.ops <= std::min(reads, updates), "%d transactions are configured, the store is used %zu times by %d threads", f.ops, tx, threads);
  if (f.prop[4] > 0 && f.prop[0] == 0) PBT_CHECK((int)(tx - reads) == f.ops, "%d transactions are configured, %zu are run by %d threads", f.ops, tx - reads, threads);
  PBT_CHECK(db.inits == 2 * threads && db.closes == db.inits, "the store is opened %d times and closed %d times by %d threads", db.inits, db.closes, threads);
  if (f.records % threads || f.ops % threads) pbt::label("work not divisible by the threads");
  if (threads > 1) pbt::nontrivial();
}
void small(Cfg &f, int records, int ops) {
  f.records = records; f.ops = ops;
  f.set("recordcount", std::to_string(records)); f.set("operationcount", std::to_string(ops));
}
pbt::RegProbe p1("P24", "client-field-names", [] { fresh([] {
  Cfg f; small(f, 5, 5);
  f.set("readallfields", "false"); f.set("readproportion", "1"); f.set("updateproportion", "0");
  CoreWorkload wl; wl.Init(f.p);
  Recorder db; Client cl(db, wl);
  cl.DoTransaction();
  PBT_CHECK(db.calls.at(0).fields.size() == 1 && f.is_field(db.calls[0].fields[0]), "a read asks for %s", db.calls[0].fields.at(0).c_str());
}); });
pbt::RegProbe p2("P24", "zipfian-lower-bound", [] { fresh([] {
  Cfg f; small(f, 5, 5);
  f.set("scanlengthdistribution", "zipfian"); f.set("maxscanlength", "20");
  CoreWorkload wl; wl.Init(f.p);
  for (int i = 0; i < 100; i++) PBT_CHECK(wl.NextScanLength() >= 1, "a scan of no record is made");
}); });
struct Open : CoreWorkload { bool exists() { return key_chooser_->Next() < record_count_; } };
pbt::RegProbe p4("P24", "zipfian-few-records", [] { fresh([] {
  Cfg f; small(f, 2, 3648);
  f.set("requestdistribution", "zipfian"); f.set("readproportion", "0.07"); f.set("updateproportion", "0"); f.set("insertproportion", "0.14");
  Open wl; wl.Init(f.p);
  for (int i = 0; i < 1000000; i++) if (wl.exists()) return;
  pbt::fail("none of a million draws is one of the two records: the next transaction does not end");
}); });
pbt::RegProbe p3("P24", "driver-remainder", [] {
  Cfg f; small(f, 10, 0);
  Recorder db; driver_store = &db;
  TextFile file(f.text);
  const char *argv[] = {"ycsbc", "-db", "recorder", "-P", file.path.c_str(), "-threads", "3", nullptr};
  PBT_LOG("ycsbc -threads 3");
  repo_main(7, argv);
  PBT_CHECK(db.calls.size() == 10, "three threads load %zu of 10 records", db.calls.size());
});
pbt::Reg a1("P24", "workload", workload, 20), a2("P24", "invalid", invalid, 1), a3("P24", "driver", driver, 6);
#endif

#if defined(P24) && defined(PBT_SCHED)
// clients of one workload on several threads
void threads_case() {
  sim::opts.tso = true;
  Cfg f;
  f.draw(true);
  CoreWorkload wl;
  wl.Init(f.p);
  Recorder db;
  int nt = 2 + (int)src.below(3);
  std::vector<std::vector<int>> prog(nt);
  size_t n = 0;
  for (auto &p : prog) while (src.more(4) && p.size() < 8) { p.push_back((int)src.below(3)); n++; }
  std::vector<std::string> used(nt);
  std::vector<std::vector<std::string>> ins(nt), tx(nt);
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      Client cl(db, wl);
      for (int o : prog[t]) {
        if (o == 0) cl.DoInsert();
        else if (o == 1) ins[t].push_back(wl.NextSequenceKey());
        else tx[t].push_back(wl.NextTransactionKey());
      }
    });
  sim::run();
  std::set<std::string> keys;
  for (auto &c : db.calls) { f.insert(c); PBT_CHECK(keys.insert(c.key).second, "key %s is inserted a second time", c.key.c_str()); }
  for (auto &v : ins) for (auto &k : v) PBT_CHECK(keys.insert(k).second, "key %s is handed out a second time", k.c_str());
  if (f.ordered) for (size_t i = 0; i < keys.size(); i++) PBT_CHECK(keys.count("user" + std::to_string(i)), "record %zu is left out", i);
  if (f.ordered) for (auto &v : tx) for (auto &k : v) PBT_CHECK(std::stoull(k.substr(4)) < (u64)f.records, "a transaction uses record %s of %d", k.c_str(), f.records);
  if (keys.size() > 3 && sim::switches() > 6) pbt::nontrivial();
}
pbt::Reg a1("P24", "threads", threads_case);
#endif
} // namespace
