// P30: memory stays proportional to the number of entries however long the map
// is used.
#include <limits>
#include <deque>
#include <optional>
#include "smallgc.h"
#include "indexes/btree/map.h"
#include "indexes/btree/concurrent_map.h"
#include "indexes/hashtable/concurrent_map.h"
#include "indexes/art/map.h"
#include "indexes/art/concurrent_map.h"
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include <algorithm>
#include <memory>
#include <set>
#include <string>
#include <vector>
using pbt::src;
using TR = indexes::utils::ThreadRegistry;
namespace bt = indexes::btree;
namespace ht = indexes::hashtable;
namespace art = indexes::art;

namespace {
template <int SZ, int TH> struct Tr {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = false;
  static constexpr bool STAT = true;
};
// what a map may hold for `peak` entries (its largest size so far); garbage of
// the concurrent maps is reclaimed before
template <typename T_> struct Bt {
  static constexpr bool btree = true, trie = false;
  using M = bt::map<long, long, T_>;
  M m;
  void ins(long k) { m[k] = k; }
  void idle(long k, int what) { if (what == 0) m[k] = -k; else if (what == 1) m.erase(-k - 1); else if (what == 2) m.find(k); else m.lower_bound(k); }
  void del(long k) { m.erase(k); }
  void reclaim() {}
  size_t size() { return m.size(); }
  static double limit(double peak) { return (8 + peak) * T_::NODE_SIZE; }
};
template <typename T_> struct Cbt {
  static constexpr bool btree = true, trie = false;
  using M = bt::concurrent_map<long, long, T_>;
  M m;
  void ins(long k) { m.Insert(k, k); }
  void idle(long k, int what) { if (what == 0) m.Upsert(k, -k); else if (what == 1) m.Delete(-k - 1); else if (what == 2) m.Insert(k, k); else m.Update(k, k); }
  void del(long k) { m.Delete(k); }
  void reclaim() { m.reclaim_all(); }
  size_t size() { return m.size(); }
  static double limit(double peak) { return (8 + peak) * T_::NODE_SIZE; }
};
template <int MODE> struct H { size_t operator()(long k) const { return MODE == 0 ? (size_t)k : pbt::mix((uint64_t)k); } };
template <int MODE> struct Ha {
  static constexpr bool btree = false, trie = false;
  using M = ht::concurrent_map<long, long, H<MODE>>;
  M m;
  void ins(long k) { m.Insert(k, k); }
  void idle(long k, int what) { if (what == 0) m.Upsert(k, -k); else if (what == 1) m.Delete(-k - 1); else if (what == 2) m.Insert(k, k); else m.Update(k, k); }
  void del(long k) { m.Delete(k); }
  void reclaim() { m.reclaim_all(); }
  size_t size() { return m.size(); }
  static double limit(double peak) { return 6000 + peak * 400; }
};
template <bool C> struct Ar {
  static constexpr bool btree = false, trie = true;
  using M = std::conditional_t<C, art::concurrent_map<long>, art::map<long>>;
  M m;
  static uint64_t key(long k) { return (uint64_t)k; }
  void ins(long k) { m.Insert(key(k), k); }
  void idle(long k, int what) { if (what == 0) m.Upsert(key(k), -k); else if (what == 1) m.Delete(key(-k - 1)); else if (what == 2) m.Insert(key(k), k); else m.Update(key(k), k); }
  void del(long k) { m.Delete(key(k)); }
  void reclaim() { if constexpr (C) m.reclaim_all(); }
  size_t size() { return m.size(); }
  static double limit(double peak) { return 6000 + peak * 400; }
};
#ifndef PBT_SCHED
struct Shape { int in, out; long w, lo, stride; };
template <typename A> void churn(std::optional<Shape> fixed = {}) {
  TR::RegisterThread();
  draw_gc_threshold();
  if (!pbt::heap_bytes) pbt::fail("harness: heap bytes unknown");
  auto a = std::make_unique<A>();
  int64_t held = 0;
  auto op = [&](auto f) { size_t b = pbt::heap_bytes(); f(); held += (int64_t)pbt::heap_bytes() - (int64_t)b; };
  std::set<long> live; std::deque<long> order;
  static const char *IN[] = {"rising keys", "falling keys", "random keys", "few keys again and again", "two rising runs"};
  static const char *OUT[] = {"the oldest", "the newest", "the smallest", "the largest", "any"};
  Shape sh{(int)src.below(5), (int)src.below(5), 0, 0, 0};
  sh.w = 1 + (long)src.below(src.below(2) ? 60 : 8); sh.lo = src.below(2) ? sh.w : (long)src.below(sh.w + 1);
  sh.stride = src.below(2) ? 1 : 1 + (long)src.below(300);
  if (fixed) sh = *fixed;
#ifdef KF_btree_right_edge // see known_findings.json
  else if (A::btree && sh.in == 1 && sh.out != 2) sh.out = 1;
#endif
  const int in = sh.in, out = sh.out; const long w = sh.w, lo = sh.lo, stride = sh.stride;
  long next = (long)src.below(1000) * 1000, ring = 2 * w + (long)src.below(100);
  uint64_t rs = src.u64();
  auto rnd = [&] { return rs = pbt::mix(rs); };
  PBT_LOG("%s, stride %ld, %ld to %ld entries, removing %s", IN[in], stride, lo, w, OUT[out]);
  int idle = fixed ? 0 : (int)src.below(4); // operations that change no set of keys
  long peak = 0, ops = 0; bool filling = true;
  uint64_t phases = 0;
  auto fresh = [&]() -> long {
    ops++;
    switch (in) {
    case 0: return next += stride;
    case 1: return 4000000000000l - (next += stride);
    case 2: return (long)(rnd() % 1000000000);
    case 3: return (long)(rnd() % ring) * stride;
    default: next += stride; return next + (ops & 1 ? 0 : 2000000000l);
    }
  };
  while ((fixed || src.more(30)) && phases < 60) {
    phases++;
    long n = fixed ? 200 : 20 + (long)src.below(200);
    for (long i = 0; i < n; i++) {
      if (filling ? (long)live.size() < w : (long)live.size() <= lo) {
        long k; int tries = 0;
        do k = fresh(); while (live.count(k) && ++tries < 1000);
        if (tries == 1000) break;
        live.insert(k); order.push_back(k);
        op([&] { a->ins(k); });
        filling = (long)live.size() < w;
      } else {
        long k = out == 0 ? order.front() : out == 1 ? order.back() : out == 2 ? *live.begin() : out == 3 ? *live.rbegin() : order[rnd() % order.size()];
        live.erase(k);
        auto it = out == 1 ? std::prev(order.end()) : std::find(order.begin(), order.end(), k);
        order.erase(it);
        op([&] { a->del(k); });
        if ((long)live.size() <= lo) filling = true; 
      }
      peak = std::max(peak, (long)live.size());
      for (int j = 0; j < idle && !order.empty(); j++) {
        uint64_t x = rnd(); long k = order[x % order.size()];
        op([&] { a->idle(k, (int)(x >> 40) % 4); });
      }
    }
    op([&] { a->reclaim(); });
    PBT_CHECK(a->size() == live.size(), "size is %zu, %zu keys are live", a->size(), live.size());
        PBT_CHECK(held <= A::limit((double)peak), "after %ld insertions a map that never had more than %ld entries holds %lld bytes", ops, peak, (long long)held);
  }
  a.reset();
  if (ops > 20 * peak && peak > 1) pbt::nontrivial();
}
#define R(n, A, w) pbt::Reg r_##n("P30", #n, [] { churn<A>(); }, w, true)
using B1 = Bt<Tr<256, 60>>; using B2 = Bt<Tr<320, 30>>; using B3 = Bt<Tr<512, 50>>; using B4 = Bt<Tr<1024, 80>>;
using C1 = Cbt<Tr<256, 60>>; using C2 = Cbt<Tr<320, 30>>; using C3 = Cbt<Tr<512, 50>>; using C4 = Cbt<Tr<1024, 80>>;
pbt::RegProbe p1("P30", "btree-right-edge", [] {
  churn<B1>(Shape{1, 0, 48, 48, 1});
  churn<C1>(Shape{1, 0, 48, 48, 1});
});
R(map1, B1, 2); R(map2, B2, 2); R(map3, B3, 1); R(map4, B4, 1);
R(cmap1, C1, 2); R(cmap2, C2, 2); R(cmap3, C3, 1); R(cmap4, C4, 1);
R(hash_ident, Ha<0>, 3); R(hash_mix, Ha<1>, 2); R(radix, Ar<false>, 2); R(cradix, Ar<true>, 2);
#else
// threads that insert and remove, each keeping a few entries
template <typename A> void crowd() {
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  draw_gc_threshold();
  auto a = std::make_unique<A>();
  const int nt = 2 + (int)src.below(3);
  static const char *KIND[] = {"neighbouring keys, rising", "neighbouring keys, falling", "neighbouring keys far from the others", "neighbouring keys of a few places", "the same few keys", "runs of their own"};
  int kind = (int)src.below(6);
#ifdef KF_btree_right_edge // see known_findings.json
  if (A::btree && kind == 1) kind = 0;
#endif
  const long w = 1 + (long)src.below(src.below(3) ? 3 : 12), stride = src.below(2) ? 1 : 1 + (long)src.below(300);
  const long ring = 2 + (long)src.below(12), n = 20 + (long)src.below(src.below(3) ? 60 : 300), rounds = 1 + (long)src.below(6);
  const uint64_t salt = src.u64();
  bool keep = src.below(4) == 3; // some entries that stay
  const bool together = src.below(2); // the threads wait for each other
  std::vector<long> at(nt);
  PBT_LOG("%d threads, %s, stride %ld, %ld entries each, %ld insertions each, %ld rounds%s%s", nt, KIND[kind], stride, w, n, rounds, keep ? ", others stay" : "", together ? ", step by step" : "");
  auto key = [=, kind = kind](int t, long i) -> long {
    switch (kind) {
    case 0: return (i * nt + t) * stride;
    case 1: return 4000000000l - (i * nt + t) * stride;
    case 2: return (long)((pbt::mix(salt + (uint64_t)i) >> 5) << 3 | (uint64_t)t);
    case 3: return (long)((pbt::mix(salt + (uint64_t)i % 5) >> 5) << 3 | (uint64_t)t);
    case 4: return (long)(pbt::mix(salt + (uint64_t)(i * nt + t)) % (uint64_t)ring) * stride;
    default: return t * 2000000l + i * stride;
    }
  };
  size_t before = pbt::heap_bytes(), others = 0;
  if (keep) for (int i = 0; i < 12; i++) { others++; a->ins((long)(pbt::mix(salt + 1000 + i) >> 8)); }
  uint64_t sw = 0;
  for (long r = 0; r < rounds; r++) {
    at.assign(nt, 0);
    for (int t = 0; t < nt; t++) sim::spawn([&, t] {
      TR::RegisterThread();
      for (long i = 0; i < n + w; i++) {
        at[t] = i;
        if (together) for (int u = 0; u < nt; u++) while (at[u] < i) sim::yield();
        if (i < n) a->ins(key(t, r * n + i));
        if (i >= w) a->del(key(t, r * n + i - w));
      }
      at[t] = n + w;
      TR::UnregisterThread();
    });
    sim::run();
    sw += sim::switches();
    a->reclaim();
    double peak = (double)(others + nt * (w + 1));
    int64_t held = (int64_t)pbt::heap_bytes() - (int64_t)before;
    // (the tables of the retire lists belong to the threads)
    const double cap = (A::trie ? 1500 + 300 * peak : A::limit(peak)) + 1000 * (nt + 1);
    PBT_LOG("round %ld: %lld bytes, limit %.0f", r, (long long)held, cap);
    PBT_CHECK(held <= cap, "after %ld insertions by %d threads a map that never had more than %.0f entries holds %lld bytes", (r + 1) * n * nt, nt, peak, (long long)held);
  }
  a.reset();
  if (sw > 20 && n * rounds > 10 * w) pbt::nontrivial();
}
#define R(n, A, w) pbt::Reg r_##n("P30", #n, [] { crowd<A>(); }, w)
using C1 = Cbt<Tr<256, 60>>; using C2 = Cbt<Tr<320, 30>>;
R(cmap1, C1, 2); R(cmap2, C2, 1); R(hash_ident, Ha<0>, 2); R(hash_mix, Ha<1>, 1); R(cradix, Ar<true>, 3);
#endif
} // namespace
