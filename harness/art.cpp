// P12: art::map; P13: art::concurrent_map from one thread; P14: linearizability;
// P15: reclamation (the last two in sched builds).
#include <limits>
#include <deque>
#include "smallgc.h"
#include "indexes/art/map.h"
#include "indexes/art/concurrent_map.h"
#include "../lib/lin.h"
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include <map>
#include <memory>
#include <string>
using pbt::src;
using TR = indexes::utils::ThreadRegistry;
namespace art = indexes::art;

namespace {
// Keys that share prefixes at chosen byte positions (byte 0 is the lowest).
struct KeyGen {
  std::vector<uint64_t> pool;
  int mode;
  int pos;
  KeyGen() {
    mode = src.below(5);
    pos = src.below(8);
  }
  uint64_t fresh() {
    switch (mode) {
    case 0: { // few values per byte
      uint64_t k = 0;
      for (int b = 0; b < 8; b++) k |= (uint64_t)(src.below(4) == 3 ? src.below(256) : src.below(3)) << (8 * b);
      return k;
    }
    case 1: { // dense at one byte, the rest nearly fixed
      uint64_t k = 0x1122334455667788ull;
      k &= ~(0xffull << (8 * pos));
      k |= (uint64_t)src.below(256) << (8 * pos);
      if (src.below(4) == 3) { int q = src.below(8); k ^= (uint64_t)(1 + src.below(3)) << (8 * q); }
      return k;
    }
    case 2: { // change one byte of an earlier key
      if (pool.empty()) return src.u64();
      uint64_t k = pool[src.below(pool.size())];
      int q = src.below(8);
      return (k & ~(0xffull << (8 * q))) | (uint64_t)src.below(src.below(2) ? 256 : 6) << (8 * q);
    }
    case 3: { // replace the tail of an earlier key
      if (pool.empty()) return src.u64();
      uint64_t k = pool[src.below(pool.size())];
      int q = src.below(8);
      uint64_t tail = 0;
      for (int b = q; b < 8; b++) tail |= (uint64_t)(src.below(2) ? src.below(256) : src.below(4)) << (8 * b);
      uint64_t keep = q ? (~0ull >> (64 - 8 * q)) : 0;
      return (k & keep) | tail;
    }
    default: return src.below(8) == 7 ? src.u64() : src.below(700);
    }
  }
  uint64_t any(int percent_old = 60) {
    if (!pool.empty() && src.chance(percent_old)) return pool[src.below(pool.size())];
    uint64_t k;
    switch (src.below(40)) {
    case 39: k = 0; break;
    case 38: k = ~0ull; break;
    default: k = fresh();
    }
    pool.push_back(k);
    return k;
  }
};

#ifndef PBT_SCHED
template <typename M> std::unique_ptr<M> mv(std::unique_ptr<M> m, bool check_from) {
  auto n = std::make_unique<M>(std::move(*m));
  if (check_from) PBT_CHECK(m->size() == 0, "the moved-from tree reports %zu entries", m->size());
  return n;
}
template <typename Map, bool Plain> void seq_case() {
  TR::RegisterThread();
  int nids = Plain ? 1 : 1 + src.below(3);
  std::vector<int> ids{TR::ThreadID()};
  for (int i = 1; i < nids; i++) { if (src.below(4) == 3) sim::register_above(); else TR::RegisterThread(); ids.push_back(TR::ThreadID()); }
  sim::set_thread_id(ids[0]);
  draw_gc_threshold();
  auto m = std::make_unique<Map>();
  size_t empty_heap = pbt::heap_bytes ? pbt::heap_bytes() : 0;
  // frequent reclamation keeps the retire lists (which never give back their
  // block tables) small enough for the memory comparison at the end
  bool tidy = Plain || src.below(2);
  auto tidy_up = [&] { if constexpr (!Plain) if (tidy) m->reclaim_all(); };
  std::map<uint64_t, long> model;
  KeyGen kg;
  PBT_LOG("key mode %d byte %d", kg.mode, kg.pos);
  pbt::Values nextv;
  size_t peak = 0, low = ~0ul; int fan = 0;
  std::map<uint64_t, int> by_prefix;
  int phase = 0, bias = 50;
  uint64_t len = src.below(6) == 0 ? 700 : 80;
  while (src.more(len)) {
    tidy_up();
    if (nids > 1) sim::set_thread_id(ids[src.below(nids)]);
    if (src.below(60) == 59) { bias = (int)src.below(101); phase++; }
    bool grow = src.chance(bias);
    uint64_t k;
    if (!grow && !model.empty() && src.below(2) && kg.pool.size()) {
      // an existing key, picked by position
      auto it = model.lower_bound(kg.pool[src.below(kg.pool.size())]);
      if (it == model.end()) it = model.begin();
      k = it->first;
    } else k = kg.any(grow ? 30 : 70);
    long v = nextv++;
    auto it = model.find(k);
    auto expect = [&](const std::optional<long> &got, const char *op) {
      PBT_CHECK(got.has_value() == (it != model.end()), "%s(%016llx) returned %s, the key is %s", op, (unsigned long long)k, got ? "a value" : "nothing", it != model.end() ? "present" : "absent");
      if (got) PBT_CHECK(*got == it->second, "%s(%016llx) returned %ld, the stored value is %ld", op, (unsigned long long)k, *got, it->second);
    };
    switch (grow ? src.below(5) : 5 + src.below(6)) {
    case 0: case 1: case 2: {
      PBT_LOG("insert %016llx,%ld", (unsigned long long)k, v);
      bool r = m->Insert(k, v);
      PBT_CHECK(r == (it == model.end()), "insert(%016llx) returned %d, the key is %s", (unsigned long long)k, (int)r, it != model.end() ? "present" : "absent");
      if (r) model[k] = v;
      break;
    }
    case 3: case 4:
      PBT_LOG("upsert %016llx,%ld", (unsigned long long)k, v);
      expect(m->Upsert(k, v), "upsert");
      model[k] = v;
      break;
    case 5:
      PBT_LOG("update %016llx,%ld", (unsigned long long)k, v);
      expect(m->Update(k, v), "update");
      if (it != model.end()) it->second = v;
      break;
    case 6: case 7: case 8: case 9:
      PBT_LOG("delete %016llx", (unsigned long long)k);
      expect(m->Delete(k), "delete");
      if (it != model.end()) model.erase(it);
      break;
    case 10:
      if (src.below(30) == 29) {
        PBT_LOG("move");
        m = mv(std::move(m), Plain);
        pbt::label("move");
      } else if (!Plain && src.below(20) == 19) {
        if constexpr (!Plain) { m->reclaim_all(); m->reserve(10); }
      } else {
        PBT_LOG("search %016llx", (unsigned long long)k);
        expect(m->Search(k), "search");
      }
      break;
    }
    PBT_CHECK(m->size() == model.size(), "size is %zu, %zu keys are live", m->size(), model.size());
    peak = std::max(peak, model.size());
    if (src.below(25) == 24)
      for (uint64_t q : kg.pool) {
        auto r = m->Search(q); auto i2 = model.find(q);
        PBT_CHECK(r.has_value() == (i2 != model.end()), "after the last operation search(%016llx) returns %s, the key is %s", (unsigned long long)q, r ? "a value" : "nothing", i2 != model.end() ? "present" : "absent");
        if (r) PBT_CHECK(*r == i2->second, "after the last operation search(%016llx) returns %ld, the stored value is %ld", (unsigned long long)q, *r, i2->second);
      }
  }
  for (uint64_t q : kg.pool) {
    auto r = m->Search(q); auto i2 = model.find(q);
    PBT_CHECK(r.has_value() == (i2 != model.end()) && (!r || *r == i2->second), "finally search(%016llx) is wrong: %s", (unsigned long long)q, i2 != model.end() ? "the key is present" : "the key is absent");
  }
  bool shrank = model.size() * 2 < peak;
  if (src.below(2)) {
    // empty it completely, in order of the pool
    for (uint64_t q : kg.pool) {
      tidy_up();
      auto r = m->Delete(q); bool had = model.erase(q) > 0;
      PBT_CHECK(r.has_value() == had, "delete(%016llx) while emptying returned %s, the key is %s", (unsigned long long)q, r ? "a value" : "nothing", had ? "present" : "absent");
      if (src.below(8) == 7) for (auto &[a, b] : model) { auto s = m->Search(a); PBT_CHECK(s && *s == b, "search(%016llx) lost a live key", (unsigned long long)a); }
    }
    PBT_CHECK(m->size() == 0, "size is %zu after deleting every key", m->size());
    shrank = true;
    if (tidy && pbt::heap_bytes) {
      tidy_up();
      std::vector<uint64_t>().swap(kg.pool);
      size_t h = pbt::heap_bytes();
      // block tables of the retire lists may have grown a little
      size_t slack = Plain ? 0 : 512;
      PBT_CHECK(h <= empty_heap + slack, "the emptied tree still holds %zu bytes more than a new one", h - empty_heap);
      pbt::label("memory compared after emptying");
    }
  }
  m.reset();
  if (peak >= 5 && shrank) pbt::nontrivial();
  if (peak > 4) pbt::label("more than 4 keys");
  if (peak > 16) pbt::label("more than 16 keys");
  if (peak > 48) pbt::label("more than 48 keys");
}
// the same with other types of values
struct Str {
  using T = std::string;
  static T enc(long v) { return std::string(v % 3 ? 1 + (uint64_t)v % 5 : 30 + (uint64_t)v % 40, 'a' + (uint64_t)v % 26) + std::to_string(v); }
  static long dec(const T &t) { size_t i = 0; while (i < t.size() && t[i] >= 'a') i++; long v = i < t.size() ? std::stol(t.substr(i)) : -77; return enc(v) == t ? v : -77; }
};
struct Wide {
  struct T { long a[5] = {}; char c = 0; };
  static T enc(long v) { T t; for (int i = 0; i < 5; i++) t.a[i] = v * (i + 1); t.c = (char)v; return t; }
  static long dec(const T &t) { for (int i = 0; i < 5; i++) if (t.a[i] != t.a[0] * (i + 1)) return -77; return t.c == (char)t.a[0] ? t.a[0] : -77; }
};
struct Ptr {
  using T = std::shared_ptr<long>;
  static T enc(long v) { return std::make_shared<long>(v); }
  static long dec(const T &t) { return t ? *t : -77; }
};
template <template <typename...> class M_, typename C> struct As {
  M_<typename C::T> m;
  static std::optional<long> dec(std::optional<typename C::T> o) { if (o) return C::dec(*o); return {}; }
  bool Insert(uint64_t k, long v) { return m.Insert(k, C::enc(v)); }
  std::optional<long> Upsert(uint64_t k, long v) { return dec(m.Upsert(k, C::enc(v))); }
  std::optional<long> Update(uint64_t k, long v) { return dec(m.Update(k, C::enc(v))); }
  std::optional<long> Delete(uint64_t k) { return dec(m.Delete(k)); }
  std::optional<long> Search(uint64_t k) { return dec(m.Search(k)); }
  size_t size() const { return m.size(); }
  void reclaim_all() { m.reclaim_all(); }
  void reserve(size_t n) { m.reserve(n); }
};
#ifdef P12
pbt::Reg r3("P12", "map_strings", seq_case<As<art::map, Str>, true>, 3, true), r4("P12", "map_wide", seq_case<As<art::map, Wide>, true>, 2, true), r5("P12", "map_pointers", seq_case<As<art::map, Ptr>, true>, 2, true);
#endif
#ifdef P13
pbt::Reg r3("P13", "cmap_strings", seq_case<As<art::concurrent_map, Str>, false>, 3, true), r4("P13", "cmap_wide", seq_case<As<art::concurrent_map, Wide>, false>, 2, true), r5("P13", "cmap_pointers", seq_case<As<art::concurrent_map, Ptr>, false>, 2, true);
#endif
#ifdef P12
pbt::Reg r1("P12", "map", seq_case<art::map<long>, true>, 10, true), r2("P12", "map_selfchecks", seq_case<art::map<long, art::art_traits_debug>, true>, 5, true);
#endif
#ifdef P13
pbt::Reg r1("P13", "cmap", seq_case<art::concurrent_map<long>, false>, 10, true);
pbt::Reg r2("P13", "cmap_selfchecks", seq_case<art::concurrent_map<long, art::art_traits_debug>, false>, 5, true);
#endif
#else // ------------------------------------------------------------- threads
template <typename Map> void conc_case() {
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  int nt = 2 + src.below(3);
  draw_gc_threshold();
  auto m = std::make_unique<Map>();
  std::vector<lin::Op> hist;
  pbt::Values nextv;
  auto run1 = [&](lin::Op &o) {
    o.inv = sim::now();
    switch (o.kind) {
    case lin::INSERT: o.has = m->Insert(o.key, o.arg); break;
    case lin::UPSERT: { auto r = m->Upsert(o.key, o.arg); o.has = r.has_value(); if (r) o.res = *r; break; }
    case lin::UPDATE: { auto r = m->Update(o.key, o.arg); o.has = r.has_value(); if (r) o.res = *r; break; }
    case lin::DELETE_: { auto r = m->Delete(o.key); o.has = r.has_value(); if (r) o.res = *r; break; }
    case lin::SEARCH: { auto r = m->Search(o.key); o.has = r.has_value(); if (r) o.res = *r; break; }
    }
    o.ret = sim::now();
  };
  // a family of keys: shared prefix, then fan out at one byte, with some
  // splitting the prefix earlier
  uint64_t base = src.below(2) ? 0x0807060504030201ull : 0;
  int pos = src.below(8);
  auto family = [&](uint64_t i) -> uint64_t { return (base & ~(0xffull << (8 * pos))) | (i & 0xff) << (8 * pos); };
  auto splitter = [&](int q, uint64_t v) { return base ^ ((v & 0xff) << (8 * q)); };
  static const int PRE[] = {0, 1, 2, 3, 4, 5, 15, 16, 17, 47, 48, 49};
  int pre = PRE[src.below(src.below(3) == 2 ? 12 : 7)];
  int hot = 1 + src.below(6);
  std::vector<uint64_t> keys;
  for (int i = 0; i < hot; i++) {
    int w = src.below(4);
    keys.push_back(w < 2 ? family(src.below(8)) : w == 2 ? family(200 + src.below(40)) : splitter(src.below(8), 1 + src.below(3)));
  }
  for (int i = 0; i < pre; i++) { lin::Op o; o.kind = lin::INSERT; o.key = (long)family(i); o.arg = nextv++; run1(o); hist.push_back(o); }
  for (int i = 0; i < hot; i++) if (src.below(2)) { lin::Op o; o.kind = src.below(4) ? lin::UPSERT : lin::DELETE_; o.key = (long)keys[i]; o.arg = nextv++; run1(o); hist.push_back(o); }
  static const int W[] = {0, 0, 0, 1, 1, 2, 3, 3, 3, 4};
  std::vector<std::vector<lin::Op>> prog(nt);
  bool muts = false; int fresh = 60;
  for (int t = 0; t < nt; t++)
    while (src.more(5) && prog[t].size() < 14) {
      lin::Op o;
      o.thr = t; o.kind = W[src.below(10)];
      uint64_t w = src.below(10);
      if (w < 7) o.key = (long)keys[src.below(hot)];
      else if (w < 9) { o.key = (long)family(fresh++); if (src.below(2)) o.kind = lin::INSERT; }
      else o.key = (long)family(src.below(pre + 1));
      o.arg = nextv++;
      if (o.kind != lin::SEARCH) muts = true;
      prog[t].push_back(o);
    }
  if (pbt::verbose) for (int t = 0; t < nt; t++) {
    std::string s; char b[80];
    for (auto &p : prog[t]) { snprintf(b, sizeof b, "%s(%016lx) ", lin::kname(p.kind), p.key); s += b; }
    PBT_LOG("thread %d: %s", t, s.c_str());
  }
  PBT_LOG("prefilled %d, branching at byte %d", pre, pos);
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      TR::RegisterThread();
      for (auto &p : prog[t]) run1(p);
      TR::UnregisterThread();
    });
  sim::run();
  for (auto &p : prog) for (auto &x : p) hist.push_back(x);
  std::set<long> ks;
  for (auto &o : hist) ks.insert(o.key);
  size_t live = 0;
  for (long k : ks) { lin::Op o; o.kind = lin::SEARCH; o.key = k; o.thr = 99; run1(o); if (o.has) live++; hist.push_back(o); }
#ifdef P14
  if (pbt::verbose) for (auto &o : hist) PBT_LOG("%s", lin::show(o).c_str());
  lin::check(hist, "radix tree");
  PBT_CHECK(m->size() == live, "size is %zu after all threads ended, %zu keys are live", m->size(), live);
  for (long k : ks) { auto r = m->Delete(k); if (r) live--; auto r2 = m->Search(k); PBT_CHECK(!r2, "key %016lx is still found after its deletion", k); }
  PBT_CHECK(live == 0 && m->size() == 0, "after deleting every key %zu entries are left", m->size());
#endif
  m.reset();
  if (muts && sim::switches() > 6) pbt::nontrivial();
  if (pre >= 15) pbt::label("larger nodes");
}
#ifdef P14
pbt::Reg r1("P14", "threads", conc_case<art::concurrent_map<long>>, 10);
pbt::Reg r2("P14", "threads_selfchecks", conc_case<art::concurrent_map<long, art::art_traits_debug>>, 2);
#else
pbt::Reg r1("P15", "threads", conc_case<art::concurrent_map<long>>, 10, true);
#endif
#endif
} // namespace
