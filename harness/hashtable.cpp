// P16: sequential model; P17: linearizability (sched); P18: lifetimes (asan) and reclamation (sched).
#include "smallgc.h"
#include "indexes/hashtable/concurrent_map.h"
#include "../lib/lin.h"
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include "tracked.h"
#include <map>
#include <memory>
#include <string>
using pbt::src;
using TR = indexes::utils::ThreadRegistry;
namespace ht = indexes::hashtable;

namespace {
// hash functions: 0 identity, 1 constant, 2 few values, 3 top of range, 4 mixing, 5 stride
template <int MODE> struct H {
  static size_t of(long k) {
    switch (MODE) {
    case 0: return (size_t)k;
    case 1: return 5;
    case 2: return (size_t)(k & 3) * 7;
    case 3: return ~(size_t)0 - (size_t)(k & 7);
    case 4: return pbt::mix((uint64_t)k);
    default: return (size_t)k * 16;
    }
  }
  size_t operator()(long k) const { return of(k); }
  size_t operator()(const std::string &s) const { return of(s.empty() ? 0 : atol(s.c_str() + 1)); }
  template <int T> size_t operator()(const Tracked<T> &t) const { t.must_live("hashing"); return of(t.id); }
};
struct SmallLimit : ht::hashtable_traits_default { static constexpr uint8_t LINEAR_SEARCH_LIMIT = 3; };
struct Debug : ht::hashtable_traits_debug {};

template <typename T> T mk(long i);
template <> long mk<long>(long i) { return i; }
template <> std::string mk<std::string>(long i) { return "k" + std::to_string(i) + (i % 3 ? "" : "_a_longer_tail_that_does_not_fit_inline"); }
template <> Tracked<0> mk<Tracked<0>>(long i) { return Tracked<0>(i); }
template <> Tracked<1> mk<Tracked<1>>(long i) { return Tracked<1>(i); }

#ifndef PBT_SCHED
template <typename K, typename V, typename Hash, typename Traits> void seq_case(bool lifetimes) {
  using Map = ht::concurrent_map<K, V, Hash, Traits>;
  TR::RegisterThread();
  int nids = 1 + src.below(3);
  std::vector<int> ids{TR::ThreadID()};
  for (int i = 1; i < nids; i++) { if (src.below(4) == 3) sim::register_above(); else TR::RegisterThread(); ids.push_back(TR::ThreadID()); }
  sim::set_thread_id(ids[0]);
  size_t cap = src.below(3) == 0 ? src.below(70) : src.below(9);
  draw_gc_threshold();
  auto m = std::make_unique<Map>(cap);
  std::map<long, long> model;
  long dom = 1 + (src.below(4) == 0 ? src.below(300) : src.below(24));
  pbt::Values nextv;
  int dels = 0, reins = 0, maxsz = 0;
  std::map<long, int> deleted;
  PBT_LOG("capacity %zu, keys 0..%ld, %d threads taking turns", cap, dom - 1, nids);
  int inserted = 0;
  while (src.more(src.below(8) == 0 ? 400 : 80)) {
    if (nids > 1) sim::set_thread_id(ids[src.below(nids)]);
    long k = src.below(dom);
    long v = nextv++;
    K key = mk<K>(k);
    auto it = model.find(k);
    auto expect = [&](const std::optional<V> &got, const char *op) {
      PBT_CHECK(got.has_value() == (it != model.end()), "%s(%ld) returned %s, the key is %s", op, k, got ? "a value" : "nothing", it != model.end() ? "present" : "absent");
      if (got) PBT_CHECK(*got == mk<V>(it->second), "%s(%ld) returned another value than the stored %ld", op, k, it->second);
    };
    switch (src.below(12)) {
    case 0: case 1: case 2: {
      PBT_LOG("insert %ld,%ld", k, v);
      bool r = m->Insert(key, mk<V>(v));
      PBT_CHECK(r == (it == model.end()), "insert(%ld) returned %d, the key is %s", k, (int)r, it != model.end() ? "present" : "absent");
      if (r) { if (deleted[k]) reins++; model[k] = v; inserted++; }
      break;
    }
    case 3: case 4: {
      PBT_LOG("upsert %ld,%ld", k, v);
      expect(m->Upsert(key, mk<V>(v)), "upsert");
      model[k] = v; inserted++;
      break;
    }
    case 5: {
      PBT_LOG("update %ld,%ld", k, v);
      expect(m->Update(key, mk<V>(v)), "update");
      if (it != model.end()) it->second = v;
      break;
    }
    case 6: case 7: case 8: {
      PBT_LOG("delete %ld", k);
      expect(m->Delete(key), "delete");
      if (it != model.end()) { model.erase(it); dels++; deleted[k] = 1; }
      break;
    }
    case 9: case 10:
      PBT_LOG("search %ld", k);
      expect(m->Search(key), "search");
      break;
    case 11: {
      int w = src.below(8);
      if (w == 0) { size_t n = src.below(64); PBT_LOG("reserve %zu", n); m->reserve(n); pbt::label("reserve"); }
      else if (w == 1) { PBT_LOG("reclaim_all"); m->reclaim_all(); }
      else if (w == 2) { PBT_LOG("move"); auto m2 = std::make_unique<Map>(std::move(*m)); m = std::move(m2); pbt::label("move"); }
      else if (w == 3) { for (long i = 0; i < dom; i++) { if (m->Insert(mk<K>(i), mk<V>(i + 10000))) { PBT_CHECK(!model.count(i), "insert(%ld) succeeded, the key is present", i); model[i] = i + 10000; } else PBT_CHECK(model.count(i), "insert(%ld) failed, the key is absent", i); } PBT_LOG("fill"); }
      else if (w == 4) { for (long i = 0; i < dom; i++) { auto o = m->Delete(mk<K>(i)); PBT_CHECK(o.has_value() == (model.count(i) > 0), "delete(%ld) returned %s, the key is %s", i, o ? "a value" : "nothing", model.count(i) ? "present" : "absent"); } dels += model.size(); model.clear(); PBT_LOG("clear"); }
      break;
    }
    }
    maxsz = std::max<int>(maxsz, model.size());
    PBT_CHECK(m->size() == model.size(), "size is %zu, %zu keys are live", m->size(), model.size());
    PBT_CHECK(m->empty() == model.empty(), "empty() is %d with %zu live keys", (int)m->empty(), model.size());
    int lf = m->load_factor();

    PBT_CHECK(lf >= 0 && lf <= 100 && (model.empty() ? lf == 0 : true), "load factor %d with %zu live keys", lf, model.size());
    // the load factor is floor(100 n / 2^k) for some table size 2^k that holds n
    bool okf = false;
    for (size_t b = 1; b < (1u << 26); b *= 2) if (b >= model.size() && (int)(model.size() * 100 / b) == lf) okf = true;
    PBT_CHECK(okf, "load factor %d cannot be that of %zu live keys in a power-of-two table", lf, model.size());
  }
  for (long i = -1; i <= dom; i++) {
    auto r = m->Search(mk<K>(i));
    auto it = model.find(i);
    PBT_CHECK(r.has_value() == (it != model.end()), "finally search(%ld) returned %s, the key is %s", i, r ? "a value" : "nothing", it != model.end() ? "present" : "absent");
    if (r) PBT_CHECK(*r == mk<V>(it->second), "finally search(%ld) returned another value than the stored %ld", i, it->second);
  }
  m.reset();
  if (maxsz > (int)std::max<size_t>(cap, 4) && dels >= 3) pbt::nontrivial();
  if (reins) pbt::label("key inserted again after deletion");
  if (lifetimes) {
    PBT_CHECK(Tracked<0>::live().empty(), "%zu keys are never destroyed", Tracked<0>::live().size());
    PBT_CHECK(Tracked<1>::live().empty(), "%zu values are never destroyed", Tracked<1>::live().size());
  }
}
#ifdef P16
#define R16(n, K, V, M, T) pbt::Reg r_##n("P16", #n, [] { seq_case<K, V, H<M>, T>(false); }, 10)
R16(ident, long, long, 0, ht::hashtable_traits_default);
R16(constant, long, long, 1, Debug);
R16(few, long, long, 2, ht::hashtable_traits_default);
R16(top, long, long, 3, ht::hashtable_traits_default);
R16(mixed, long, long, 4, ht::hashtable_traits_default);
R16(stride, long, long, 5, ht::hashtable_traits_default);
R16(limit, long, long, 0, SmallLimit);
R16(limit_mixed, long, long, 4, SmallLimit);
R16(strings, std::string, std::string, 4, ht::hashtable_traits_default);
R16(strings_few, std::string, long, 2, Debug);
#endif
#ifdef P18
pbt::Reg r1("P18", "tracked", [] { seq_case<Tracked<0>, Tracked<1>, H<2>, ht::hashtable_traits_default>(true); }, 10, true),
    r2("P18", "tracked_limit", [] { seq_case<Tracked<0>, Tracked<1>, H<0>, SmallLimit>(true); }, 10, true),
    r3("P18", "tracked_mixed", [] { seq_case<Tracked<0>, Tracked<1>, H<4>, ht::hashtable_traits_default>(true); }, 10, true),
    r4("P18", "strings", [] { seq_case<std::string, std::string, H<4>, ht::hashtable_traits_default>(false); }, 10, true);
#endif
#else // ------------------------------------------------------------- threads
template <typename Hash, typename Traits> void conc_case() {
  using Map = ht::concurrent_map<long, long, Hash, Traits>;
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  int nt = 2 + src.below(3);
  int hot = 1 + src.below(6);
  int cold = src.below(3) == 0 ? src.below(40) : src.below(8);
  draw_gc_threshold();
  auto m = std::make_unique<Map>(src.below(3) == 0 ? src.below(33) : 4);
  std::vector<lin::Op> hist;
  pbt::Values nextv;
  auto run1 = [&](lin::Op &o) {
    o.inv = sim::now();
    switch (o.kind) {
    case lin::INSERT: o.has = m->Insert(o.key, o.arg); break;
    case lin::UPSERT: { auto r = m->Upsert(o.key, o.arg); o.has = r.has_value(); if (r) o.res = *r; break; }
    case lin::UPDATE: { auto r = m->Update(o.key, o.arg); o.has = r.has_value(); if (r) o.res = *r; break; }
    case lin::DELETE_: { auto r = m->Delete(o.key); o.has = r.has_value(); if (r) o.res = *r; break; }
    case lin::SEARCH: { auto r = m->Search(o.key); o.has = r.has_value(); if (r) o.res = *r; break; }
    }
    o.ret = sim::now();
  };
  // keys 0..hot-1 are fought over, the cold ones fill the table
  int stridek = src.below(2) ? 1 : 16;
  for (int i = 0; i < cold; i++) { lin::Op o; o.kind = lin::INSERT; o.key = 1000 + i * stridek; o.arg = nextv++; run1(o); hist.push_back(o); }
  for (int i = 0; i < cold; i++) if (src.below(3) == 2) { lin::Op o; o.kind = lin::DELETE_; o.key = 1000 + i * stridek; run1(o); hist.push_back(o); }
  for (int i = 0; i < hot; i++) if (src.below(2)) { lin::Op o; o.kind = lin::INSERT; o.key = i * stridek; o.arg = nextv++; run1(o); hist.push_back(o); }
  static const int W[] = {0, 0, 0, 1, 1, 2, 3, 3, 4, 4};
  struct PO { lin::Op o; int extra; };
  std::vector<std::vector<PO>> prog(nt);
  int fresh = 0; bool muts = false;
  for (int t = 0; t < nt; t++)
    while (src.more(5) && prog[t].size() < 14) {
      PO p; p.extra = 0; lin::Op &o = p.o;
      o.thr = t; o.kind = W[src.below(10)];
      uint64_t w = src.below(10);
      if (w < 7) o.key = (long)src.below(hot) * stridek;
      else if (w < 9) { o.key = 2000 + (fresh++) * stridek; o.kind = lin::INSERT; }
      else o.key = 1000 + (long)src.below(cold + 1) * stridek;
      o.arg = nextv++;
      uint64_t e = src.below(30);
      p.extra = e == 29 ? 1 : e == 28 ? 2 : e == 27 ? 3 : 0;
      if (o.kind != lin::SEARCH) muts = true;
      prog[t].push_back(p);
    }
  if (pbt::verbose) for (int t = 0; t < nt; t++) {
    std::string s;
    for (auto &p : prog[t]) s += std::string(lin::kname(p.o.kind)) + "(" + std::to_string(p.o.key) + ") " + (p.extra == 1 ? "size() " : p.extra == 2 ? "reserve() " : p.extra == 3 ? "load_factor() " : "");
    PBT_LOG("thread %d: %s", t, s.c_str());
  }
  size_t before = m->size();
  int live_threads = 0;
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      TR::RegisterThread();
      for (auto &p : prog[t]) {
        run1(p.o);
        if (p.extra == 1) { volatile size_t s = m->size(); (void)s; (void)m->empty(); }
        else if (p.extra == 2) m->reserve(p.o.key & 15);
        else if (p.extra == 3) { volatile int l = m->load_factor(); (void)l; }
      }
      TR::UnregisterThread();
    });
  sim::run();
  (void)before; (void)live_threads;
  for (auto &p : prog) for (auto &x : p) hist.push_back(x.o);
  std::set<long> keys;
  for (auto &o : hist) keys.insert(o.key);
  size_t live = 0;
  for (long k : keys) { lin::Op o; o.kind = lin::SEARCH; o.key = k; o.thr = 99; run1(o); if (o.has) live++; hist.push_back(o); }
#ifdef P17
  if (pbt::verbose) for (auto &o : hist) PBT_LOG("%s", lin::show(o).c_str());
  lin::check(hist, "hash table");
  PBT_CHECK(m->size() == live, "size is %zu after all threads ended, %zu keys are live", m->size(), live);
  PBT_CHECK(m->empty() == (live == 0), "empty() is wrong after all threads ended");
  // the table still works afterwards, and each key exists once
  for (long k : keys) { auto r = m->Delete(k); if (r) live--; auto r2 = m->Search(k); PBT_CHECK(!r2, "key %ld is still found after its deletion: it was stored twice", k); }
  PBT_CHECK(live == 0, "final deletions found %zu keys fewer than the final lookups", live);
#endif
  m.reset();
  if (muts && sim::switches() > 6) pbt::nontrivial();
}
#ifdef P17
#define RC(n, M, T) pbt::Reg r_##n("P17", #n, [] { conc_case<H<M>, T>(); }, 10)
#else
#define RC(n, M, T) pbt::Reg r_##n("P18", #n, [] { conc_case<H<M>, T>(); }, 10, true)
#endif
RC(c_ident, 0, ht::hashtable_traits_default);
RC(c_const, 1, ht::hashtable_traits_default);
RC(c_few, 2, ht::hashtable_traits_default);
RC(c_top, 3, ht::hashtable_traits_default);
RC(c_mixed, 4, ht::hashtable_traits_default);
RC(c_limit, 0, SmallLimit);
#endif
} // namespace
