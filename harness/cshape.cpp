// P31: the structure of the concurrent B+tree as its dump shows it, after
// histories of one thread and after threads have ended.
#include <limits>
#include <optional>
#include <deque>
#include <iostream>
#define BTREE_DUMP_ENABLED
#include "smallgc.h"
#include "indexes/btree/key.h"
#include "indexes/btree/concurrent_map.h"
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace indexes::btree;
using pbt::src;
using TR = indexes::utils::ThreadRegistry;

namespace {
template <int SZ, int TH, bool ST = true, bool DBG = false> struct Tr {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = ST;
};
struct SInt { using K = int; static K key(long i) { return (int)i * 3 - 700; } static long idx(long long k) { return (k + 700) / 3; } };
struct SLong { using K = int64_t; static K key(long i) { return (i - 300) * 1000000007ll; } static long idx(long long k) { return k / 1000000007ll + 300; } };
struct SShort { using K = uint16_t; static K key(long i) { return (K)i; } static long idx(long long k) { return k; } };

using Level = std::vector<std::vector<long>>; // key indices per node
template <typename S> std::vector<Level> parse(const std::string &t) {
  std::vector<Level> ls;
  std::istringstream is(t);
  std::string line;
  while (std::getline(is, line)) {
    if (line.find('|') == std::string::npos) continue;
    Level l;
    size_t p = 0;
    while ((p = line.find('|', p)) != std::string::npos) {
      size_t e = line.find('|', p + 1);
      PBT_CHECK(e != std::string::npos, "dump: a node is not closed");
      std::vector<long> ks;
      size_t q = p + 1;
      while (q < e) {
        size_t c = std::min(line.find(", ", q), e);
        ks.push_back(S::idx(atoll(line.substr(q, c - q).c_str())));
        q = c + 2;
      }
      l.push_back(ks);
      p = e + 1;
    }
    ls.push_back(l);
  }
  return ls;
}

template <typename S_, typename V_, typename T_> struct Cfg { using S = S_; using V = V_; using T = T_; using M = concurrent_map<typename S::K, V, T>; };

// live: the entries the tree must hold
template <typename C> size_t judge(typename C::M &m, const std::map<long, long> &live, bool threads, const char *when) {
  std::ostringstream o;
  m.dump(o);
  auto ls = parse<typename C::S>(o.str());
  if (pbt::verbose) PBT_LOG("%s: %s", when, o.str().c_str());
  if constexpr (C::T::STAT) {
    PBT_CHECK(m.size() == live.size(), "%s: size is %zu, %zu entries are there", when, m.size(), live.size());
  }
  PBT_CHECK((int)ls.size() == m.height(), "%s: height is %d, the tree has %zu levels", when, m.height(), ls.size());
  if (ls.empty()) { PBT_CHECK(live.empty(), "%s: no nodes for %zu entries", when, live.size()); return 0; }
  PBT_CHECK(ls[0].size() == 1, "%s: %zu roots", when, ls[0].size());
  // each node's keys are in order and within what its parent says
  struct B { long lo, hi; };
  const long LO = std::numeric_limits<long>::min(), HI = std::numeric_limits<long>::max();
  std::vector<B> bounds{{LO, HI}};
  size_t inners = 0;
  for (size_t l = 0; l < ls.size(); l++) {
    bool leaf = l + 1 == ls.size();
    PBT_CHECK(bounds.size() == ls[l].size(), "%s: level %zu has %zu nodes, the level above links %zu", when, l, ls[l].size(), bounds.size());
    std::vector<B> next;
    for (size_t n = 0; n < ls[l].size(); n++) {
      long at = bounds[n].lo;
      bool first = true;
      for (long k : ls[l][n]) {
        PBT_CHECK(leaf && first ? k >= at : k > at, "%s: level %zu node %zu: key %ld after %ld", when, l, n, k, at);
        PBT_CHECK(k < bounds[n].hi, "%s: level %zu node %zu: key %ld lies beyond %ld", when, l, n, k, bounds[n].hi);
        if (!leaf) next.push_back({at, k});
        at = k; first = false;
      }
      if (!leaf) { next.push_back({at, bounds[n].hi}); inners++; }
    }
    bounds.swap(next);
  }
  size_t leaves = ls.back().size();
  auto r = live.begin();
  for (auto &n : ls.back()) for (long k : n) {
    PBT_CHECK(r != live.end() && k == r->first, "%s: the leaves list key %ld, %ld is next", when, k, r == live.end() ? -1 : r->first);
    ++r;
  }
  PBT_CHECK(r == live.end(), "%s: the leaves end before key %ld", when, r == live.end() ? -1 : r->first);
  if constexpr (C::T::STAT) {
    auto &st = m.stats();
    // (a split that another thread's change made void is counted again when retried)
    auto same = [&](size_t a, size_t b) { return threads ? a <= b : a == b; };
    PBT_CHECK(same(leaves, 1 + st.num_leaf_splits - st.num_leaf_merges), "%s: %zu leaves, the counters say 1 + %zu splits - %zu merges", when, leaves, (size_t)st.num_leaf_splits, (size_t)st.num_leaf_merges);
    PBT_CHECK(same(inners, (size_t)m.height() - 1 + st.num_inner_splits - st.num_inner_merges), "%s: %zu inner nodes, height %d, the counters say %zu splits, %zu merges", when, inners, m.height(), (size_t)st.num_inner_splits, (size_t)st.num_inner_merges);
    // an emptied leaf joins its left neighbour, except the first below an inner node
    if (!threads && ls.size() > 1) {
      size_t empty = 0;
      for (auto &n : ls.back()) empty += n.empty();
      PBT_CHECK(empty <= ls[ls.size() - 2].size() + st.num_inner_merges + st.num_inner_splits, "%s: %zu empty leaves below %zu nodes", when, empty, ls[ls.size() - 2].size());
    }
  }
  return ls.size();
}

#ifndef PBT_SCHED
template <typename C> void one_thread() {
  using S = typename C::S; using V = typename C::V;
  TR::RegisterThread();
  draw_gc_threshold();
  auto m = std::make_unique<typename C::M>();
  std::map<long, long> ref;
  static const long BASE[] = {8, 40, 160, 160, 600, 2000};
  long dom = BASE[src.below(6)];
  bool grow = src.below(4) == 3;
  pbt::Values nextv;
  size_t peak = 0, levels = 0; bool shrank = false;
  auto put = [&](long i) {
    long v = nextv++;
    if (v & 1) { bool is = m->Insert(S::key(i), (V)v); PBT_CHECK(is == !ref.count(i), "insert(%ld): wrong answer", i); if (is) ref[i] = v; }
    else { m->Upsert(S::key(i), (V)v); ref[i] = v; }
    peak = std::max(peak, ref.size());
  };
  auto del = [&](long i) { bool had = m->Delete(S::key(i)).has_value(); PBT_CHECK(had == (ref.erase(i) > 0), "delete(%ld): wrong answer", i); };
  int n = 0;
  while (n++ < 80 && src.more(12)) {
    long a = (long)src.below(dom), k = 1 + (long)src.below(src.below(3) ? 20 : dom);
    long step = 1 + (long)src.below(3); bool down = src.below(2);
    auto at = [&](long j) { long i = down ? a - j * step : a + j * step; return ((i % dom) + dom) % dom; };
    switch (grow ? 0 : src.below(5)) {
    case 0: case 1: PBT_LOG("insert %ld from %ld step %ld%s", k, a, step, down ? " down" : ""); for (long j = 0; j < k; j++) put(at(j)); break;
    case 2: case 3: PBT_LOG("delete %ld from %ld step %ld%s", k, a, step, down ? " down" : ""); for (long j = 0; j < k; j++) del(at(j)); break;
    case 4: { PBT_LOG("%ld scattered", k); for (long j = 0; j < k; j++) { long i = (long)src.below(dom); if (src.below(2)) put(i); else del(i); } break; }
    }
    if (src.below(16) == 15) { auto o = std::make_unique<typename C::M>(std::move(*m)); m = std::move(o); PBT_LOG("moved"); if constexpr (C::T::STAT) {} }
    if (peak > 8 && ref.size() * 2 < peak) shrank = true;
    levels = std::max(levels, judge<C>(*m, ref, false, "after the operation"));
    if (grow && C::T::STAT) { if constexpr (C::T::STAT) PBT_CHECK(m->stats().num_leaf_merges == 0 && m->stats().num_inner_merges == 0, "insertions alone merged nodes"); }
  }
  if (levels > 2) pbt::label("three levels or more");
  if (shrank) pbt::label("shrunk");
  if (levels > 1 && (shrank || grow)) pbt::nontrivial();
}
#define R(C, W) static pbt::Reg r_##C("P31", #C, one_thread<C>, W);
#else
template <typename C> void threads() {
  using S = typename C::S; using V = typename C::V;
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  draw_gc_threshold();
  auto m = std::make_unique<typename C::M>();
  static const int PRE[] = {0, 3, 5, 8, 11, 16, 24, 36, 60, 110, 180};
  int pre = PRE[src.below(11)];
  bool down = src.below(2);
  std::map<long, long> live;
  for (int i = 0; i < pre; i++) { long k = (down ? pre - 1 - i : i) * 2; m->Insert(S::key(k), (V)1); live[k] = 1; }
  if (pre && src.below(2)) {
    int n = (int)src.below(pre + 1); long from = (long)src.below(pre);
    for (int i = 0; i < pre && n > 0; i++) if (src.below(4)) { long k = (from + i) % pre * 2; m->Delete(S::key(k)); live.erase(k); n--; }
  }
  long top = pre * 2 + 8;
  PBT_LOG("prefilled %d%s", pre, down ? " downwards" : "");
  judge<C>(*m, live, false, "prefilled");
  int waves = 1 + (int)src.below(2);
  bool muts = false; size_t sw = 0; size_t levels = 0;
  for (int w = 0; w < waves; w++) {
    int nt = 2 + (int)src.below(3);
    std::vector<std::vector<std::pair<int, long>>> prog(nt);
    long at = (long)src.below(top);
    for (auto &p : prog) {
      long k0 = src.below(4) ? std::min(top - 1, at + (long)src.below(9)) : (long)src.below(top), dir = src.below(2) ? 1 : -1;
      int mode = (int)src.below(3);
      while (src.more(9) && p.size() < 24) {
        long k = ((k0 % top) + top) % top;
        int kind = mode == 0 ? (int)src.below(4) : mode == 1 ? 0 : 1; // insert, delete, upsert, update
        if (mode == 0) k = std::min(top - 1, at + (long)src.below(9)); else k0 += dir * (mode == 1 ? 1 : 2);
        if (kind == 1) k = k / 2 * 2;
        p.push_back({kind, k});
        muts = true;
      }
    }
    if (pbt::verbose) for (int t = 0; t < nt; t++) { std::string s; char b[40]; static const char *N[] = {"insert", "delete", "upsert", "update"}; for (auto &o : prog[t]) { snprintf(b, sizeof b, "%s(%ld) ", N[o.first], o.second); s += b; } PBT_LOG("thread %d: %s", t, s.c_str()); }
    for (int t = 0; t < nt; t++) sim::spawn([&, t] {
      TR::RegisterThread();
      for (auto &o : prog[t]) switch (o.first) {
      case 0: m->Insert(S::key(o.second), (V)2); break;
      case 1: m->Delete(S::key(o.second)); break;
      case 2: m->Upsert(S::key(o.second), (V)3); break;
      default: m->Update(S::key(o.second), (V)4);
      }
      TR::UnregisterThread();
    });
    sim::run();
    sw = std::max(sw, (size_t)sim::switches());
    live.clear();
    for (long k = 0; k <= top; k++) if (auto v = m->Search(S::key(k))) live[k] = 1;
    levels = std::max(levels, judge<C>(*m, live, true, "after the threads ended"));
  }
  if constexpr (C::T::STAT) {
    auto &st = m->stats();
    if (st.num_leaf_merges) pbt::label("leaves merged");
    if (st.num_inner_splits) pbt::label("inner nodes split");
    if (st.num_inner_merges) pbt::label("inner nodes merged");
  }
  // goes on with one thread
  while (src.more(6)) { long k = (long)src.below(top + 1); if (src.below(2)) { if (m->Delete(S::key(k))) live.erase(k); } else if (m->Insert(S::key(k), (V)5)) live[k] = 5; judge<C>(*m, live, true, "afterwards"); }
  if (levels > 1 && muts && sw > 6) pbt::nontrivial();
}
#define R(C, W) static pbt::Reg r_##C("P31", #C, threads<C>, W);
#endif
using ints = Cfg<SInt, int, Tr<256, 60>>;
using longs = Cfg<SLong, int64_t, Tr<320, 30>>;
using always = Cfg<SShort, short, Tr<256, 101>>;
using plain = Cfg<SInt, int, Tr<256, 60, false>>;
R(ints, 10) R(longs, 6) R(plain, 3)
#ifndef PBT_SCHED
using pages = Cfg<SLong, long, btree_traits_debug>;
R(always, 5) R(pages, 1)
#endif
} // namespace
