// P01, P07: B+trees whose nodes have every possible remainder of free space
// (node sizes in steps of eight bytes, entries of several sizes), driven so
// that inner nodes split and merge all the time.
#include <optional>
#if defined(P07)
#include <limits>
#include "smallgc.h"
#include "indexes/btree/concurrent_map.h"
#else
#include "indexes/btree/map.h"
#endif
#include "indexes/btree/key.h"
#include "../lib/pbt.h"
#include <map>
#include <memory>
#include <vector>
using pbt::src;
namespace bt = indexes::btree;

namespace {
template <int SZ, int TH> struct Tr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool STAT = true;
};
struct Small { using K = int; using V = int; static K key(long i) { return (int)i; } };
struct Mid { using K = long; using V = long; static K key(long i) { return i; } };
struct Wide { using K = bt::compound_key<long, long>; using V = int; static K key(long i) { return K{i / 7, i % 7}; } };
struct Odd { using K = short; using V = bt::compound_key<int, int, int>; static K key(long i) { return (short)i; } };
template <typename C> typename C::V val(long i) {
  if constexpr (std::is_arithmetic_v<typename C::V>) return (typename C::V)i; else return typename C::V{(int)i, 1, 2};
}

template <typename C, int N> void sizes() {
  using K = typename C::K;
  using V = typename C::V;
#if defined(P07)
  indexes::utils::ThreadRegistry::RegisterThread();
  draw_gc_threshold();
  using M = bt::concurrent_map<K, V, Tr<N, 80>>;
#else
  using M = bt::map<K, V, Tr<N, 80>>;
#endif
  auto mp = std::make_unique<M>();
  M &m = *mp;
  std::map<long, long> ref;
  long dom = 20 + (long)src.below(src.below(4) ? 300 : 2000);
  long vc = 0; pbt::Values vals;
  size_t peak = 0; bool shrank = false, tall = false;
  auto set = [&](long i) {
    vc = vals++;
#if defined(P07)
    bool had = ref.count(i);
    if (vals.n & 1) { PBT_CHECK(m.Insert(C::key(i), val<C>(vc)) == !had, "insert(%ld): wrong answer", i); if (!had) ref[i] = vc; }
    else { auto o = m.Upsert(C::key(i), val<C>(vc)); PBT_CHECK(o.has_value() == had && (!had || *o == val<C>(ref[i])), "upsert(%ld): wrong answer", i); ref[i] = vc; }
#else
    m[C::key(i)] = val<C>(vc);
    ref[i] = vc;
#endif
    peak = std::max(peak, ref.size());
  };
  auto del = [&](long i) {
    bool had = ref.count(i);
#if defined(P07)
    auto o = m.Delete(C::key(i));
    PBT_CHECK(o.has_value() == had && (!had || *o == val<C>(ref[i])), "delete(%ld): wrong answer", i);
#else
    PBT_CHECK(m.erase(C::key(i)) == had, "erase(%ld): wrong answer", i);
#endif
    ref.erase(i);
  };
  auto get = [&](long i) {
    auto r = ref.find(i);
#if defined(P07)
    auto o = m.Search(C::key(i));
    PBT_CHECK(o.has_value() == (r != ref.end()) && (!o || *o == val<C>(r->second)), "search(%ld): wrong answer", i);
#else
    auto it = m.find(C::key(i));
    PBT_CHECK((it != m.end()) == (r != ref.end()) && (r == ref.end() || it->second == val<C>(r->second)), "find(%ld): wrong answer", i);
#endif
  };
  auto audit = [&] {
    PBT_CHECK(m.size() == ref.size(), "size() is %zu expected %zu", (size_t)m.size(), ref.size());
    for (auto &e : ref) get(e.first);
    auto it = m.begin();
    for (auto &e : ref) {
      PBT_CHECK(it != m.end() && it->first == C::key(e.first) && it->second == val<C>(e.second), "traversal is not at %ld", e.first);
      ++it;
    }
    PBT_CHECK(it == m.end(), "traversal does not end");
  };
  PBT_LOG("nodes of %d bytes, %ld keys", N, dom);
  int phases = 0;
  while (src.more(12) && phases < 40) {
    phases++;
    int mode = (int)src.below(7);
    long a = (long)src.below(dom), n = 1 + (long)src.below(dom), bias = 1 + (long)src.below(7);
    uint64_t rs = src.u64();
    static const char *NAMES[] = {"insert upwards", "insert downwards", "delete upwards", "delete downwards", "random, mostly inserts", "random, mostly deletes", "thin out"};
    PBT_LOG("%s from %ld, %ld times (%ld)", NAMES[mode], a, n, bias);
    for (long j = 0; j < n; j++) {
      uint64_t x = pbt::mix(rs + j);
      long r = (long)(x % dom);
      switch (mode) {
      case 0: set((a + j) % dom); break;
      case 1: set((a + dom * 4 - j) % dom); break;
      case 2: del((a + j) % dom); break;
      case 3: del((a + dom * 4 - j) % dom); break;
      case 4: if ((long)(x >> 50) % 8 < bias) set(r); else del(r); break;
      case 5: if ((long)(x >> 50) % 8 < bias) del(r); else set(r); break;
      default: if (j % bias) del((a + j) % dom);
      }
      if (x % 16 == 0) get((long)((x >> 20) % dom));
    }
    audit();
    if (ref.size() * 2 < peak) shrank = true;
    if (ref.size() > 60) tall = true;
  }
  for (long i = 0; i < dom; i++) get(i);
  mp.reset();
  if (shrank && tall) pbt::nontrivial();
}
#ifdef P07
#define PROP "P07"
#else
#define PROP "P01"
#endif
template <typename C, int N> struct Many {
  static void add(int weight) {
    static const std::string name = "size" + std::to_string(sizeof(typename C::K)) + "_" + std::to_string(sizeof(typename C::V)) + "_" + std::to_string(N);
    pbt::Reg r(PROP, name.c_str(), sizes<C, N>, weight, true);
  }
};
#ifdef P07
constexpr int B = 320, W = 448;
#else
constexpr int B = 248, W = 328;
#endif
#define FIVE(C, B) (Many<C, B>::add(4), Many<C, B + 8>::add(4), Many<C, B + 16>::add(4), Many<C, B + 24>::add(4), Many<C, B + 32>::add(4))
#if PART == 0
int reg = (FIVE(Mid, B), 0);
#elif PART == 1
int reg = (FIVE(Small, B), 0);
#elif PART == 2
int reg = (FIVE(Wide, W), 0);
#else
int reg = (FIVE(Odd, B), 0);
#endif
} // namespace
