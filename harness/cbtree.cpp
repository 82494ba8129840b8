// P07/P08: concurrent B+tree from one thread; P09-P11: under a controlled
// scheduler (sched builds).
#include <limits>
#include <optional>
#include "smallgc.h"
#include "indexes/btree/key.h"
#include "indexes/btree/concurrent_map.h"
#include "../lib/lin.h"
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include "tracked.h"
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <string>
using namespace indexes::btree;
using pbt::src;
using TR = indexes::utils::ThreadRegistry;

namespace {
template <int SZ, int TH, bool DBG, bool ST = true> struct Tr {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = ST;
};

// ---- key kinds.  key(i) is strictly increasing in i >= 0; entries use even
// indices, queries any (so every query can also fall between two keys).
struct SInt { using K = int; static K key(long i) { return (int)i * 3 - 700; } static long idx(const K &k) { return (k + 700) / 3; } };
struct SLong { using K = int64_t; static K key(long i) { return (i - 300) * 1000000007ll; } static long idx(const K &k) { return k / 1000000007ll + 300; } };
struct SShort { using K = uint16_t; static K key(long i) { return (K)i; } static long idx(const K &k) { return k; } };
struct SComp { using K = compound_key<int, int, int>; static K key(long i) { return K{(int)(i / 60), (int)(i / 6 % 10) - 4, (int)(i % 6)}; } static long idx(const K &k) { return std::get<0>(k) * 60 + (std::get<1>(k) + 4) * 6 + std::get<2>(k); } };
// variable-length key: refers to bytes owned elsewhere, ordered by a comparator
struct DK : dynamic_key_base { const char *p; int len; };
struct SDyn {
  using K = DK;
  static const std::vector<std::string> &pool() {
    static std::vector<std::string> *v = [] {
      auto *r = new std::vector<std::string>;
      // prefixes of each other, different lengths, bytes above 127
      for (int a = 0; a < 30; a++) { std::string s(1, (char)(3 + a * 8)); r->push_back(s); for (int b = 0; b < 12; b++) { std::string t = s + (char)(b * 20); r->push_back(t); for (int c = 0; c < 5; c++) r->push_back(t + std::string(c, 'a') + (char)(c * 40)); } }
      std::sort(r->begin(), r->end());
      r->erase(std::unique(r->begin(), r->end()), r->end());
      return r;
    }();
    return *v;
  }
  static K key(long i) { auto &s = pool()[(size_t)i % pool().size()]; K k; k.p = s.data(); k.len = (int)s.size(); return k; }
  static long idx(const K &k) { std::string s(k.p, k.len); auto &p = pool(); return std::lower_bound(p.begin(), p.end(), s) - p.begin(); }
};
template <typename M> struct DCmp : M::dynamic_cmp {
  static int cmp(const DK &a, const DK &b) { int n = std::min(a.len, b.len); int c = memcmp(a.p, b.p, n); return c ? c : a.len - b.len; }
  bool less(const DK &a, const DK &b) const noexcept override { return cmp(a, b) < 0; }
  bool equal(const DK &a, const DK &b) const noexcept override { return cmp(a, b) == 0; }
};

template <typename S_, typename V_, typename T_, long DOM> struct Cfg {
  using S = S_; using K = typename S::K; using V = V_; using T = T_;
  using M = concurrent_map<K, V, T>;
  static constexpr bool dyn = std::is_base_of_v<dynamic_key_base, K>;
  static constexpr long maxdom = DOM;
  static constexpr bool comp = std::is_same_v<S, SComp>;
};
// uniform access to static and dynamic keyed maps
template <typename C> struct Acc {
  using M = typename C::M; using K = typename C::K; using V = typename C::V;
  int gc = draw_gc_threshold();
  std::unique_ptr<M> m = std::make_unique<M>();
  struct None {};
  std::conditional_t<C::dyn, DCmp<M>, None> cmp;
  Acc() { C::S::key(0); } // sets up shared tables
#define BOTH(call, ...) { if constexpr (C::dyn) { return m->call(__VA_ARGS__, &cmp); } else return m->call(__VA_ARGS__); }
#define BOTH0(call) { if constexpr (C::dyn) { return m->call(&cmp); } else return m->call(); }
  auto ins(const K &k, const V &v) BOTH(Insert, k, v)
  auto ups(const K &k, const V &v) BOTH(Upsert, k, v)
  auto upd(const K &k, const V &v) BOTH(Update, k, v)
  auto del(const K &k) BOTH(Delete, k)
  auto find(const K &k) BOTH(Search, k)
  auto lb(const K &k) BOTH(lower_bound, k)
  auto ub(const K &k) BOTH(upper_bound, k)
  auto begin() BOTH0(begin)
  auto end() BOTH0(end)
  auto rbegin() BOTH0(rbegin)
  auto rend() BOTH0(rend)
  auto cbegin() BOTH0(cbegin)
  auto cend() BOTH0(cend)
  auto crbegin() BOTH0(crbegin)
  auto crend() BOTH0(crend)
  template <range_kind L, range_kind R> auto range(const K &a, const K &b) { if constexpr (C::dyn) { return m->template range_iter<L, R>(a, b, &cmp); } else return m->template range_iter<L, R>(a, b); }
  template <range_kind L, range_kind R> auto rrange(const K &a, const K &b) { if constexpr (C::dyn) { return m->template rrange_iter<L, R>(a, b, &cmp); } else return m->template rrange_iter<L, R>(a, b); }
};

#ifndef PBT_SCHED
// --------------------------------------------------------- single-threaded
template <typename V> V mkval(long i) { return (V)i; }
template <> std::string mkval<std::string>(long i) { return std::to_string(i) + (i % 3 ? "" : " in a text that does not fit inline"); }
template <typename V> long num(const V &v) { return (long)v; }
long num(const std::string &s) { return atol(s.c_str()); }
template <int T> long num(const Tracked<T> &t) { return t.id; }
template <typename C> struct Sim : Acc<C> {
  using A = Acc<C>; using V = typename C::V; using S = typename C::S;
  std::map<long, V> ref;
  // when each index last changed, for traversals with updates in between
  std::map<long, long> changed;
  std::map<long, std::vector<std::pair<long, V>>> past; // values it had, until when
  long clock = 0;
  long dom, updates = 0;
  pbt::Values nextv;
  size_t peak = 0;
  std::vector<int> ids;
  bool record = false;
  Sim() {
    static const long base[] = {8, 40, 40, 160, 160, 600, 600, 3000};
    dom = std::min<long>(base[src.below(8)], C::maxdom);
    TR::RegisterThread(); ids.push_back(TR::ThreadID());
    if (src.below(3) == 2) { if (src.below(2)) TR::RegisterThread(); else sim::register_above(); ids.push_back(TR::ThreadID()); }
    sim::set_thread_id(ids[0]);
  }
  long even() { return (long)src.below((dom + 1) / 2) * 2; }
  long any() { return (long)src.below(dom + 1); }
  V val() { return mkval<V>(nextv++); }
  bool has(long i) { return ref.count(i) > 0; }
  void note(long i) { if (record) { clock++; auto it = ref.find(i); if (it != ref.end()) past[i].push_back({clock, it->second}); changed[i] = clock; } }
  void expect(long i, const std::optional<V> &got, const char *op) {
    auto it = ref.find(i);
    PBT_CHECK(got.has_value() == (it != ref.end()), "%s(%ld) returned %s, the key is %s", op, i, got ? "a value" : "nothing", it != ref.end() ? "present" : "absent");
    if (got) PBT_CHECK(*got == it->second, "%s(%ld) returned %ld, the stored value is %ld", op, i, num(*got), num(it->second));
  }
  void insert(long i) { V v = val(); bool h = has(i); PBT_LOG("insert %ld,%ld", i, num(v)); updates++; bool r = this->ins(S::key(i), v); PBT_CHECK(r == !h, "insert(%ld) returned %d, the key is %s", i, (int)r, h ? "present" : "absent"); if (r) { note(i); ref[i] = v; } peak = std::max(peak, ref.size()); }
  void upsert(long i) { V v = val(); PBT_LOG("upsert %ld,%ld", i, num(v)); updates++; expect(i, this->ups(S::key(i), v), "upsert"); note(i); ref[i] = v; peak = std::max(peak, ref.size()); }
  void update(long i) { V v = val(); PBT_LOG("update %ld,%ld", i, num(v)); updates++; expect(i, this->upd(S::key(i), v), "update"); if (has(i)) { note(i); ref[i] = v; } }
  void erase(long i) { PBT_LOG("delete %ld", i); updates++; expect(i, this->del(S::key(i)), "delete"); if (has(i)) { note(i); ref.erase(i); } }
  void search(long i) { expect(i, this->find(S::key(i)), "search"); }
  void step(bool bulk = true) {
    if (ids.size() > 1) sim::set_thread_id(ids[src.below(ids.size())]);
    int k = (int)src.below(bulk ? 22 : 13);
    long a = even();
    switch (k) {
    case 0: case 1: case 2: insert(a); break;
    case 3: case 4: upsert(a); break;
    case 5: update(a); break;
    case 6: case 7: case 8: erase(a); break;
    case 9: case 10: { auto it = ref.lower_bound(a); if (it == ref.end()) it = ref.begin(); if (it != ref.end()) erase(it->first); break; }
    case 11: search(any()); break;
    case 12: if (src.below(4) == 3) { PBT_LOG("reclaim_all"); this->m->reclaim_all(); } else search(a); break;
    case 13: case 14: case 15: { // insert a run
      long n = 1 + (long)src.below(1 + dom / 2), st = 2 * (1 + (long)src.below(3)), dir = src.below(2) ? -st : st;
      PBT_LOG("-- insert run of %ld from %ld by %ld", n, a, dir);
      for (long j = 0, x = a; j < n; j++, x += dir) { long i = ((x % (dom + 2)) + dom + 2) % (dom + 2) / 2 * 2; if (i > dom) continue; if (src.below(4) == 3) upsert(i); else insert(i); }
      break;
    }
    case 16: case 17: case 18: { // delete a run
      long n = 1 + (long)src.below(1 + dom / 2), st = 2 * (1 + (long)src.below(3)), dir = src.below(2) ? -st : st;
      PBT_LOG("-- delete run of %ld from %ld by %ld", n, a, dir);
      for (long j = 0, x = a; j < n; j++, x += dir) { long i = ((x % (dom + 2)) + dom + 2) % (dom + 2) / 2 * 2; if (has(i) || src.below(8) == 7) erase(i); }
      break;
    }
    case 19: { // insert and delete the same few keys again and again
      long n = 5 + (long)src.below(60);
      PBT_LOG("-- churn of %ld at %ld", n, a);
      for (long j = 0; j < n; j++) { long i = std::min(a + 2 * (long)src.below(3), dom / 2 * 2); if (has(i)) erase(i); else insert(i); }
      break;
    }
    case 20: if (src.below(8) == 7) { PBT_LOG("-- clear"); bool up = src.below(2); while (!ref.empty()) erase(up ? ref.begin()->first : ref.rbegin()->first); } else search(a); break;
    case 21: for (long i = 0; i < std::min(dom, 40l); i++) search(any()); break;
    }
  }
  void counts() {
    if constexpr (C::T::STAT) {
      PBT_CHECK(this->m->size() == ref.size(), "size is %zu, %zu keys are live", this->m->size(), ref.size());
      PBT_CHECK(this->m->empty() == ref.empty(), "empty is %d with %zu keys", (int)this->m->empty(), ref.size());
      PBT_CHECK(this->m->stats().num_elements == ref.size(), "the statistics count %zu elements, %zu keys are live", (size_t)this->m->stats().num_elements, ref.size());
    }
    int h = this->m->height();
    int bound = 3 + (int)std::log2(1.0 + updates);
    PBT_CHECK(h >= 0 && h <= bound, "height is %d after %ld updates", h, updates);
  }
};
template <typename C> void p07() {
  Sim<C> s;
  uint64_t len = src.below(8) == 0 ? 120 : 40;
  while (src.more(len)) {
    s.step();
    s.counts();
    if (src.below(12) == 11) for (long i = 0; i <= s.dom; i++) s.search(i);
    if (src.below(60) == 59) {
      PBT_LOG("move");
      auto n = std::make_unique<typename C::M>(std::move(*s.m));
      s.m = std::move(n);
      pbt::label("move");
    }
  }
  for (long i = 0; i <= s.dom; i++) s.search(i);
  s.counts();
  int h = s.m->height();
  if (h > 1 && s.ref.size() * 2 < s.peak) pbt::nontrivial();
  if (h > 2) pbt::label("three or more levels");
  if (s.peak && s.ref.empty()) pbt::label("emptied");
}

// ---- traversals
// Follows one traversal: every position must have held that value at some
// moment since the start, positions move strictly, and no key that has stayed
// unchanged lies between consecutive positions.
template <typename C> struct Walk {
  Sim<C> &s; long born; bool at_end = false, have = false; long cur = 0;
  Walk(Sim<C> &a) : s(a), born(a.clock) {}
  bool stable(long i) { auto c = s.changed.find(i); return c == s.changed.end() || c->second <= born; }
  void none_between(long lo, long hi, const char *what) { // exclusive
    for (auto it = s.ref.upper_bound(lo); it != s.ref.end() && it->first < hi; ++it)
      PBT_CHECK(!stable(it->first), "%s: the traversal skips key %ld, which is present all the time (between %ld and %ld)", what, it->first, lo, hi);
  }
  void at(long i, typename C::V v, const char *what) {
    auto it = s.ref.find(i);
    if (it != s.ref.end() && it->second == v) return;
    auto p = s.past.find(i);
    if (p != s.past.end()) for (auto &[till, old] : p->second) if (till > born && old == v) return;
    pbt::fail("%s: reports key %ld with value %ld, which it did not have during the traversal", what, i, num(v));
  }
  template <typename It> void moved(const It &it, bool end, int dir, long lo, long hi, const char *what) {
    // dir +1/-1: from cur; lo/hi: bounds (exclusive) of what may be reported
    if (end) {
      if (dir > 0) none_between(have ? cur : lo, hi, what); else none_between(lo, have ? cur : hi, what);
      at_end = true;
      return;
    }
    long i = C::S::idx(it.key());
    at(i, it.data(), what);
    PBT_CHECK(C::S::idx(it->first) == i, "%s: it-> and key() disagree", what);
    PBT_CHECK(i > lo && i < hi, "%s: reports key %ld outside of (%ld, %ld)", what, i, lo, hi);
    if (have) PBT_CHECK(dir > 0 ? i > cur : i < cur, "%s: goes from key %ld to %ld", what, cur, i);
    if (dir > 0) none_between(have ? cur : lo, i, what); else none_between(i, have ? cur : hi, what);
    cur = i; have = true;
  }
};
template <typename T> struct KeyIt { const T &r; auto &key() const { return r.key(); } auto &data() const { return r.data(); } const T &operator->() const { return r; } };

template <typename C> void disturb(Sim<C> &s, long near, int rate) {
  while (rate && src.below(100) >= (uint64_t)(100 - rate)) {
    switch (src.below(6)) {
    case 0: { long i = std::clamp(near + 2 * src.range(-6, 6), 0l, s.dom) / 2 * 2; if (s.has(i)) s.erase(i); else s.insert(i); break; }
    case 1: { // delete a run around the position
      long n = 1 + (long)src.below(12), x = std::clamp(near + 2 * src.range(-12, 3), 0l, s.dom) / 2 * 2;
      for (long j = 0; j < n && x <= s.dom; j++, x += 2) if (s.has(x)) s.erase(x);
      break;
    }
    case 2: { // insert a run around the position
      long n = 1 + (long)src.below(12), x = std::clamp(near + 2 * src.range(-12, 3), 0l, s.dom) / 2 * 2;
      for (long j = 0; j < n && x <= s.dom; j++, x += 2) if (!s.has(x)) s.insert(x);
      break;
    }
    case 3: s.step(src.below(4) == 3); break;
    case 4: { auto it = s.ref.lower_bound(near); if (it != s.ref.end()) s.erase(it->first); break; }
    case 5: { auto it = s.ref.lower_bound(near); if (it != s.ref.begin()) { --it; s.erase(it->first); } break; }
    }
    sim::set_thread_id(s.ids[0]);
  }
}
constexpr long LO = -1, HI = 1l << 40;
template <typename C, typename It, typename End> void walk(Sim<C> &s, It it, End &&end, int dir, long lo, long hi, int rate, int turn, const char *what) {
  Walk<C> w(s);
  int first = dir;
  long budget = 30 + (long)src.below(400);
  // the first position: nothing between the bound and it
  w.moved(it, it == end(), dir, lo, hi, what);
  long from = lo, to = hi;
  while (!w.at_end && budget-- > 0) {
    disturb(s, w.cur, rate);
    int d = src.below(100) < (uint64_t)turn ? -dir : dir;
    bool post = src.below(4) == 3;
    if (d == dir) { if (post) { auto old = it++; PBT_CHECK(C::S::idx(old.key()) == w.cur, "%s: it++ did not return the old position", what); } else ++it; }
    else {
      // going back to where there may be nothing is only defined if a stable key is there
      bool ok = false;
      if (d > 0) { for (auto x = s.ref.upper_bound(w.cur); x != s.ref.end(); ++x) if (w.stable(x->first)) { ok = true; break; } }
      else for (auto x = s.ref.begin(); x != s.ref.end() && x->first < w.cur; ++x) if (w.stable(x->first)) { ok = true; break; }
      if (!ok) continue;
      if (post) it--; else --it;
    }
    // a turned traversal may leave the bounds on the side it came from
    if (d != first) { from = LO; to = HI; }
    w.moved(it, it == end(), d, d > 0 ? LO : (d == first ? from : LO), d > 0 ? (d == first ? to : HI) : HI, what);
  }
}
template <typename C> void full(Sim<C> &s) {
  { auto it = s.begin(); auto e = s.end(); for (auto &[k, v] : s.ref) { PBT_CHECK(it != e, "forward traversal ends before key %ld", k); PBT_CHECK(C::S::idx(it.key()) == k && C::S::idx(it->first) == k && it.data() == v && it->second == v, "forward traversal is at key %ld, expected %ld", C::S::idx(it.key()), k); ++it; } PBT_CHECK(it == e, "forward traversal does not end after the last key"); }
  { auto it = s.cbegin(); auto e = s.cend(); size_t n = 0; for (; it != e && n <= s.ref.size(); ++it) n++; PBT_CHECK(n == s.ref.size(), "read-only forward traversal visits %zu entries of %zu", n, s.ref.size()); }
  { auto it = s.rbegin(); auto e = s.rend(); for (auto r = s.ref.rbegin(); r != s.ref.rend(); ++r) { PBT_CHECK(it != e, "reverse traversal ends before key %ld", r->first); PBT_CHECK(C::S::idx(it.key()) == r->first && it->second == r->second, "reverse traversal is at key %ld, expected %ld", C::S::idx(it.key()), r->first); ++it; } PBT_CHECK(it == e, "reverse traversal does not end after the first key"); }
  { auto it = s.crbegin(); auto e = s.crend(); size_t n = 0; for (; it != e && n <= s.ref.size(); ++it) n++; PBT_CHECK(n == s.ref.size(), "read-only reverse traversal visits %zu entries of %zu", n, s.ref.size()); }
}
template <typename C, typename It> void expect_at(Sim<C> &s, const It &it, bool end, typename std::map<long, typename C::V>::iterator r, const char *what, long q) {
  PBT_CHECK(end == (r == s.ref.end()), "%s(%ld) gives %s, expected %s", what, q, end ? "the end" : "an entry", end ? "an entry" : "the end");
  if (!end) PBT_CHECK(C::S::idx(it.key()) == r->first && it.data() == r->second, "%s(%ld) gives key %ld, expected %ld", what, q, C::S::idx(it.key()), r->first);
}
template <range_kind L, range_kind R, typename C> void ranges(Sim<C> &s, long a, long b, int rate) {
  long lo = L == INCLUSIVE ? a - 1 : a, hi = R == INCLUSIVE ? b + 1 : b;
  if (src.below(2)) {
    PBT_LOG("range %s%ld,%ld%s", L == INCLUSIVE ? "[" : "(", a, b, R == INCLUSIVE ? "]" : ")");
    Walk<C> w(s);
    auto it = s.template range<L, R>(C::S::key(a), C::S::key(b));
    for (; it; ++it) { w.moved(KeyIt<decltype(it)>{it}, false, 1, lo, hi, "range scan"); PBT_CHECK((*it).second == it.data(), "range scan: *it disagrees with data()"); disturb(s, w.cur, rate); }
    w.moved(KeyIt<decltype(it)>{it}, true, 1, lo, hi, "range scan");
  } else {
    PBT_LOG("reverse range %s%ld,%ld%s", L == INCLUSIVE ? "[" : "(", a, b, R == INCLUSIVE ? "]" : ")");
    Walk<C> w(s);
    auto it = s.template rrange<L, R>(C::S::key(a), C::S::key(b));
    for (; it; ++it) { w.moved(KeyIt<decltype(it)>{it}, false, -1, lo, hi, "reverse range scan"); PBT_CHECK(it->second == it.data(), "reverse range scan: it-> disagrees with data()"); disturb(s, w.cur, rate); }
    w.moved(KeyIt<decltype(it)>{it}, true, -1, lo, hi, "reverse range scan");
  }
}
template <typename C> void p08() {
  Sim<C> s;
  uint64_t len = 25;
  int queries = 0; bool multi = false, disturbed = false;
  while (src.more(len)) {
    s.step();
    sim::set_thread_id(s.ids[0]);
    if (s.m->height() > 1) multi = true;
    int n = 1 + (int)src.below(4);
    for (int q = 0; q < n; q++) {
      queries++;
      s.record = true; s.changed.clear(); s.past.clear();
      int rate = src.below(3) == 2 ? 25 : 0;
      if (rate) disturbed = true;
      long a = s.any(), b = s.any();
      if (src.below(4) && a > b) std::swap(a, b);
      if (src.below(6) == 5) b = std::min(s.dom, a + (long)src.below(3));
      if (C::dyn) { long mx = (long)SDyn::pool().size() - 1; a = std::min(a, mx); b = std::min(b, mx); }
      switch (src.below(9)) {
      case 0: full(s); break;
      case 1: { PBT_LOG("lower_bound %ld", a); auto it = s.lb(C::S::key(a)); expect_at(s, it, it == s.end(), s.ref.lower_bound(a), "lower_bound", a); if (!(it == s.end())) walk(s, it, [&] { return s.end(); }, 1, a - 1, HI, rate, 25, "walk from lower_bound"); break; }
      case 2: { PBT_LOG("upper_bound %ld", a); auto it = s.ub(C::S::key(a)); expect_at(s, it, it == s.end(), s.ref.upper_bound(a), "upper_bound", a); if (!(it == s.end())) walk(s, it, [&] { return s.end(); }, 1, a, HI, rate, 25, "walk from upper_bound"); break; }
      case 3: PBT_LOG("walk from begin"); walk(s, s.begin(), [&] { return s.end(); }, 1, LO, HI, rate, (int)src.below(2) * 30, "forward traversal"); break;
      case 4: PBT_LOG("walk from rbegin");
        {
          // ++ on a reverse iterator goes down
          auto it = s.rbegin(); Walk<C> w(s); long budget = 30 + (long)src.below(400);
          w.moved(it, it == s.rend(), -1, LO, HI, "reverse traversal");
          while (!w.at_end && budget-- > 0) { disturb(s, w.cur, rate); if (src.below(2)) ++it; else it++; w.moved(it, it == s.rend(), -1, LO, HI, "reverse traversal"); }
        }
        break;
      case 5: ranges<INCLUSIVE, INCLUSIVE>(s, a, b, rate); break;
      case 6: ranges<INCLUSIVE, EXCLUSIVE>(s, a, b, rate); break;
      case 7: ranges<EXCLUSIVE, INCLUSIVE>(s, a, b, rate); break;
      case 8: ranges<EXCLUSIVE, EXCLUSIVE>(s, a, b, rate); break;
      }
      if constexpr (C::comp) if (src.below(2)) { // a prefix of a compound key
        using P2 = compound_key<int, int>; using P1 = compound_key<int>;
        long g = a / 6 * 6, h = a / 60 * 60;
        { P2 p{(int)(a / 60), (int)(a / 6 % 10) - 4}; auto it = s.m->lower_bound(p); expect_at(s, it, it == s.end(), s.ref.lower_bound(g), "prefix lower_bound", g); auto iu = s.m->upper_bound(p); expect_at(s, iu, iu == s.end(), s.ref.lower_bound(g), "prefix upper_bound", g); }
        { P1 p{(int)(a / 60)}; auto it = s.m->lower_bound(p); expect_at(s, it, it == s.end(), s.ref.lower_bound(h), "prefix lower_bound", h); }
        { // mixed lengths as range ends
          P1 p{(int)(a / 60)}; long e = b; Walk<C> w(s); auto it = s.m->template range_iter<INCLUSIVE, EXCLUSIVE>(p, C::S::key(e));
          for (; it; ++it) w.moved(KeyIt<decltype(it)>{it}, false, 1, h - 1, e, "range scan from a prefix");
          w.moved(KeyIt<decltype(it)>{it}, true, 1, h - 1, e, "range scan from a prefix");
          P1 p2{(int)(b / 60)}; long e2 = b / 60 * 60; Walk<C> w2(s); auto it2 = s.m->template rrange_iter<EXCLUSIVE, INCLUSIVE>(C::S::key(a), p2);
          for (; it2; ++it2) w2.moved(KeyIt<decltype(it2)>{it2}, false, -1, a, e2, "reverse range scan to a prefix");
          w2.moved(KeyIt<decltype(it2)>{it2}, true, -1, a, e2, "reverse range scan to a prefix");
        }
      }
      s.record = false;
    }
  }
  full(s);
  if (multi && queries >= 10 && s.peak > 12) pbt::nontrivial();
  if (multi && disturbed) pbt::label("updates during a traversal of several leaves");
  if (s.ref.empty()) pbt::label("traversal of an emptied tree");
}
// ---- lifetimes of keys and values (P11)
template <typename C> void p11() {
  Tracked<0>::live().clear(); Tracked<1>::live().clear();
  size_t lk = Tracked<0>::live().size(), lv = Tracked<1>::live().size();
  {
    Sim<C> s;
    while (src.more(40)) {
      s.step();
      s.search(s.any());
      if (src.below(10) == 9) { sim::set_thread_id(s.ids[0]); full(s); }
      if (src.below(40) == 39) { PBT_LOG("move"); auto n = std::make_unique<typename C::M>(std::move(*s.m)); s.m = std::move(n); }
    }
    sim::set_thread_id(s.ids[0]);
    full(s);
    if (s.m->height() > 1 && s.ref.size() * 2 < s.peak) pbt::nontrivial();
  }
  PBT_CHECK(Tracked<1>::live().size() == lv, "%zu values are never destroyed", Tracked<1>::live().size() - lv);
  PBT_CHECK(Tracked<0>::live().size() == lk, "%zu keys are never destroyed", Tracked<0>::live().size() - lk);
}
struct STrk { using K = Tracked<0>; static K key(long i) { return K(i); } static long idx(const K &k) { return k.id; } };
struct SStr { using K = std::string; static K key(long i) { char b[64]; snprintf(b, sizeof b, i % 4 ? "%05ld" : "%05ld, a key that does not fit inline", i); return b; } static long idx(const K &k) { return atol(k.c_str()); } };
#ifdef P07
#define RUN(name, cfg, w) pbt::Reg name##r("P07", #name, p07<cfg>, w, true)
#elif defined(P11)
#define RUN(name, cfg, w) pbt::Reg name##r("P11", #name, p11<cfg>, w, true)
#else
#define RUN(name, cfg, w) pbt::Reg name##r("P08", #name, p08<cfg>, w, true)
#endif
using C1 = Cfg<SInt, int, Tr<320, 60, false>, 3000>;
using C2 = Cfg<SLong, int64_t, Tr<320, 30, true>, 3000>;
using C3 = Cfg<SShort, int, Tr<384, 100, true>, 3000>;
using C4 = Cfg<SComp, int64_t, Tr<384, 50, true>, 3000>;
using C5 = Cfg<SDyn, int, Tr<448, 50, false>, 1600>;
using C6 = Cfg<SInt, int64_t, Tr<320, 0, true>, 600>;
using C7 = Cfg<SLong, int, Tr<8192, 20, false>, 3000>;
using C8 = Cfg<SLong, int64_t, Tr<320, 70, false, false>, 600>;
using C9 = Cfg<STrk, Tracked<1>, Tr<1024, 50, true>, 600>;
using C10 = Cfg<SStr, std::string, Tr<1024, 40, false>, 600>;
using C11 = Cfg<SStr, long, Tr<1024, 70, true>, 600>;
#ifdef P11
RUN(tracked, C9, 10); RUN(texts, C10, 8); RUN(text_keys, C11, 6);
#elif PART == 0
RUN(ints, C1, 10); RUN(longs_selfchecks, C2, 8);
#elif PART == 1
RUN(compound, C4, 8); RUN(large_pages, C7, 2);
#elif PART == 2
RUN(dynamic, C5, 8); RUN(never_merge, C6, 4);
#else
RUN(shorts_always_merge, C3, 6); RUN(no_statistics, C8, 4);
#endif
#else // ------------------------------------------------------------ threads
struct Seen { long idx, val; uint64_t t; };
struct Scan { int kind; long lo, hi; uint64_t start = 0, end = 0; std::vector<Seen> seen; bool done = false; };
template <typename C> struct Conc : Acc<C> {
  using S = typename C::S; using V = typename C::V;
  std::vector<lin::Op> hist;
  pbt::Values nextv;
  long dom;
  void run1(lin::Op &o) {
    auto k = S::key(o.key);
    o.inv = sim::now();
    switch (o.kind) {
    case lin::INSERT: o.has = this->ins(k, (V)o.arg); break;
    case lin::UPSERT: { auto r = this->ups(k, (V)o.arg); o.has = r.has_value(); if (r) o.res = (long)*r; break; }
    case lin::UPDATE: { auto r = this->upd(k, (V)o.arg); o.has = r.has_value(); if (r) o.res = (long)*r; break; }
    case lin::DELETE_: { auto r = this->del(k); o.has = r.has_value(); if (r) o.res = (long)*r; break; }
    case lin::SEARCH: { auto r = this->find(k); o.has = r.has_value(); if (r) o.res = (long)*r; break; }
    }
    o.ret = sim::now();
  }
  void one(int kind, long key) { lin::Op o; o.kind = kind; o.key = key; o.arg = nextv++; run1(o); hist.push_back(o); }
  // returns false when the scan has gone on far too long
  template <typename It> bool put(Scan &sc, const It &it) { Seen x; x.idx = S::idx(it.key()); x.val = (long)it.data(); x.t = sim::now(); sc.seen.push_back(x); return sc.seen.size() < 400; }
  static bool up(int kind) { return kind != 1 && kind < 6; }
  void scan(Scan &sc) {
    auto a = S::key(sc.lo), b = S::key(sc.hi);
    sc.start = sim::now();
    switch (sc.kind) {
    case 0: { auto it = this->begin(); auto e = this->end(); for (; it != e && put(sc, it); ++it); break; }
    case 1: { auto it = this->rbegin(); auto e = this->rend(); for (; it != e && put(sc, it); it++); break; }
    case 2: { auto it = this->lb(a); auto e = this->end(); for (; it != e && put(sc, it); ++it); break; }
    case 3: { auto it = this->ub(a); auto e = this->end(); for (; it != e && put(sc, it); ++it); break; }
    case 4: { auto it = this->template range<INCLUSIVE, EXCLUSIVE>(a, b); for (; it && put(sc, it); ++it); break; }
    case 5: { auto it = this->template range<EXCLUSIVE, INCLUSIVE>(a, b); for (; it && put(sc, it); ++it); break; }
    case 6: { auto it = this->template rrange<INCLUSIVE, EXCLUSIVE>(a, b); for (; it && put(sc, it); ++it); break; }
    case 7: { auto it = this->template rrange<EXCLUSIVE, INCLUSIVE>(a, b); for (; it && put(sc, it); ++it); break; }
    }
    sc.end = sim::now(); sc.done = true;
  }
  static const char *sname(int k) { static const char *N[] = {"forward traversal", "reverse traversal", "scan from lower_bound", "scan from upper_bound", "range [lo,hi)", "range (lo,hi]", "reverse range [lo,hi)", "reverse range (lo,hi]"}; return N[k]; }
  static bool inside(const Scan &s, long i) {
    switch (s.kind) {
    case 2: return i >= s.lo; case 3: return i > s.lo;
    case 4: case 6: return i >= s.lo && i < s.hi;
    case 5: case 7: return i > s.lo && i <= s.hi;
    default: return true;
    }
  }
  static std::string text(const Scan &s) { std::string r; char b[64]; for (auto &x : s.seen) { snprintf(b, sizeof b, " %ld=%ld@%llu", x.idx, x.val, (unsigned long long)x.t); r += b; } return r; }
  void judge(const Scan &s) {
    const char *w = sname(s.kind);
    std::set<long> got;
    for (size_t i = 0; i < s.seen.size(); i++) {
      auto &x = s.seen[i];
      PBT_CHECK(inside(s, x.idx), "%s (%ld, %ld): reports key %ld outside of its range;%s", w, s.lo, s.hi, x.idx, text(s).c_str());
      if (i) PBT_CHECK(up(s.kind) ? x.idx > s.seen[i - 1].idx : x.idx < s.seen[i - 1].idx, "%s: goes from key %ld to %ld;%s", w, s.seen[i - 1].idx, x.idx, text(s).c_str());
      got.insert(x.idx);
      // who wrote this value?
      const lin::Op *wr = nullptr;
      for (auto &o : hist) if (o.key == x.idx && o.arg == x.val && (o.kind == lin::UPSERT || (o.has && (o.kind == lin::INSERT || o.kind == lin::UPDATE)))) wr = &o;
      PBT_CHECK(wr && wr->inv < x.t, "%s: reports key %ld with value %ld, which nobody had written;%s", w, x.idx, x.val, text(s).c_str());
      for (auto &o : hist)
        if (o.key == x.idx && o.ret && o.inv > wr->ret && o.ret < s.start && (o.kind == lin::UPSERT || (o.has && (o.kind == lin::DELETE_ || o.kind == lin::UPDATE))))
          pbt::fail("%s: reports key %ld with value %ld, removed or replaced before the traversal began (%s);%s", w, x.idx, x.val, lin::show(o).c_str(), text(s).c_str());
    }
    std::set<long> ks;
    for (auto &o : hist) ks.insert(o.key);
    for (long k : ks) {
      if (!inside(s, k) || got.count(k)) continue;
      // present throughout: established before the start, no deletion that
      // may come after that and before the end
      for (auto &e : hist) {
        if (e.key != k || !e.ret || e.ret >= s.start) continue;
        bool here = e.kind == lin::INSERT || e.kind == lin::UPSERT || ((e.kind == lin::UPDATE || e.kind == lin::SEARCH) && e.has);
        if (!here) continue;
        bool safe = true;
        for (auto &o : hist) if (o.key == k && o.kind == lin::DELETE_ && o.has && o.ret > e.inv && o.inv < s.end) safe = false;
        if (safe) pbt::fail("%s (%ld, %ld) during [%llu,%llu]: does not report key %ld, which is present all the time (%s);%s", w, s.lo, s.hi, (unsigned long long)s.start, (unsigned long long)s.end, k, lin::show(e).c_str(), text(s).c_str());
      }
    }
  }
};
template <typename C, int Prop> void conc_case() {
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  auto cp = std::make_unique<Conc<C>>();
  Conc<C> &c = *cp;
  if (Prop == 10) c.nextv.mode = 0; // a traversal is judged by which write each value comes from
  int nt = 2 + (int)src.below(3);
  static const int PRE[] = {0, 1, 3, 4, 5, 8, 11, 16, 24, 36, 60, 110, 180};
  int pre = PRE[src.below(src.below(4) == 3 ? 13 : 9)];
  long step = 2;
  bool down = src.below(2);
  for (int i = 0; i < pre; i++) c.one(lin::INSERT, (down ? pre - 1 - i : i) * step);
  long top = pre * step + 2;
  // thin out, so that merges and emptied leaves come within reach
  if (pre && src.below(2)) {
    int n = (int)src.below(pre + 1); long from = (long)src.below(pre);
    bool all = src.below(8) == 7;
    for (int i = 0; i < pre; i++) if (all || (src.below(4) && n-- > 0)) c.one(lin::DELETE_, (from + i) % pre * step);
  }
  PBT_LOG("prefilled %d%s, then:", pre, down ? " downwards" : "");
  if (pbt::verbose) for (auto &o : c.hist) if (o.kind == lin::DELETE_) PBT_LOG("  deleted %ld", o.key);
  int hot = 1 + (int)src.below(7);
  long at = (long)src.below(top + 1), spread = 1 + (long)src.below(3);
  std::vector<std::vector<lin::Op>> prog(nt);
  std::vector<Scan> scans(nt);
  int nscan = 0;
  if (Prop == 10) nscan = 1 + (int)src.below(2); else if (Prop == 11) nscan = (int)src.below(3);
  nscan = std::min(nscan, nt - 1);
  static const int W[] = {0, 0, 0, 1, 3, 3, 3, 3, 2, 4};
  bool muts = false;
  auto key = [&] { long k = src.below(8) ? at + spread * (long)src.below(hot) : (long)src.below(top + 1); return std::min(k, C::maxdom); };
  for (int t = 0; t < nscan; t++) {
    Scan &s = scans[t];
    s.kind = (int)src.below(8);
    s.lo = (long)src.below(top + 1); s.hi = (long)src.below(top + 1);
    if (s.lo > s.hi) std::swap(s.lo, s.hi);
    if (src.below(4)) { s.lo = std::max(0l, at - (long)src.below(12)); s.hi = std::min(C::maxdom, at + (long)src.below(16)); }
    PBT_LOG("thread %d: %s %ld..%ld", t, Conc<C>::sname(s.kind), s.lo, s.hi);
  }
  for (int t = nscan; t < nt; t++) {
    int mode = (int)src.below(3); // any, a run of inserts, a run of deletes
    long k0 = key(), dir = src.below(2) ? 1 : -1;
    while (src.more(mode ? 8 : 5) && prog[t].size() < 16) {
      lin::Op o; o.thr = t;
      if (mode == 0) { o.kind = W[src.below(10)]; o.key = key(); }
      else { o.kind = mode == 1 ? lin::INSERT : lin::DELETE_; o.key = std::clamp(k0, 0l, C::maxdom); k0 += dir * (mode == 1 ? 1 : 2); if (mode == 2) o.key = o.key / 2 * 2; if (src.below(10) == 9) o.kind = lin::SEARCH; }
      o.arg = c.nextv++;
      if (o.kind != lin::SEARCH) muts = true;
      prog[t].push_back(o);
    }
  }
  if (pbt::verbose) for (int t = nscan; t < nt; t++) {
    std::string s; char b[80];
    for (auto &p : prog[t]) { snprintf(b, sizeof b, "%s(%ld) ", lin::kname(p.kind), p.key); s += b; }
    PBT_LOG("thread %d: %s", t, s.c_str());
  }
  int h0 = c.m->height();
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      TR::RegisterThread();
      if (t < nscan) c.scan(scans[t]);
      for (auto &p : prog[t]) c.run1(p);
      TR::UnregisterThread();
    });
  sim::run();
  for (auto &p : prog) for (auto &x : p) c.hist.push_back(x);
  std::set<long> ks;
  std::map<long, long> live;
  for (auto &o : c.hist) ks.insert(o.key);
  size_t before = c.hist.size();
  for (long k : ks) { lin::Op o; o.kind = lin::SEARCH; o.key = k; o.thr = 99; c.run1(o); if (o.has) live[k] = o.res; c.hist.push_back(o); }
  if (Prop == 9) {
    if (pbt::verbose) for (auto &o : c.hist) PBT_LOG("%s", lin::show(o).c_str());
    lin::check(c.hist, "concurrent B+tree");
    if constexpr (C::T::STAT) PBT_CHECK(c.m->size() == live.size(), "size is %zu after all threads ended, %zu keys are live", c.m->size(), live.size());
    // the contents as a traversal shows them
    auto r = live.begin();
    { auto it = c.begin(); auto e = c.end(); for (; it != e; ++it, ++r) PBT_CHECK(r != live.end() && C::S::idx(it.key()) == r->first && (long)it.data() == r->second, "after all threads ended a traversal reports key %ld, lookups find %ld next", C::S::idx(it.key()), r == live.end() ? -1 : r->first); }
    PBT_CHECK(r == live.end(), "after all threads ended a traversal ends before key %ld, which lookups find", r == live.end() ? -1 : r->first);
    if (src.below(2)) {
      for (long k : ks) { auto d = c.del(C::S::key(k)); PBT_CHECK(d.has_value() == (live.count(k) > 0), "delete(%ld) afterwards returned %s", k, d ? "a value" : "nothing"); live.erase(k); PBT_CHECK(!c.find(C::S::key(k)), "key %ld is still found after its deletion", k); }
      if constexpr (C::T::STAT) PBT_CHECK(c.m->size() == 0, "size is %zu after deleting every key", c.m->size());
      PBT_CHECK(c.begin() == c.end(), "entries are left after deleting every key");
    }
  }
  if (Prop == 10) {
    if (pbt::verbose) { for (size_t i = 0; i < before; i++) PBT_LOG("%s", lin::show(c.hist[i]).c_str()); for (int t = 0; t < nscan; t++) PBT_LOG("thread %d: [%llu,%llu] saw%s", t, (unsigned long long)scans[t].start, (unsigned long long)scans[t].end, Conc<C>::text(scans[t]).c_str()); }
    for (int t = 0; t < nscan; t++) c.judge(scans[t]);
  }
  if (c.m->height() != h0) pbt::label("the tree grew while threads ran");
  if constexpr (C::T::STAT) {
    auto &st = c.m->stats();
    if (st.num_leaf_merges) pbt::label("leaves merged");
    if (st.num_leaf_splits) pbt::label("leaves split");
    if (st.num_inner_splits) pbt::label("inner nodes split");
    if (st.num_inner_merges) pbt::label("inner nodes merged");
    if (st.num_leaf_trims) pbt::label("leaves trimmed");
    if (st.num_inner_trims) pbt::label("inner nodes trimmed");
    if (st.num_optimistic_fails) pbt::label("optimistic lock failed");
  }
  size_t n = 0;
  for (int t = 0; t < nscan; t++) n += scans[t].seen.size();
  cp.reset();
  if (muts && sim::switches() > 6 && (Prop != 10 || n)) pbt::nontrivial();
}
#define CC(name, cfg, w, P, N) pbt::Reg name##r("P" #P, #name, conc_case<cfg, N>, w, N == 11)
using D1 = Cfg<SInt, int, Tr<256, 60, false>, 400>;
using D2 = Cfg<SLong, int64_t, Tr<320, 30, true>, 400>;
using D3 = Cfg<SDyn, int, Tr<384, 60, false>, 400>;
using D4 = Cfg<SLong, int64_t, Tr<320, 90, false, false>, 400>;
#ifdef P09
CC(ints, D1, 10, 09, 9); CC(longs_selfchecks, D2, 5, 09, 9); CC(dynamic, D3, 4, 09, 9); CC(no_statistics, D4, 3, 09, 9);
#elif defined(P10)
CC(ints, D1, 10, 10, 10); CC(longs_selfchecks, D2, 5, 10, 10); CC(dynamic, D3, 4, 10, 10); CC(no_statistics, D4, 3, 10, 10);
#else
CC(ints, D1, 10, 11, 11); CC(longs_selfchecks, D2, 5, 11, 11); CC(dynamic, D3, 4, 11, 11); CC(no_statistics, D4, 3, 11, 11);
#endif
#endif
} // namespace
