// P27: what threads leave behind is a sound index (waves of threads over two
// maps, then single-threaded use against a model); P28: pausing one thread does
// not stop the others.  Sched builds only.
#include <limits>
#include <deque>
#include <optional>
#include "smallgc.h"
#include "indexes/btree/key.h"
#include "indexes/btree/concurrent_map.h"
#include "indexes/hashtable/concurrent_map.h"
#include "indexes/art/concurrent_map.h"
#include "../lib/lin.h"
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include <cstring>
#include <map>
#include <memory>
#include <string>
using pbt::src;
using TR = indexes::utils::ThreadRegistry;
namespace bt = indexes::btree;
namespace ht = indexes::hashtable;
namespace art = indexes::art;

namespace {
using Ref = std::map<long, long>;
template <int SZ, int TH, bool DBG, bool ST> struct Tr {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool DEBUG = DBG;
  static constexpr bool STAT = ST;
};
// ---- adapters: keys are numbers 0..domain-1
template <typename T_> struct Bt {
  using M = bt::concurrent_map<long, long, T_>;
  static constexpr const char *name = "B+tree";
  static constexpr bool ordered = true, quiet_lookup = false;
  std::unique_ptr<M> m = std::make_unique<M>();
  static long domain() { static const long D[] = {6, 12, 24, 60, 160}; return D[src.below(5)]; }
  static long key(long i) { return i * 3 - 40; }
  static long idx(long k) { return (k + 40) / 3; }
  bool ins(long i, long v) { return m->Insert(key(i), v); }
  auto ups(long i, long v) { return m->Upsert(key(i), v); }
  auto upd(long i, long v) { return m->Update(key(i), v); }
  auto del(long i) { return m->Delete(key(i)); }
  auto find(long i) { return m->Search(key(i)); }
  void check_size(size_t n) { if constexpr (T_::STAT) { PBT_CHECK(m->size() == n, "size is %zu, %zu keys are live", m->size(), n); PBT_CHECK(m->empty() == (n == 0), "empty() is wrong with %zu keys", n); } }
  template <typename It> static void at(const It &it, const std::pair<const long, long> &e, const char *w) { PBT_CHECK(idx(it.key()) == e.first && it.data() == e.second, "%s is at key %ld=%ld, expected %ld=%ld", w, idx(it.key()), (long)it.data(), e.first, e.second); }
  void contents(const Ref &r) {
    { auto it = m->begin(), e = m->end(); for (auto &x : r) { PBT_CHECK(it != e, "forward traversal ends before key %ld", x.first); at(it, x, "forward traversal"); ++it; } PBT_CHECK(it == e, "forward traversal goes on after the last key"); }
    { auto it = m->rbegin(), e = m->rend(); for (auto x = r.rbegin(); x != r.rend(); ++x) { PBT_CHECK(it != e, "reverse traversal ends before key %ld", x->first); at(it, *x, "reverse traversal"); ++it; } PBT_CHECK(it == e, "reverse traversal goes on after the first key"); }
  }
  void query(const Ref &r, long a, long b) {
    if (a > b) std::swap(a, b);
    auto want = [&](auto it, Ref::const_iterator x, const char *w) { bool e = it == m->end(); PBT_CHECK(e == (x == r.end()), "%s(%ld) gives %s", w, a, e ? "the end" : "an entry"); if (!e) at(it, *x, w); };
    want(m->lower_bound(key(a)), r.lower_bound(a), "lower bound");
    want(m->upper_bound(key(a)), r.upper_bound(a), "upper bound");
    { auto x = r.lower_bound(a); for (auto it = m->template range_iter<bt::INCLUSIVE, bt::EXCLUSIVE>(key(a), key(b)); it; ++it, ++x) { PBT_CHECK(x != r.end() && x->first < b, "range [%ld,%ld) reports too much: %ld", a, b, idx(it.key())); at(it, *x, "range scan"); } PBT_CHECK(x == r.end() || x->first >= b, "range [%ld,%ld) ends before %ld", a, b, x->first); }
    { auto x = r.upper_bound(b); for (auto it = m->template rrange_iter<bt::EXCLUSIVE, bt::INCLUSIVE>(key(a), key(b)); it; ++it) { PBT_CHECK(x != r.begin() && std::prev(x)->first > a, "reverse range (%ld,%ld] reports too much: %ld", a, b, idx(it.key())); --x; at(it, *x, "reverse range scan"); } PBT_CHECK(x == r.begin() || std::prev(x)->first <= a, "reverse range (%ld,%ld] ends before %ld", a, b, std::prev(x)->first); }
    // from a bound, back and forth
    auto x = r.lower_bound(a); auto it = m->lower_bound(key(a));
    for (int n = 0; n < 12 && x != r.end(); n++) { // (there is no way back from the end)
      if (src.below(2)) { if (x == r.begin()) continue; --x; --it; } else { ++x; ++it; }
      PBT_CHECK((it == m->end()) == (x == r.end()), "a walk from key %ld is at %s", a, x == r.end() ? "an entry, expected the end" : "the end");
      if (x != r.end()) at(it, *x, "walk");
    }
  }
  void emptied(const Ref &) {}
  void scan(long i, bool up, int steps) { if (up) { auto it = m->lower_bound(key(i)), e = m->end(); for (; steps-- && it != e; ++it) (void)it.data(); } else { auto it = m->rbegin(), e = m->rend(); for (; steps-- && it != e; ++it) (void)it.data(); } }
};
struct Ar {
  using M = art::concurrent_map<long>;
  static constexpr const char *name = "radix tree";
  static constexpr bool ordered = false, quiet_lookup = true;
  std::unique_ptr<M> m = std::make_unique<M>();
  uint64_t base = src.below(2) ? 0x0807060504030201ull : 0;
  int p1 = (int)src.below(8), p2 = (int)src.below(8), wide = (int)src.below(3);
  static long domain() { static const long D[] = {4, 8, 20, 60, 120}; return D[src.below(5)]; }
  // two branching bytes; the second takes few or many values
  uint64_t key(long i) const {
    int w = wide == 0 ? 1 : wide == 1 ? 3 : 20;
    uint64_t a = (uint64_t)i / w, b = (uint64_t)i % w;
    if (p1 == p2) return (base & ~(0xffull << (8 * p1))) | (uint64_t)i << (8 * p1);
    return (base & ~(0xffull << (8 * p1)) & ~(0xffull << (8 * p2))) | a << (8 * p1) | (b * 7) << (8 * p2);
  }
  bool ins(long i, long v) { return m->Insert(key(i), v); }
  auto ups(long i, long v) { return m->Upsert(key(i), v); }
  auto upd(long i, long v) { return m->Update(key(i), v); }
  auto del(long i) { return m->Delete(key(i)); }
  auto find(long i) { return m->Search(key(i)); }
  void check_size(size_t n) { PBT_CHECK(m->size() == n, "size is %zu, %zu keys are live", m->size(), n); }
  void contents(const Ref &) {}
  void query(const Ref &, long, long) {}
  void scan(long i, bool, int) { find(i); }
};
template <int MODE> struct H { size_t operator()(long k) const { return MODE == 0 ? (size_t)k : MODE == 1 ? (size_t)(k & 3) * 7 : MODE == 2 ? ~(size_t)0 - (size_t)(k & 7) : pbt::mix((uint64_t)k); } };
struct SmallLimit : ht::hashtable_traits_default { static constexpr uint8_t LINEAR_SEARCH_LIMIT = 3; };
template <int MODE, typename T = ht::hashtable_traits_default> struct Ha {
  using M = ht::concurrent_map<long, long, H<MODE>, T>;
  static constexpr const char *name = "hash table";
  static constexpr bool ordered = false, quiet_lookup = true;
  std::unique_ptr<M> m = std::make_unique<M>(src.below(3) == 0 ? src.below(33) : 4);
  long stride = src.below(2) ? 1 : 16;
  static long domain() { static const long D[] = {4, 8, 20, 60, 120}; return D[src.below(MODE == 1 || MODE == 2 ? 3 : 5)]; }
  bool ins(long i, long v) { return m->Insert(i * stride, v); }
  auto ups(long i, long v) { return m->Upsert(i * stride, v); }
  auto upd(long i, long v) { return m->Update(i * stride, v); }
  auto del(long i) { return m->Delete(i * stride); }
  auto find(long i) { return m->Search(i * stride); }
  void check_size(size_t n) {
    PBT_CHECK(m->size() == n, "size is %zu, %zu keys are live", m->size(), n);
    PBT_CHECK(m->empty() == (n == 0), "empty() is wrong with %zu keys", n);
    int l = m->load_factor();
    PBT_CHECK(l >= 0 && l <= 100 && (n ? true : l == 0), "load factor is %d with %zu keys", l, n);
  }
  void contents(const Ref &) {}
  void query(const Ref &, long, long) {}
  void scan(long i, bool, int) { find(i); }
};

struct POp { lin::Op o; int map = 0; int extra = 0; };
template <typename A> void perform(A &a, lin::Op &o) {
  o.inv = sim::now();
  auto put = [&](auto &&r) { o.has = r.has_value(); if (r) o.res = *r; };
  switch (o.kind) {
  case lin::INSERT: o.has = a.ins(o.key, o.arg); break;
  case lin::UPSERT: put(a.ups(o.key, o.arg)); break;
  case lin::UPDATE: put(a.upd(o.key, o.arg)); break;
  case lin::DELETE_: put(a.del(o.key)); break;
  case lin::SEARCH: put(a.find(o.key)); break;
  }
  o.ret = sim::now();
}
const int W[] = {0, 0, 0, 1, 1, 2, 3, 3, 3, 4};
template <typename A> std::vector<std::vector<POp>> programs(int nt, int nmaps, long dom, pbt::Values &nextv, bool &muts) {
  std::vector<std::vector<POp>> prog(nt);
  long hot = 1 + (long)src.below(6), at = (long)src.below(dom);
  for (int t = 0; t < nt; t++) {
    int mode = (int)src.below(3);
    long k0 = (long)src.below(dom), dir = src.below(2) ? 1 : -1;
    while (src.more(mode ? 9 : 6) && prog[t].size() < 18) {
      POp p; p.o.thr = t;
      if (nmaps > 1 && src.below(4) == 3) p.map = 1;
      if (mode == 0) { p.o.kind = W[src.below(10)]; p.o.key = src.below(6) ? (at + (long)src.below(hot)) % dom : (long)src.below(dom); }
      else { p.o.kind = mode == 1 ? lin::INSERT : lin::DELETE_; p.o.key = ((k0 % dom) + dom) % dom; k0 += dir; }
      p.extra = src.below(25) == 24 ? 1 + (int)src.below(2) : 0;
      p.o.arg = nextv++;
      if (p.o.kind != lin::SEARCH) muts = true;
      prog[t].push_back(p);
    }
    std::string s; char b[80];
    if (pbt::verbose) { for (auto &p : prog[t]) { snprintf(b, sizeof b, "%s(%d:%ld) ", lin::kname(p.o.kind), p.map, p.o.key); s += b; } PBT_LOG("thread %d: %s", t, s.c_str()); }
  }
  return prog;
}
#ifdef P27
template <typename A> void seq_op(A &a, Ref &r, long i, int kind, long v) {
  lin::Op o; o.kind = kind; o.key = i; o.arg = v;
  auto it = r.find(i);
  PBT_LOG("%s(%ld,%ld)", lin::kname(kind), i, v);
  perform(a, o);
  if (kind == lin::INSERT) PBT_CHECK(o.has == (it == r.end()), "%s: afterwards insert(%ld) returned %d, the key is %s", A::name, i, (int)o.has, it == r.end() ? "absent" : "present");
  else { PBT_CHECK(o.has == (it != r.end()), "%s: afterwards %s(%ld) returned %s, the key is %s", A::name, lin::kname(kind), i, o.has ? "a value" : "nothing", it == r.end() ? "absent" : "present"); if (o.has) PBT_CHECK(o.res == it->second, "%s: afterwards %s(%ld) returned %ld, the stored value is %ld", A::name, lin::kname(kind), i, o.res, it->second); }
  if (kind == lin::DELETE_) r.erase(i);
  else if (kind == lin::UPSERT || (kind == lin::INSERT && o.has) || (kind == lin::UPDATE && o.has)) r[i] = v;
}
template <typename A> void aftermath() {
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  draw_gc_threshold();
  int main_id = TR::ThreadID();
  std::vector<int> ids{main_id};
  int nmaps = 1 + (int)(src.below(3) == 2);
  std::vector<std::unique_ptr<A>> a;
  for (int i = 0; i < nmaps; i++) a.push_back(std::make_unique<A>());
  std::vector<Ref> ref(nmaps);
  std::vector<Ref> had(nmaps); // may be present after a wave: every value written
  long dom = A::domain(); pbt::Values nextv;
  auto all = [&](const char *when) {
    for (int k = 0; k < nmaps; k++) {
      for (long i = 0; i < dom; i++) { auto v = a[k]->find(i); auto it = ref[k].find(i); PBT_CHECK(v.has_value() == (it != ref[k].end()) && (!v || *v == it->second), "%s: %s key %ld of map %d is found with %s, expected %s", A::name, when, i, k, v ? std::to_string(*v).c_str() : "nothing", it == ref[k].end() ? "nothing" : std::to_string(it->second).c_str()); }
      a[k]->check_size(ref[k].size());
      a[k]->contents(ref[k]);
    }
  };
  for (int k = 0; k < nmaps; k++) { long n = src.below(3) ? (long)src.below(dom + 1) : 0, s = (long)src.below(dom); for (long i = 0; i < n; i++) seq_op(*a[k], ref[k], (s + i) % dom, lin::INSERT, nextv++); }
  bool muts = false; uint64_t sw = 0; int waves = 1 + (int)src.below(3);
  for (int w = 0; w < waves; w++) {
    PBT_LOG("wave %d", w);
    int nt = 2 + (int)src.below(3);
    auto prog = programs<A>(nt, nmaps, dom, nextv, muts);
    for (int t = 0; t < nt; t++)
      sim::spawn([&, t] {
        TR::RegisterThread();
        for (auto &p : prog[t]) { A &x = *a[p.map]; perform(x, p.o); if (p.extra) x.scan(p.o.key, p.extra == 1, 6); }
        TR::UnregisterThread();
      });
    sim::run();
    sw = sim::switches();
    // the history must explain what is there now
    for (int k = 0; k < nmaps; k++) {
      std::vector<lin::Op> h;
      for (auto &[i, v] : ref[k]) { lin::Op o; o.kind = lin::UPSERT; o.key = i; o.arg = v; o.inv = 1; o.ret = 2; h.push_back(o); }
      for (auto &q : prog) for (auto &p : q) if (p.map == k) { lin::Op o = p.o; o.inv += 2; o.ret += 2; h.push_back(o); }
      ref[k].clear();
      for (long i = 0; i < dom; i++) { lin::Op o; o.kind = lin::SEARCH; o.key = i; o.thr = 99; perform(*a[k], o); if (o.has) ref[k][i] = o.res; o.inv += 2; o.ret += 2; h.push_back(o); }
      if (pbt::verbose) for (auto &o : h) PBT_LOG("%d: %s", k, lin::show(o).c_str());
      lin::check(h, A::name);
    }
    all("after the threads ended");
    // single-threaded use of what they left
    if (src.below(8) == 7) { int k = (int)src.below(nmaps); PBT_LOG("move map %d", k); auto n = std::make_unique<typename A::M>(std::move(*a[k]->m)); a[k]->m = std::move(n); all("after a move"); }
    if (src.below(3) == 2 && ids.size() < 4) { TR::RegisterThread(); ids.push_back(TR::ThreadID()); }
    while (src.more(12)) {
      sim::set_thread_id(ids[src.below(ids.size())]);
      int k = (int)src.below(nmaps);
      long i = (long)src.below(dom);
      switch (src.below(12)) {
      case 9: a[k]->query(ref[k], i, (long)src.below(dom)); break;
      case 10: { // a run
        long n = 1 + (long)src.below(dom); int kind = src.below(2) ? lin::INSERT : lin::DELETE_; bool down = src.below(2);
        for (long j = 0; j < n; j++) seq_op(*a[k], ref[k], (down ? i + dom - j % dom : i + j) % dom, kind, nextv++);
        break;
      }
      case 11: if (src.below(3) == 2) { PBT_LOG("reclaim_all"); a[k]->m->reclaim_all(); } else seq_op(*a[k], ref[k], i, lin::DELETE_, 0); break;
      default: seq_op(*a[k], ref[k], i, W[src.below(10)], nextv++);
      }
    }
    sim::set_thread_id(main_id);
    all("after later updates");
    for (int n = (int)src.below(4); n > 0; n--) { int k = (int)src.below(nmaps); a[k]->query(ref[k], (long)src.below(dom), (long)src.below(dom)); }
  }
  if (src.below(2)) { // empty one map; the other keeps everything
    int k = (int)src.below(nmaps); bool down = src.below(2);
    for (long i = 0; i < dom; i++) seq_op(*a[k], ref[k], down ? dom - 1 - i : i, lin::DELETE_, 0);
    all("after emptying a map");
    if (src.below(2)) { for (long i = 0; i < dom; i++) seq_op(*a[k], ref[k], i, lin::INSERT, nextv++); all("after refilling a map"); }
  }
  a.clear();
  if (muts && sw > 6 * (uint64_t)waves) pbt::nontrivial();
  if (nmaps > 1) pbt::label("two maps");
  if (waves > 1) pbt::label("several waves of threads");
}
#define R(n, A, w) pbt::Reg r_##n("P27", #n, aftermath<A>, w, true)
using B1 = Bt<Tr<256, 60, false, true>>; using B2 = Bt<Tr<320, 30, true, true>>; using B3 = Bt<Tr<320, 90, false, false>>;
R(btree, B1, 10); R(btree_selfchecks, B2, 5); R(btree_no_statistics, B3, 4); R(radix, Ar, 8);
R(hash_ident, Ha<0>, 4); R(hash_few, Ha<1>, 4); R(hash_top, Ha<2>, 3);
using HL = Ha<3, SmallLimit>;
R(hash_limit, HL, 4);
#endif
#ifdef P28
// One thread stops for as long as the others need: between operations with an
// open traversal or protected section, or inside a lookup.  Lookups of the
// B+tree may wait for writers, so there the thread stops before others start.
template <typename A> void pausing() {
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  draw_gc_threshold();
  auto a = std::make_unique<A>();
  long dom = A::domain(); pbt::Values nextv;
  long n = (long)src.below(dom + 1), s = (long)src.below(dom);
  std::vector<lin::Op> h;
  auto one = [&](int kind, long i) { lin::Op o; o.kind = kind; o.key = i; o.arg = nextv++; perform(*a, o); h.push_back(o); };
  for (long i = 0; i < n; i++) one(lin::INSERT, (s + i) % dom);
  if (src.below(3) == 2) for (long i = 0; i < n; i++) if (src.below(2)) one(lin::DELETE_, (s + i) % dom);
  PBT_LOG("prefilled %ld", n);
  int nt = 1 + (int)src.below(3);
  bool muts = false;
  auto prog = programs<A>(nt, 1, dom, nextv, muts);
  std::vector<int> churn(nt);
  if (src.below(16) == 15) { churn[src.below(nt)] = 20 + (int)src.below(180); muts = true; }
  int how = (int)src.below(3); // 0 lookup, 1 traversal (or lookup), 2 between operations
  bool gated = !A::quiet_lookup || src.below(2);
  int64_t within = src.below(2) ? (int64_t)src.below(60) : (int64_t)src.below(1200);
  std::vector<lin::Op> own;
  for (int i = 1 + (int)src.below(3); i > 0; i--) { lin::Op o; o.kind = how == 2 ? W[src.below(10)] : (int)lin::SEARCH; o.key = (long)src.below(dom); o.arg = nextv++; o.thr = 9; own.push_back(o); }
  bool up = src.below(2); long from = (long)src.below(dom);
  static const char *NAME[] = {"inside a lookup", "inside a traversal", "between two operations"};
  PBT_LOG("thread 9 pauses %s%s within %ld steps", NAME[how], gated ? ", then the others start," : "", (long)within);
  int gate = gated ? 1 : 0;
  bool stopped = false;
  sim::spawn([&] {
    TR::RegisterThread();
    if (how == 2) {
      bool open = src.below(2);
      if constexpr (A::ordered) if (open) {
        auto it = a->m->lower_bound(A::key(from)); auto e = a->m->end();
        sim::pause_within(0, "with an open traversal", gated ? &gate : nullptr);
        stopped = sim::pause_over();
        for (int k = 0; k < 8 && it != e; ++it, k++) (void)it.data();
      }
      if (!stopped) { perform(*a, own[0]); sim::pause_within(0, NAME[2], gated ? &gate : nullptr); stopped = sim::pause_over(); }
      else perform(*a, own[0]);
    } else {
      sim::pause_within(within, NAME[how], gated ? &gate : nullptr);
      if (how == 1 && A::ordered) a->scan(from, up, 30);
      else for (auto &o : own) perform(*a, o);
      stopped = sim::pause_over();
    }
    if (gated && !stopped) gate = 0;
    TR::UnregisterThread();
  });
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      TR::RegisterThread();
      sim::mutex_lock(&gate); sim::mutex_unlock(&gate);
      for (auto &p : prog[t]) { perform(*a, p.o); if (p.extra) a->scan(p.o.key, p.extra == 1, 6); }
      for (int i = 0; i < churn[t]; i++) { // on its own key, much garbage
        bool in = a->ins(dom + t, i); auto d = a->del(dom + t);
        if (!in || !d || *d != i) pbt::fail("%s: thread %d inserted and deleted its own key: %d, %d", A::name, t, (int)in, (int)d.has_value());
      }
      TR::UnregisterThread();
    });
  sim::run();
  for (auto &q : prog) for (auto &p : q) h.push_back(p.o);
  for (auto &o : own) if (o.inv) h.push_back(o);
  for (long i = 0; i < dom; i++) { lin::Op o; o.kind = lin::SEARCH; o.key = i; o.thr = 99; perform(*a, o); h.push_back(o); }
  if (pbt::verbose) for (auto &o : h) PBT_LOG("%s", lin::show(o).c_str());
  lin::check(h, A::name);
  a.reset();
  if (stopped) pbt::label(NAME[how]);
  if (stopped && muts) pbt::nontrivial();
}
// the same for a protected section of the epoch manager
struct Obj { int id; };
void epoch_pause() {
  sim::opts.tso = true;
  using EM = indexes::utils::EpochManager<uint64_t, Obj, 3>;
  auto e = std::make_unique<EM>();
  TR::RegisterThread();
  sim::idle_threads();
  int nt = 1 + (int)src.below(3);
  if (src.below(2)) e->set_reclamation_threshold(1 + (int)src.below(6));
  std::vector<Obj> store(1600);
  std::vector<std::vector<int>> prog(nt);
  std::vector<int> retired(nt), gone(sim::MAX_IDS);
  for (auto &p : prog) while (src.more(8) && p.size() < 20) p.push_back(src.below(24) == 23 ? 6 : (int)src.below(6));
  bool gated = src.below(2); int gate = gated;
  int64_t within = (int64_t)src.below(12);
  int nest = 1 + (int)src.below(3);
  bool stopped = false;
  sim::spawn([&] {
    TR::RegisterThread();
    for (int i = 0; i < nest; i++) e->enter_epoch();
    sim::pause_within(within, "inside a protected section", gated ? &gate : nullptr);
    for (int i = 0; i < 4; i++) { e->enter_epoch(); e->exit_epoch(); }
    stopped = sim::pause_over();
    if (gated && !stopped) gate = 0;
    for (int i = 0; i < nest; i++) e->exit_epoch();
    TR::UnregisterThread();
  });
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      TR::RegisterThread();
      sim::mutex_lock(&gate); sim::mutex_unlock(&gate);
      int in = 0;
      for (int k : prog[t]) switch (k) {
      case 0: case 1: e->enter_epoch(); in++; break;
      case 2: if (in) { e->exit_epoch(); in--; } break;
      case 3: e->retire_in_new_epoch([&](Obj *o) { gone[sim::thread_id()]++; o->id++; }, &store[t * 400 + retired[t]++]); break;
      case 4: e->retire_in_current_epoch([&](Obj *o) { gone[sim::thread_id()]++; o->id++; }, &store[t * 400 + retired[t]++]); break;
      case 5: e->do_reclaim(); break;
      case 6: for (int i = 0; i < 60 && retired[t] < 380; i++) e->retire_in_new_epoch([&](Obj *o) { gone[sim::thread_id()]++; o->id++; }, &store[t * 400 + retired[t]++]); break;
      }
      while (in--) e->exit_epoch();
      TR::UnregisterThread();
    });
  sim::run();
  e->reclaim_all();
  int nobj = 0, ng = 0;
  for (int x : retired) nobj += x;
  for (int x : gone) ng += x;
  PBT_CHECK(ng == nobj, "%d objects were retired, %d are reclaimed when nobody is inside", nobj, ng);
  if (stopped && nobj) pbt::nontrivial();
}
#define R(n, A, w) pbt::Reg r_##n("P28", #n, pausing<A>, w, true)
using B1 = Bt<Tr<256, 60, false, true>>; using B2 = Bt<Tr<320, 30, true, true>>;
R(btree, B1, 8); R(btree_selfchecks, B2, 4); R(radix, Ar, 8); R(hash_ident, Ha<0>, 4); R(hash_few, Ha<1>, 4);
using HL = Ha<3, SmallLimit>;
R(hash_limit, HL, 4);
pbt::Reg r_epoch("P28", "epoch", epoch_pause, 4, true);
#endif
} // namespace
