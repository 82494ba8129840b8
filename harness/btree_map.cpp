// P01-P05: single-threaded B+tree map against std::map.
#include "../lib/pbt.h"
#include "tracked.h"
#define BTREE_DUMP_ENABLED
#include "indexes/btree/key.h"
namespace indexes::btree::detail {
template <int O, typename... T>
std::ostream &operator<<(std::ostream &o, const compound_key<O, T...> &k) {
  o << "(";
  std::apply([&](const auto &... e) { ((o << e << ";"), ...); }, static_cast<const std::tuple<T...> &>(k));
  return o << ")";
}
}
#include "indexes/btree/map.h"
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <string>

using namespace indexes::btree;
using pbt::src;

template <int SZ, int TH> struct Tr : btree_traits_debug {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
};
template <int SZ, int TH> struct TrRel : btree_traits_default {
  static constexpr int NODE_SIZE = SZ;
  static constexpr int NODE_MERGE_THRESHOLD = TH;
  static constexpr bool STAT = true;
};

static std::string str_of(long i) {
  // mixed lengths, so both in-place and heap strings occur; order differs from i
  char b[96];
  static const char pad[] = "abcdefghijklmnopqrstuvwxyz-0123456789-abcdefghijklmnopqrstuvwxyz";
  snprintf(b, sizeof b, "%.*s%ld", (int)((i * 7) % 40), pad, i);
  return b;
}

struct CInt { using K = int; using V = int; using M = map<K, V, Tr<192, 80>>; static K key(long i) { return (int)i * 3 - 500; } static V val(long i) { return (int)i; } static constexpr int maxdom = 3000; };
struct CIntLow { using K = int64_t; using V = int; using M = map<K, V, TrRel<256, 20>>; static K key(long i) { return (i - 700) * 1000000007ll; } static V val(long i) { return (int)i; } static constexpr int maxdom = 3000; };
struct CIntNoMerge { using K = int; using V = int64_t; using M = map<K, V, Tr<256, 0>>; static K key(long i) { return (int)(-i); } static V val(long i) { return i; } static constexpr int maxdom = 1500; };
struct CIntAlways { using K = uint16_t; using V = int8_t; using M = map<K, V, Tr<192, 100>>; static K key(long i) { return (K)i; } static V val(long i) { return (V)i; } static constexpr int maxdom = 3000; };
struct CDefault { using K = uint64_t; using V = uint64_t; struct T : btree_traits_default { static constexpr bool STAT = true; static constexpr bool DEBUG = true; }; using M = map<K, V, T>; static K key(long i) { return i * 0x9E3779B97F4A7C15ull; } static V val(long i) { return i; } static constexpr int maxdom = 20000; };
struct CStr { using K = std::string; using V = std::string; using M = map<K, V, Tr<512, 40>>; static K key(long i) { return str_of(i); } static V val(long i) { return str_of(i * 31 + 5); } static constexpr int maxdom = 600; };
struct CStrRel { using K = std::string; using V = int; using M = map<K, V, TrRel<448, 60>>; static K key(long i) { return str_of(i); } static V val(long i) { return (int)i; } static constexpr int maxdom = 600; };
struct CComp { using K = compound_key<int, int, int>; using V = int; using M = map<K, V, Tr<192, 80>>; static K key(long i) { return K{(int)(i / 60), (int)(i / 6 % 10) - 4, (int)(i % 6)}; } static V val(long i) { return (int)i; } static constexpr int maxdom = 3000; };
struct CCompStr { using K = compound_key<int, std::string>; using V = std::string; using M = map<K, V, Tr<640, 50>>; static K key(long i) { return K{(int)(i / 8), str_of(i % 8)}; } static V val(long i) { return str_of(i); } static constexpr int maxdom = 400; };
struct CTracked { using K = Tracked<0>; using V = Tracked<1>; using M = map<K, V, Tr<384, 60>>; static K key(long i) { return K(i); } static V val(long i) { return V(i); } static constexpr int maxdom = 300; };
struct CTrackedRel { using K = Tracked<0>; using V = Tracked<1>; using M = map<K, V, TrRel<416, 25>>; static K key(long i) { return K(i); } static V val(long i) { return V(i); } static constexpr int maxdom = 300; };
struct CTrackedV { using K = int; using V = Tracked<1>; using M = map<K, V, Tr<256, 0>>; static K key(long i) { return (int)i; } static V val(long i) { return V(i); } static constexpr int maxdom = 300; };

template <typename T> std::string show(const T &t) { std::ostringstream o; o << t; return o.str(); }

template <typename C> struct Sim {
  using K = typename C::K;
  using V = typename C::V;
  using M = typename C::M;
  M m;
  const M &cm = m;
  std::map<K, V> ref;
  long dom;
  pbt::Values vcount;
  bool saw_split = false, saw_shrink = false, saw_multi = false;
  size_t peak = 0;

  Sim() {
    static const int base[] = {6, 30, 150, 600, 3000, 20000};
    dom = std::min<long>(base[src.below(sizeof base / sizeof *base)], C::maxdom);
  }
  long idx() { return src.below(dom); }

  void set(long i) {
    K k = C::key(i);
    V v = C::val(++vcount);
    PBT_LOG("m[%s] = %s", show(k).c_str(), show(v).c_str());
    m[k] = v;
    ref[k] = v;
    peak = std::max(peak, ref.size());
  }
  void touch(long i) { // operator[] without assignment
    K k = C::key(i);
    bool had = ref.count(k);
    V &v = m[k];
    V &rv = ref[k];
    PBT_LOG("read m[%s]", show(k).c_str());
    PBT_CHECK(v == rv, "m[%s] on %s key gave %s, expected %s", show(k).c_str(), had ? "a present" : "an absent", show(v).c_str(), show(rv).c_str());
    peak = std::max(peak, ref.size());
  }
  void erase(long i) {
    K k = C::key(i);
    size_t n = ref.erase(k);
    PBT_LOG("erase(%s)", show(k).c_str());
    bool r = m.erase(k);
    PBT_CHECK(r == (n == 1), "erase(%s) returned %d, key was %spresent", show(k).c_str(), r, n ? "" : "not ");
  }
  void erase_it(long i) {
    K k = C::key(i);
    auto it = m.find(k);
    bool has = ref.erase(k);
    PBT_LOG("erase(find(%s))", show(k).c_str());
    PBT_CHECK((it != m.end()) == has, "find(%s) %s", show(k).c_str(), has ? "missed a present key" : "found an absent key");
    if (has) m.erase(it);
  }
  void check_key(long i) {
    K k = C::key(i);
    auto r = ref.find(k);
    auto it = m.find(k);
    PBT_CHECK((it != m.end()) == (r != ref.end()), "find(%s) %s", show(k).c_str(), r != ref.end() ? "missed a present key" : "found an absent key");
    if (r != ref.end()) {
      PBT_CHECK(it->first == k && it.key() == k && (*it).first == k, "find(%s) gave key %s", show(k).c_str(), show(it->first).c_str());
      PBT_CHECK(it->second == r->second && it.data() == r->second, "find(%s) gave %s expected %s", show(k).c_str(), show(it->second).c_str(), show(r->second).c_str());
    }
    auto ci = cm.find(k);
    PBT_CHECK((ci != cm.end()) == (r != ref.end()) && (ci != cm.cend()) == (r != ref.end()), "const find(%s) %s", show(k).c_str(), r != ref.end() ? "missed a present key" : "found an absent key");
    if (r != ref.end())
      PBT_CHECK(ci->first == k && ci->second == r->second, "const find(%s) gave a wrong entry", show(k).c_str());
  }
  void check_size() {
    PBT_CHECK(m.size() == ref.size(), "size() is %zu, expected %zu", m.size(), ref.size());
    PBT_CHECK(m.empty() == ref.empty(), "empty() is %d with %zu entries", m.empty(), ref.size());
    if (m.height() > 0) saw_split = true;
    if (m.height() > 1) saw_multi = true;
    if (ref.size() * 2 < peak) saw_shrink = true;
  }
  // one mutation (possibly a bulk phase)
  void step() {
    int kind = (int)src.below(16);
    long a = idx(), b = idx(), c = src.below(4);
    switch (kind) {
    case 0: case 1: case 2: set(a); break;
    case 3: case 4: erase(a); break;
    case 5: erase_it(a); break;
    case 6: touch(a); break;
    case 7: case 8: { // insert a run
      long n = std::min<long>(1 + b % 200, dom);
      PBT_LOG("-- insert run of %ld from %ld dir %ld", n, a, c);
      for (long j = 0; j < n; j++) set(((c & 1 ? a - j : a + j) % dom + dom) % dom);
      break;
    }
    case 9: { // insert scattered
      long n = std::min<long>(1 + b % 300, dom);
      for (long j = 0; j < n; j++) set((long)(pbt::mix(a * 131 + j) % dom));
      break;
    }
    case 10: case 11: { // erase a run
      long n = std::min<long>(1 + b % 250, dom);
      PBT_LOG("-- erase run of %ld from %ld dir %ld", n, a, c);
      for (long j = 0; j < n; j++) erase(((c & 1 ? a - j : a + j) % dom + dom) % dom);
      break;
    }
    case 12: { // erase scattered
      long n = std::min<long>(1 + b % 300, dom);
      for (long j = 0; j < n; j++) erase((long)(pbt::mix(a * 137 + j) % dom));
      break;
    }
    case 13: { // drain everything
      PBT_LOG("-- drain, order %ld", c);
      std::vector<K> ks;
      for (auto &[k, v] : ref) ks.push_back(k);
      if (c == 1) std::reverse(ks.begin(), ks.end());
      if (c >= 2) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[pbt::mix(a + i) % i]);
      size_t keep = c == 3 ? b % 5 : 0;
      for (size_t i = 0; i + keep < ks.size(); i++) {
        ref.erase(ks[i]);
        PBT_CHECK(m.erase(ks[i]), "erase(%s) missed a present key", show(ks[i]).c_str());
      }
      break;
    }
    case 14: { // erase through positioned iterators
      for (int j = 0; j < 3 && !ref.empty(); j++) {
        K k = C::key((a + j * 7) % dom);
        auto it = c & 1 ? m.lower_bound(k) : m.upper_bound(k);
        auto r = c & 1 ? ref.lower_bound(k) : ref.upper_bound(k);
        PBT_LOG("erase(%s_bound(%s))", c & 1 ? "lower" : "upper", show(k).c_str());
        PBT_CHECK((it == m.end()) == (r == ref.end()), "bound(%s) reached end wrongly", show(k).c_str());
        if (r == ref.end()) break;
        PBT_CHECK(it->first == r->first, "bound(%s) is at %s expected %s", show(k).c_str(), show(it->first).c_str(), show(r->first).c_str());
        m.erase(it);
        ref.erase(r);
      }
      break;
    }
    case 15: { // update through a mutable iterator
      auto it = m.find(C::key(a));
      auto r = ref.find(C::key(a));
      PBT_CHECK((it == m.end()) == (r == ref.end()), "find(%s) wrong", show(C::key(a)).c_str());
      if (r != ref.end()) { V v = C::val(++vcount); it->second = v; r->second = v; }
      break;
    }
    }
    check_size();
  }
};

template <typename C> void p01() {
  Sim<C> s;
  long n = 0;
  while (n < 400 && src.more(25)) {
    s.step();
    for (int j = 0; j < 4; j++) s.check_key(s.idx());
    n++;
  }
  long st = std::max<long>(1, s.dom / 400);
  for (long i = 0; i < s.dom; i += st) s.check_key(i);
  for (auto &[k, v] : s.ref) {
    auto it = s.m.find(k);
    PBT_CHECK(it != s.m.end() && it->second == v, "key %s lost or changed at the end", show(k).c_str());
  }
  if (s.saw_split) pbt::label("split");
  if (s.saw_multi) pbt::label("three levels or more");
  if (s.saw_shrink) pbt::label("shrunk to under half its peak");
  if (s.saw_split && s.saw_shrink) pbt::nontrivial();
}

// ---- P02 -----------------------------------------------------------------
template <typename C, typename It, typename It2, typename Ref> void walk(const char *what, It b, It2 e, Ref rb, Ref re) {
  size_t n = 0;
  auto it = b;
  for (auto r = rb; r != re; ++r, ++n) {
    PBT_CHECK(!(it == e), "%s ended after %zu entries, expected more (next %s)", what, n, show(r->first).c_str());
    PBT_CHECK(it != e, "%s: operator!= contradicts operator==", what);
    PBT_CHECK(it->first == r->first, "%s: entry %zu is %s expected %s", what, n, show(it->first).c_str(), show(r->first).c_str());
    PBT_CHECK(it->second == r->second, "%s: value at %s is %s expected %s", what, show(r->first).c_str(), show(it->second).c_str(), show(r->second).c_str());
    if (n & 1) ++it; else { auto o = it++; PBT_CHECK(o->first == r->first, "%s: postfix ++ did not return the old position", what); }
  }
  PBT_CHECK(it == e && !(it != e), "%s: does not stop after the last of %zu entries", what, n);
}
template <typename C> void full_walks(Sim<C> &s) {
  auto &m = s.m; auto &cm = s.cm; auto &r = s.ref;
  walk<C>("begin..end", m.begin(), m.end(), r.begin(), r.end());
  walk<C>("cbegin..cend", m.cbegin(), m.cend(), r.begin(), r.end());
  walk<C>("const begin..end", cm.begin(), cm.end(), r.begin(), r.end());
  walk<C>("rbegin..rend", m.rbegin(), m.rend(), r.rbegin(), r.rend());
  walk<C>("crbegin..crend", m.crbegin(), m.crend(), r.rbegin(), r.rend());
  walk<C>("const rbegin..rend", cm.rbegin(), cm.rend(), r.rbegin(), r.rend());
  size_t n = 0;
  for (auto &kv : cm) { (void)kv; n++; }
  PBT_CHECK(n == r.size(), "range-for visited %zu of %zu entries", n, r.size());
}
template <typename C> void rand_walk(Sim<C> &s) {
  if (s.ref.empty()) return;
  auto &m = s.m; auto &r = s.ref;
  std::vector<typename std::map<typename C::K, typename C::V>::iterator> pos;
  for (auto i = r.begin(); i != r.end(); ++i) pos.push_back(i);
  long at = src.below(pos.size());
  long steps = src.below(60), dir = src.below(3);
  auto k = pos[at]->first;
  auto it = m.find(k);
  PBT_CHECK(it != m.end(), "find(%s) missed a present key", show(k).c_str());
  auto mark = it; long markat = at; // compared with every later position
  for (long j = 0; j < steps; j++) {
    bool fwd = dir == 0 ? true : dir == 1 ? false : src.below(2);
    if (fwd) { if (j & 1) ++it; else it++; at++; } else { if (j & 1) --it; else it--; at--; }
    if (at < 0) return; // before begin: nothing to check
    if (at == (long)pos.size()) {
      PBT_CHECK(it == m.end(), "++ from the last entry is not end()");
      --it; at--;  // stepping back from end must reach the last entry
    }
    PBT_CHECK(it != m.end() && it->first == pos[at]->first && it->second == pos[at]->second, "after %s the iterator is at the wrong entry (expected %s)", fwd ? "++" : "--", show(pos[at]->first).c_str());
    PBT_CHECK((it == mark) == (at == markat) && (it != mark) == (at != markat), "positions %ld and %ld of the map compare as %s", at, markat, it == mark ? "equal" : "different");
    if (j % 5 == 4) { mark = it; markat = at; }
    if (j % 7 == 3) { typename C::M::const_iterator ci = it; PBT_CHECK(ci == s.cm.find(pos[at]->first), "converted const_iterator differs"); }
  }
}
template <typename C> void p02() {
  Sim<C> s;
  long n = 0;
  bool walked = false, walked_empty = false;
  full_walks(s);
  while (n < 200 && src.more(14)) {
    s.step();
    full_walks(s);
    rand_walk(s);
    if (s.saw_split) walked = true;
    if (s.saw_split && s.ref.empty()) walked_empty = true;
    n++;
  }
  if (walked) pbt::label("walked a multi-leaf tree");
  if (walked_empty) pbt::label("walked a tree emptied by erasure");
  if (walked && s.saw_shrink) pbt::nontrivial();
}

// ---- P03 -----------------------------------------------------------------
template <typename C, typename Q> void bound_at(Sim<C> &s, const Q &q, const char *qs) {
  auto cmp = [&](bool upper, auto it, auto end, const char *what) {
    // first entry not less than q / first entry greater than q
    auto r = s.ref.begin();
    if constexpr (std::is_same_v<Q, typename C::K>) r = upper ? s.ref.upper_bound(q) : s.ref.lower_bound(q);
    else for (; r != s.ref.end(); ++r) if (upper ? q < r->first : !(r->first < q)) break;
    PBT_LOG("%s(%s)", what, qs);
    PBT_CHECK((it == end) == (r == s.ref.end()), "%s(%s) is %s end, expected %s", what, qs, it == end ? "at" : "not at", r == s.ref.end() ? "end" : show(r->first).c_str());
    if (r == s.ref.end()) return;
    PBT_CHECK(it->first == r->first && it->second == r->second, "%s(%s) is at %s, expected %s", what, qs, show(it->first).c_str(), show(r->first).c_str());
    // the returned position must be usable for a scan in both directions
    auto a = it; auto ra = r;
    for (int j = 0; j < 4; j++) {
      ++a; ++ra;
      PBT_CHECK((a == end) == (ra == s.ref.end()), "scan from %s(%s) ends wrongly", what, qs);
      if (ra == s.ref.end()) break;
      PBT_CHECK(a->first == ra->first, "scan from %s(%s) reached %s, expected %s", what, qs, show(a->first).c_str(), show(ra->first).c_str());
      PBT_CHECK(a != it && !(a == it), "the position %d entries after %s(%s) compares equal to it", j + 1, what, qs);
    }
    a = it; ra = r;
    for (int j = 0; j < 3 && ra != s.ref.begin(); j++) {
      --a; --ra;
      PBT_CHECK(a != it && !(a == it), "the position %d entries before %s(%s) compares equal to it", j + 1, what, qs);
      PBT_CHECK(a->first == ra->first, "backward scan from %s(%s) reached %s, expected %s", what, qs, show(a->first).c_str(), show(ra->first).c_str());
    }
  };
  cmp(false, s.m.lower_bound(q), s.m.end(), "lower_bound");
  // positions are equal exactly when nothing lies between them
  auto same = [&](auto a, auto b, bool want, const char *what) { PBT_CHECK((a == b) == want && (a != b) == !want && (b == a) == want, "%s(%s): the two positions compare as %s, they %s", what, qs, a == b ? "equal" : "different", want ? "are the same" : "differ"); };
  bool some = false; // an entry matching q
  if constexpr (std::is_same_v<Q, typename C::K>) some = s.ref.count(q) > 0;
  else for (auto r = s.ref.begin(); r != s.ref.end(); ++r) if (!(r->first < q)) { some = !(q < r->first); break; }
  same(s.m.lower_bound(q), s.m.upper_bound(q), !some, "lower_bound and upper_bound");
  same(s.cm.lower_bound(q), s.cm.upper_bound(q), !some, "const lower_bound and upper_bound");
  same(s.m.lower_bound(q), s.m.lower_bound(q), true, "lower_bound twice");
  if (!s.ref.empty()) {
    bool first = !(s.ref.begin()->first < q), firstu = q < s.ref.begin()->first;
    same(s.m.lower_bound(q), s.m.begin(), first, "lower_bound and begin");
    same(s.cm.upper_bound(q), s.cm.begin(), firstu, "const upper_bound and begin");
  }
  cmp(true, s.m.upper_bound(q), s.m.end(), "upper_bound");
  cmp(false, s.cm.lower_bound(q), s.cm.end(), "const lower_bound");
  cmp(true, s.cm.upper_bound(q), s.cm.end(), "const upper_bound");
}
template <typename C> void p03() {
  Sim<C> s;
  long n = 0, probes = 0;
  while (n < 200 && src.more(12)) {
    s.step();
    n++;
    for (int j = 0; j < 6; j++) {
      long i = s.idx();
      auto k = C::key(i);
      bound_at(s, k, show(k).c_str());
      probes++;
      if constexpr (std::is_same_v<C, CComp>) {
        compound_key<int> p1{std::get<0>(k)};
        bound_at(s, p1, (show(p1) + " (prefix)").c_str());
        compound_key<int, int> p2{std::get<0>(k), std::get<1>(k) + (int)src.below(3) - 1};
        bound_at(s, p2, (show(p2) + " (prefix)").c_str());
      } else if constexpr (std::is_same_v<C, CCompStr>) {
        compound_key<int> p1{std::get<0>(k) + (int)src.below(3) - 1};
        bound_at(s, p1, (show(p1) + " (prefix)").c_str());
      } else if constexpr (std::is_same_v<C, CIntLow>) {
        int64_t q = k + (int64_t)src.below(3) - 1;
        bound_at(s, q, show(q).c_str());
        int q32 = (int)src.range(-100, 100);
        bound_at(s, q32, show(q32).c_str());
      } else if constexpr (std::is_same_v<C, CInt>) {
        int q = k + (int)src.below(3) - 1;
        bound_at(s, q, show(q).c_str());
      }
    }
    if (!s.ref.empty()) {
      auto lo = s.ref.begin()->first, hi = s.ref.rbegin()->first;
      bound_at(s, lo, "smallest key");
      bound_at(s, hi, "largest key");
    }
  }
  if (s.saw_split) pbt::label("multi-leaf");
  if (s.saw_shrink) pbt::label("after erasures");
  if (s.saw_split && probes >= 12) pbt::nontrivial();
}

// ---- P04: lifetimes --------------------------------------------------------
template <typename C> void p04() {
  size_t lk = Tracked<0>::live().size(), lv = Tracked<1>::live().size();
  {
    auto s = std::make_unique<Sim<C>>();
    long n = 0;
    while (n < 300 && src.more(20)) {
      s->step();
      s->check_key(s->idx());
      n++;
      if constexpr (std::is_same_v<typename C::V, Tracked<1>>) {
        // every stored value is one live object; the model holds as many
        size_t v = Tracked<1>::live().size() - lv;
        PBT_CHECK(v == 2 * s->ref.size(), "%zu live values for %zu entries in the map (plus %zu in the reference)", v - s->ref.size(), s->ref.size(), s->ref.size());
      }
    }
    full_walks(*s);
    if (s->saw_split) pbt::label("split");
    if (s->saw_shrink) pbt::label("shrunk");
    if (s->saw_split && s->saw_shrink) pbt::nontrivial();
  }
  PBT_CHECK(Tracked<1>::live().size() == lv, "%zu values never destroyed", Tracked<1>::live().size() - lv);
  PBT_CHECK(Tracked<0>::live().size() == lk, "%zu keys never destroyed", Tracked<0>::live().size() - lk);
}

// ---- P05: shape --------------------------------------------------------------
struct Level { std::vector<std::vector<std::string>> nodes; };
// parse dump(): one text line per level, nodes "|k, k, k|, "
static std::vector<Level> parse_dump(const std::string &t) {
  std::vector<Level> ls;
  std::istringstream is(t);
  std::string line;
  while (std::getline(is, line)) {
    if (line.find('|') == std::string::npos) continue;
    Level l;
    size_t p = 0;
    while ((p = line.find('|', p)) != std::string::npos) {
      size_t e = line.find('|', p + 1);
      PBT_CHECK(e != std::string::npos, "dump: unbalanced node");
      std::string body = line.substr(p + 1, e - p - 1);
      std::vector<std::string> ks;
      size_t q = 0;
      while (q < body.size()) {
        size_t c = body.find(", ", q);
        if (c == std::string::npos) c = body.size();
        ks.push_back(body.substr(q, c - q));
        q = c + 2;
      }
      l.nodes.push_back(ks);
      p = e + 1;
    }
    ls.push_back(l);
  }
  return ls;
}
template <typename C> void p05() {
  Sim<C> s;
  long n = 0;
  bool grew_only = src.below(4) == 3;
  while (n < 120 && src.more(14)) {
    if (grew_only) { // insertions only: height must be logarithmic
      long a = s.idx(), b = s.idx();
      long k = 1 + b % 200;
      for (long j = 0; j < k; j++) s.set((a + j * (1 + b % 3)) % s.dom);
      s.check_size();
    } else s.step();
    n++;
    std::ostringstream o;
    s.cm.dump(o);
    auto ls = parse_dump(o.str());
    if (ls.empty()) { PBT_CHECK(s.ref.empty(), "dump shows no node for %zu entries", s.ref.size()); continue; }
    PBT_CHECK((int)ls.size() == s.m.height() + 1, "height() is %d but the tree has %zu levels", s.m.height(), ls.size());
    auto &st = s.m.stats();
    size_t leaves = ls.back().nodes.size(), inners = 0, empty_leaves = 0;
    for (size_t i = 0; i + 1 < ls.size(); i++) {
      size_t children = 0;
      for (auto &nd : ls[i].nodes) children += nd.size() + 1;
      PBT_CHECK(children == ls[i + 1].nodes.size(), "level %zu announces %zu children but level %zu has %zu nodes", i, children, i + 1, ls[i + 1].nodes.size());
      inners += ls[i].nodes.size();
    }
    PBT_CHECK(leaves == 1 + st.num_leaf_splits - st.num_leaf_merges, "%zu leaves, but statistics say 1 + %zu splits - %zu merges", leaves, (size_t)st.num_leaf_splits, (size_t)st.num_leaf_merges);
    PBT_CHECK(inners == s.m.height() + st.num_inner_splits - st.num_inner_merges, "%zu inner nodes, but height %d, %zu inner splits, %zu inner merges", inners, s.m.height(), (size_t)st.num_inner_splits, (size_t)st.num_inner_merges);
    // leaf level spells the entries in order
    std::vector<std::string> flat;
    for (auto &nd : ls.back().nodes) { if (nd.empty()) empty_leaves++; for (auto &k : nd) flat.push_back(k); }
    PBT_CHECK(flat.size() == s.ref.size(), "leaf level lists %zu keys, map has %zu", flat.size(), s.ref.size());
    size_t i = 0;
    for (auto &[k, v] : s.ref) { PBT_CHECK(flat[i] == show(k), "leaf level key %zu is %s expected %s", i, flat[i].c_str(), show(k).c_str()); i++; }
    // an emptied leaf is always absorbed by its left sibling; only the leading
    // leaf of a parent has none, and a parent merge can move it inside
    if (ls.size() > 1)
      PBT_CHECK(empty_leaves <= ls[ls.size() - 2].nodes.size() + st.num_inner_merges, "%zu empty leaves under %zu parents after %zu inner merges", empty_leaves, ls[ls.size() - 2].nodes.size(), (size_t)st.num_inner_merges);
    if (grew_only) {
      // every node was made by a split, so it is at least about half full
      double cap = 2; double maxh = std::log2((double)std::max<size_t>(2, s.ref.size())) / std::log2(cap) + 2;
      PBT_CHECK(s.m.height() <= maxh, "height %d for %zu entries inserted", s.m.height(), s.ref.size());
      PBT_CHECK(st.num_leaf_merges == 0 && empty_leaves == 0, "insertions alone merged or emptied leaves");
    }
  }
  if (s.saw_multi) pbt::label("three levels or more");
  if (s.saw_shrink) pbt::label("shrunk");
  if (s.saw_split && (s.saw_shrink || grew_only)) pbt::nontrivial();
}

static int hook = (pbt::case_begin_hook = [] { Tracked<0>::live().clear(); Tracked<1>::live().clear(); }, 0);
#define R(P, F, C, W, L) static pbt::Reg r_##F##_##C(P, #C, F<C>, W, L);
#ifdef P01
R("P01", p01, CInt, 20, false) R("P01", p01, CIntLow, 10, false) R("P01", p01, CIntNoMerge, 8, false) R("P01", p01, CIntAlways, 8, false)
R("P01", p01, CDefault, 4, false) R("P01", p01, CStr, 10, false) R("P01", p01, CStrRel, 6, false) R("P01", p01, CComp, 10, false) R("P01", p01, CCompStr, 6, false) R("P01", p01, CTracked, 6, false)
#endif
#ifdef P02
R("P02", p02, CInt, 20, false) R("P02", p02, CIntLow, 10, false) R("P02", p02, CIntNoMerge, 10, false) R("P02", p02, CIntAlways, 8, false)
R("P02", p02, CDefault, 2, false) R("P02", p02, CStr, 10, false) R("P02", p02, CComp, 8, false) R("P02", p02, CTracked, 6, false)
#endif
#ifdef P03
R("P03", p03, CInt, 16, false) R("P03", p03, CIntLow, 12, false) R("P03", p03, CIntNoMerge, 10, false) R("P03", p03, CDefault, 2, false)
R("P03", p03, CStr, 8, false) R("P03", p03, CComp, 20, false) R("P03", p03, CCompStr, 10, false)
#endif
#ifdef P04
R("P04", p04, CTracked, 20, true) R("P04", p04, CTrackedRel, 20, true) R("P04", p04, CTrackedV, 10, true) R("P04", p04, CStr, 12, true) R("P04", p04, CCompStr, 8, true) R("P04", p04, CInt, 8, true)
#endif
#ifdef P05
R("P05", p05, CInt, 20, false) R("P05", p05, CIntLow, 10, false) R("P05", p05, CIntAlways, 10, false) R("P05", p05, CStr, 10, false) R("P05", p05, CComp, 10, false) R("P05", p05, CDefault, 2, false)
#endif
