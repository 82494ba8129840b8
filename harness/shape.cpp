// P29: the shape of a radix tree depends on its contents only.
#include <limits>
#include <deque>
#define ART_DUMP_ENABLED
#include "smallgc.h"
#include "indexes/art/map.h"
#include "indexes/art/concurrent_map.h"
#include "../lib/pbt.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
using pbt::src;
using TR = indexes::utils::ThreadRegistry;
namespace art = indexes::art;

namespace {
using Ref = std::map<uint64_t, long>;
// byte at a depth of the tree: the first is the lowest one
int byte_at(uint64_t k, int d) { return (int)(k >> (8 * d) & 0xff); }
struct Keys {
  int mode = (int)src.below(4), p = (int)src.below(8), q = (int)src.below(8);
  uint64_t base = src.below(2) ? 0x0807060504030201ull : 0;
  std::vector<uint64_t> pool;
  uint64_t put(uint64_t k, int pos, uint64_t v) { return (k & ~(0xffull << (8 * pos))) | (v & 0xff) << (8 * pos); }
  uint64_t fresh() {
    switch (mode) {
    case 0: return put(base, p, src.below(256));                                       // one wide node
    case 1: return put(put(base, p, src.below(256)), q, src.below(4) * 60);             // wide nodes below or above others
    case 2: { uint64_t k = 0; for (int b = 0; b < 8; b++) k |= src.below(src.below(4) == 3 ? 256 : 3) << (8 * b); return k; }
    default: return pool.empty() ? src.u64() : put(pool[src.below(pool.size())], (int)src.below(8), src.below(20));
    }
  }
  uint64_t any(int old) {
    if (!pool.empty() && src.chance(old)) return pool[src.below(pool.size())];
    uint64_t k = src.below(40) == 39 ? (src.below(2) ? 0 : ~0ull) : fresh();
    pool.push_back(k);
    return k;
  }
};
// ---- the listing
struct Node { bool leaf = false; std::string prefix; int len = 0; std::string key, value; std::vector<std::pair<int, std::string>> kids; };
std::string hex(uint64_t k) { char b[20]; snprintf(b, sizeof b, "%016llX", (unsigned long long)k); return b; }
struct Listing {
  std::vector<std::pair<std::string, Node>> nodes; // in the order listed
  std::map<std::string, size_t> at;
  std::vector<std::set<std::string>> levels;
  // open_end: the concurrent map may put a separator after the last child
  Listing(const std::string &t, bool open_end) {
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
      std::set<std::string> here;
      size_t i = 0;
      auto want = [&](const std::string &s) { PBT_CHECK(line.compare(i, s.size(), s) == 0, "the listing is malformed at column %zu of: %s", i, line.c_str()); i += s.size(); };
      auto upto = [&](const char *stop) { size_t j = line.find_first_of(stop, i); PBT_CHECK(j != std::string::npos, "the listing is cut off: %s", line.c_str()); std::string r = line.substr(i, j - i); i = j; return r; };
      while (i < line.size()) {
        Node n;
        std::string id = upto("=");
        want("=|"); n.prefix = upto(","); want(", "); n.len = atoi(upto(" ").c_str()); want(" ");
        if (line[i] == '{') { n.leaf = true; want("{"); n.key = upto(","); want(", "); n.value = upto("}"); want("}|"); }
        else if (open_end && line[i] == '|') i++;
        else { for (;;) { want("["); std::string b = upto(","); want(", "); std::string p = upto("]"); want("]"); n.kids.push_back({(int)strtol(b.c_str(), nullptr, 16), p}); if (line[i] == '|') { i++; break; } want(", "); if (open_end && line[i] == '|') { i++; break; } } }
        want(", ");
        PBT_CHECK(at.emplace(id, nodes.size()).second, "the listing shows node %s twice", id.c_str());
        here.insert(id);
        nodes.push_back({id, n});
      }
      if (!here.empty()) levels.push_back(here);
    }
  }
};
// compares the subtree of `id` with the trie of the keys [b, e) that share their first `depth` bytes
using KV = std::vector<std::pair<uint64_t, long>>; // sorted by bytes from the lowest
// The map lists how many bytes a node adds, the concurrent map where they end.
size_t against(const Listing &l, const std::string &id, const KV &kv, size_t b, size_t e, int depth, size_t level, bool ends) {
  PBT_CHECK(l.at.count(id), "the listing refers to node %s, which it does not show", id.c_str());
  const Node &n = l.nodes[l.at.at(id)].second;
  PBT_CHECK(level < l.levels.size() && l.levels[level].count(id), "node %s is not listed on level %zu", id.c_str(), level);
  if (e - b == 1) {
    PBT_CHECK(n.leaf, "key %s is alone below its prefix of %d bytes, but has an inner node of %zu children there", hex(kv[b].first).c_str(), depth, n.kids.size());
    PBT_CHECK(n.key == hex(kv[b].first) && n.value == std::to_string(kv[b].second), "the leaf listed for key %s = %ld is %s = %s", hex(kv[b].first).c_str(), kv[b].second, n.key.c_str(), n.value.c_str());
    PBT_CHECK(n.len == (ends ? 8 : 8 - depth), "the leaf of key %s at depth %d has a rest of %d bytes", n.key.c_str(), depth, n.len);
    return 1;
  }
  int split = depth;
  while (byte_at(kv[b].first, split) == byte_at(kv[e - 1].first, split)) split++;
  PBT_CHECK(!n.leaf, "%zu keys share their first %d bytes, the listing has a leaf there", e - b, split);
  PBT_CHECK(n.len == (ends ? split : split - depth), "the node at depth %d compresses %d bytes, its keys share %d", depth, n.len, split - depth);
  uint64_t pk = strtoull(n.prefix.c_str(), nullptr, 16);
  for (int d = depth; d < split; d++) PBT_CHECK(byte_at(pk, d) == byte_at(kv[b].first, d), "the prefix of a node at depth %d is shown as %s, its first key is %s", depth, n.prefix.c_str(), hex(kv[b].first).c_str());
  size_t k = 0, total = 1;
  for (size_t i = b; i < e; k++) {
    size_t j = i;
    while (j < e && byte_at(kv[j].first, split) == byte_at(kv[i].first, split)) j++;
    PBT_CHECK(k < n.kids.size() && n.kids[k].first == byte_at(kv[i].first, split), "child %zu of a node at depth %d is for byte %02X, expected %02X", k, split, k < n.kids.size() ? n.kids[k].first : -1, byte_at(kv[i].first, split));
    total += against(l, n.kids[k].second, kv, i, j, split, level + 1, ends);
    i = j;
  }
  PBT_CHECK(k == n.kids.size(), "a node at depth %d has %zu children, its keys need %zu", split, n.kids.size(), k);
  return total;
}
template <typename M, bool Plain> void listing(const M &m, const Ref &ref) {
  std::ostringstream o;
  m.dump(o);
  Listing l(o.str(), !Plain);
  KV kv(ref.begin(), ref.end());
  std::sort(kv.begin(), kv.end(), [](auto &a, auto &b) { return __builtin_bswap64(a.first) < __builtin_bswap64(b.first); });
  size_t n = 0;
  if (kv.size()) { PBT_CHECK(l.levels.size() && l.levels[0].size() == 1, "the listing shows %zu roots", l.levels.empty() ? 0 : l.levels[0].size()); n = against(l, *l.levels[0].begin(), kv, 0, kv.size(), 0, 0, !Plain); }
  PBT_CHECK(n == l.nodes.size(), "the listing shows %zu nodes, the keys need %zu", l.nodes.size(), n);
}
#ifndef PBT_SCHED
// bytes a tree with these entries holds
template <typename M, bool Plain> size_t fresh_bytes(const Ref &ref) {
  std::vector<std::pair<uint64_t, long>> kv(ref.begin(), ref.end());
  for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[src.below(i)]);
  M m;
  size_t before = pbt::heap_bytes();
  for (auto &[k, v] : kv) m.Insert(k, v);
  if constexpr (!Plain) m.reclaim_all();
  return pbt::heap_bytes() - before;
}
// the block tables of the retire lists may differ
template <typename M, bool Plain> void compare(int64_t held, const Ref &ref, const char *when) {
  int64_t f = (int64_t)fresh_bytes<M, Plain>(ref), slack = Plain ? 0 : 512;
  PBT_CHECK(held <= f + slack && f <= held + slack, "%s the tree holds %lld bytes for its %zu entries, one newly filled with them %lld", when, (long long)held, ref.size(), (long long)f);
}
template <typename M, bool Plain> void seq() {
  TR::RegisterThread();
  draw_gc_threshold();
  if (!pbt::heap_bytes) pbt::fail("harness: heap bytes unknown");
  Keys keys; Ref ref;
  auto m = std::make_unique<M>();
  size_t peak = 0; pbt::Values nextv;
  int64_t held = 0; // bytes held by the tree, summed over its operations
  auto op = [&](auto f) { size_t a = pbt::heap_bytes(); f(); held += (int64_t)pbt::heap_bytes() - (int64_t)a; };
  uint64_t len = src.below(4) == 0 ? 400 : 60; int bias = 60;
  while (src.more(len)) {
    if (src.below(50) == 49) bias = (int)src.below(101);
    if (src.chance(bias)) {
      uint64_t k = keys.any(25); long v = nextv++; bool up = src.below(3) == 2;
      PBT_LOG("%s %s", up ? "upsert" : "insert", hex(k).c_str());
      bool had = ref.count(k);
      op([&] { if (up) m->Upsert(k, v); else m->Insert(k, v); if constexpr (!Plain) m->reclaim_all(); });
      if (up || !had) ref[k] = v;
    } else {
      uint64_t k = keys.any(90);
      if (src.below(3) == 2 && !ref.empty()) { auto it = ref.lower_bound(k); if (it == ref.end()) it = ref.begin(); k = it->first; }
      PBT_LOG("delete %s", hex(k).c_str());
      op([&] { m->Delete(k); if constexpr (!Plain) m->reclaim_all(); });
      ref.erase(k);
    }
    peak = std::max(peak, ref.size());
    if (src.below(12) == 11) {
      listing<M, Plain>(*m, ref);
      compare<M, Plain>(held, ref, "in between");
    }
  }
  listing<M, Plain>(*m, ref);
  compare<M, Plain>(held, ref, "finally");
  m.reset();
  if (peak > 4 && ref.size() < peak && ref.size() > 1) pbt::nontrivial();
  if (peak > 4) pbt::label("more than 4 entries");
  if (peak > 16) pbt::label("more than 16 entries");
  if (peak > 48) pbt::label("more than 48 entries");
}
pbt::Reg r1("P29", "map", seq<art::map<long>, true>, 10, true), r2("P29", "concurrent", seq<art::concurrent_map<long>, false>, 6, true);
#else
// a listing of any trie that holds exactly these entries (concurrent removals
// may leave nodes with one child or none behind)
size_t sound(const Listing &l, const std::string &id, uint64_t path, int depth, size_t level, const Ref &ref, std::set<uint64_t> &seen) {
  PBT_CHECK(l.at.count(id), "the listing refers to node %s, which it does not show", id.c_str());
  const Node &n = l.nodes[l.at.at(id)].second;
  PBT_CHECK(level < l.levels.size() && l.levels[level].count(id), "node %s is not listed on level %zu", id.c_str(), level);
  uint64_t pk = strtoull((n.leaf ? n.key : n.prefix).c_str(), nullptr, 16);
  for (int d = 0; d < depth && n.leaf; d++) PBT_CHECK(byte_at(pk, d) == byte_at(path, d), "the leaf of key %s lies below the path of %s at depth %d", n.key.c_str(), hex(path).c_str(), depth);
  if (n.leaf) {
    PBT_CHECK(n.len == 8, "the leaf of key %s ends after %d bytes", n.key.c_str(), n.len);
    auto it = ref.find(pk);
    PBT_CHECK(it != ref.end() && std::to_string(it->second) == n.value, "the listing has %s = %s, a lookup finds %s", n.key.c_str(), n.value.c_str(), it == ref.end() ? "nothing" : std::to_string(it->second).c_str());
    PBT_CHECK(seen.insert(pk).second, "key %s is listed twice", n.key.c_str());
    return 1;
  }
  PBT_CHECK(n.len >= depth && n.len < 8, "a node at depth %d branches after %d bytes", depth, n.len);
  uint64_t mask = n.len ? ~0ull >> (64 - 8 * n.len) : 0, below = depth ? ~0ull >> (64 - 8 * depth) : 0;
  path = (path & below) | (pk & mask & ~below);
  size_t total = 1; int last = -1;
  for (auto &[b, kid] : n.kids) {
    PBT_CHECK(b > last, "the children of a node at depth %d are out of order", depth);
    last = b;
    uint64_t p = (path & mask) | (uint64_t)b << (8 * n.len);
    total += sound(l, kid, p, n.len + 1, level + 1, ref, seen);
  }
  return total;
}
template <typename M> void any_listing(const M &m, const Ref &ref) {
  std::ostringstream o;
  m.dump(o);
  if (pbt::verbose) PBT_LOG("%s", o.str().c_str());
  Listing l(o.str(), true);
  std::set<uint64_t> seen;
  size_t n = 0;
  if (l.levels.size()) { PBT_CHECK(l.levels[0].size() == 1, "the listing shows %zu roots", l.levels[0].size()); n = sound(l, *l.levels[0].begin(), 0, 0, 0, ref, seen); }
  PBT_CHECK(n == l.nodes.size(), "the listing shows %zu nodes, %zu can be reached", l.nodes.size(), n);
  PBT_CHECK(seen.size() == ref.size(), "the listing shows %zu entries, lookups find %zu", seen.size(), ref.size());
}
// after threads
void threads() {
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  draw_gc_threshold();
  using M = art::concurrent_map<long>;
  auto m = std::make_unique<M>();
  Keys keys;
  static const int PRE[] = {0, 1, 2, 4, 5, 10, 16, 18, 48, 52};
  int pre = PRE[src.below(src.below(3) == 2 ? 10 : 6)];
  for (int i = 0; i < pre; i++) m->Insert(keys.any(5), 1);
  int waves = 1 + (int)src.below(2);
  bool muts = false, sw = false; size_t left = 0;
  for (int w = 0; w < waves; w++) {
    int nt = 2 + (int)src.below(3);
    std::vector<uint64_t> hot;
    for (int i = 1 + (int)src.below(6); i > 0; i--) hot.push_back(keys.any(60));
    std::vector<std::vector<std::pair<int, uint64_t>>> prog(nt);
    for (auto &p : prog) {
      int mode = (int)src.below(3); // both, insertions, removals
      while (src.more(5) && p.size() < 14) { p.push_back({mode ? mode - 1 : (int)src.below(3), src.below(4) ? hot[src.below(hot.size())] : keys.any(60)}); muts = true; }
    }
    if (pbt::verbose) for (int t = 0; t < nt; t++) { std::string s; static const char *N[] = {"insert", "delete", "upsert"}; for (auto &o : prog[t]) s += std::string(N[o.first]) + "(" + hex(o.second) + ") "; PBT_LOG("thread %d: %s", t, s.c_str()); }
    for (int t = 0; t < nt; t++) sim::spawn([&, t] {
      TR::RegisterThread();
      for (auto &o : prog[t]) switch (o.first) {
      case 0: m->Insert(o.second, t + 10); break;
      case 1: m->Delete(o.second); break;
      default: m->Upsert(o.second, t + 20);
      }
      TR::UnregisterThread();
    });
    sim::run();
    if (sim::switches() > 6) sw = true;
    Ref ref;
    for (uint64_t k : keys.pool) if (auto v = m->Search(k)) ref[k] = *v;
    PBT_CHECK(m->size() == ref.size(), "size is %zu after the threads ended, %zu entries are there", m->size(), ref.size());
    any_listing(*m, ref);
    left = ref.size();
  }
  if (muts && sw && left > 1) pbt::nontrivial();
  if (left > 4) pbt::label("more than 4 entries");
  if (left > 16) pbt::label("more than 16 entries");
}
pbt::Reg r1("P29", "threads", threads, 10);
#endif
} // namespace
