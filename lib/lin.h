// Linearizability checker for maps: operations on one key are an independent
// object, so a history is linearizable iff each key's sub-history is.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace lin {
enum Kind { INSERT, UPSERT, UPDATE, DELETE_, SEARCH };
inline const char *kname(int k) {
  static const char *N[] = {"insert", "upsert", "update", "delete", "search"};
  return N[k];
}
struct Op {
  int thr = -1, kind = 0;
  long key = 0;
  long arg = 0;       // value written
  bool has = false;   // INSERT: success; others: a value was returned
  long res = 0;       // value returned
  uint64_t inv = 0, ret = 0; // 0: not executed
};
inline std::string show(const Op &o) {
  char b[200];
  if (o.kind == INSERT) snprintf(b, sizeof b, "[%llu,%llu] T%d insert(%ld,%ld) = %s", (unsigned long long)o.inv, (unsigned long long)o.ret, o.thr, o.key, o.arg, o.has ? "true" : "false");
  else {
    char r[40]; if (o.has) snprintf(r, sizeof r, "%ld", o.res); else snprintf(r, sizeof r, "none");
    if (o.kind == UPSERT || o.kind == UPDATE) snprintf(b, sizeof b, "[%llu,%llu] T%d %s(%ld,%ld) = %s", (unsigned long long)o.inv, (unsigned long long)o.ret, o.thr, kname(o.kind), o.key, o.arg, r);
    else snprintf(b, sizeof b, "[%llu,%llu] T%d %s(%ld) = %s", (unsigned long long)o.inv, (unsigned long long)o.ret, o.thr, kname(o.kind), o.key, r);
  }
  return b;
}
using St = std::optional<long>;
// apply o to s; false if its result does not fit
inline bool step(const Op &o, St &s) {
  switch (o.kind) {
  case INSERT:
    if (o.has == s.has_value()) return false;
    if (o.has) s = o.arg;
    return true;
  default:
    if (o.has != s.has_value() || (o.has && *s != o.res)) return false;
    if (o.kind == UPSERT) s = o.arg;
    else if (o.kind == UPDATE) { if (s) s = o.arg; }
    else if (o.kind == DELETE_) s.reset();
    return true;
  }
}
struct KeyCheck {
  std::vector<Op> h;
  std::set<std::pair<std::vector<bool>, St>> seen;
  std::vector<bool> done;
  size_t left;
  uint64_t budget = 2000000;
  bool dfs(St s) {
    if (!left) return true;
    if (!budget) return true; // give up silently (never seen at these sizes)
    budget--;
    if (!seen.insert({done, s}).second) return false;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < h.size(); i++) if (!done[i]) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) {
      if (done[i] || h[i].inv > minret) continue;
      St t = s;
      if (!step(h[i], t)) continue;
      done[i] = true; left--;
      bool ok = dfs(t);
      done[i] = false; left++;
      if (ok) return true;
    }
    return false;
  }
};
// every op must have completed; fails the case if no order explains the results
inline void check(std::vector<Op> all, const char *what) {
  std::sort(all.begin(), all.end(), [](const Op &a, const Op &b) { return a.key != b.key ? a.key < b.key : a.inv < b.inv; });
  for (size_t i = 0; i < all.size();) {
    size_t j = i;
    KeyCheck c;
    while (j < all.size() && all[j].key == all[i].key) { if (all[j].inv) c.h.push_back(all[j]); j++; }
    // consume the sequential prefix quickly
    St s;
    size_t k = 0;
    while (k < c.h.size() && (k + 1 == c.h.size() || c.h[k].ret < c.h[k + 1].inv)) {
      bool alone = true;
      for (size_t m = k + 1; m < c.h.size(); m++) if (c.h[m].inv < c.h[k].ret) alone = false;
      if (!alone) break;
      St t = s;
      if (!step(c.h[k], t)) break;
      s = t; k++;
    }
    c.h.erase(c.h.begin(), c.h.begin() + k);
    c.done.assign(c.h.size(), false);
    c.left = c.h.size();
    if (!c.dfs(s)) {
      std::string t;
      for (size_t m = i; m < j; m++) if (all[m].inv) t += "\n  " + show(all[m]);
      pbt::fail("%s: no sequential order explains the operations on key %ld:%s", what, all[i].key, t.c_str());
    }
    i = j;
  }
}
} // namespace lin
