// A value type that counts its live objects and detects use of storage that
// holds no constructed object, double destruction and the like.
#pragma once
#include "../lib/pbt.h"
#include <functional>
#include <ostream>
#include <unordered_set>

template <int Tag> struct Tracked {
  static std::unordered_set<const void *> &live() {
    static std::unordered_set<const void *> s;
    return s;
  }
  static const char *name() { return Tag == 0 ? "key" : "value"; }
  long id;
  long check;
  void born() {
    check = ~id;
    if (!live().insert(this).second)
      pbt::fail("%s constructed over a live %s object", name(), name());
  }
  void must_live(const char *what) const {
    if (!live().count(this) || check != ~id)
      pbt::fail("%s of a %s that was never constructed or already destroyed", what, name());
  }
  Tracked() : id(0) { born(); }
  Tracked(long i) : id(i) { born(); }
  Tracked(const Tracked &o) {
    o.must_live("copy");
    id = o.id;
    born();
  }
  Tracked &operator=(const Tracked &o) {
    o.must_live("copy");
    must_live("assignment");
    id = o.id;
    check = ~id;
    return *this;
  }
  ~Tracked() {
    must_live("destruction");
    live().erase(this);
    check = 0x5a5a5a;
  }
  friend bool operator<(const Tracked &a, const Tracked &b) {
    a.must_live("comparison");
    b.must_live("comparison");
    return a.id < b.id;
  }
  friend bool operator==(const Tracked &a, const Tracked &b) {
    a.must_live("comparison");
    b.must_live("comparison");
    return a.id == b.id;
  }
  friend bool operator!=(const Tracked &a, const Tracked &b) { return !(a == b); }
  friend std::ostream &operator<<(std::ostream &o, const Tracked &a) { return o << a.id; }
};
namespace std {
template <int T> struct hash<Tracked<T>> {
  size_t operator()(const Tracked<T> &k) const { return k.id; }
};
}
