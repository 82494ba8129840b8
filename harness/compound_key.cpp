// P06: compound key comparisons against lexicographic sequence comparison.
#include "../lib/pbt.h"
#include "indexes/btree/key.h"
#include <algorithm>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
using namespace indexes::btree;
using pbt::src;

// reference: a key is a sequence of elements, each an order-preserving code
using Ref = std::vector<std::string>;

template <typename T> T gen(Ref &r) {
  if constexpr (std::is_same_v<T, std::string>) {
    std::string s(src.below(4), 'a');
    for (auto &c : s) c = "ab\0\xff"[src.below(4)];
    r.push_back(s);
    return s;
  } else if constexpr (std::is_same_v<T, bool>) {
    bool b = src.below(2);
    r.push_back(std::string(1, b ? '\1' : '\0'));
    return b;
  } else {
    T v;
    switch (src.below(5)) {
    case 0: case 1: v = (T)src.range(0, 2); break;
    case 2: v = std::is_signed_v<T> ? (T)src.range(-2, 0) : (T)src.range(0, 3); break;
    case 3: { T e[] = {std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)(std::numeric_limits<T>::max() - 1)}; v = e[src.below(3)]; break; }
    default: v = (T)src.u64(); break;
    }
    // order-preserving big-endian code of the mathematical value (sign bit flipped)
    uint64_t u = std::is_signed_v<T> ? (uint64_t)(int64_t)v ^ (1ull << 63) : (uint64_t)v ^ 0;
    if (!std::is_signed_v<T>) u = (uint64_t)v; // unsigned shapes are only compared with unsigned
    std::string s(8, 0);
    for (int i = 0; i < 8; i++) s[i] = (char)(u >> (56 - 8 * i));
    r.push_back(s);
    return v;
  }
}
static int refcmp(const Ref &a, const Ref &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    int c = a[i].compare(b[i]);
    if (c) return c < 0 ? -1 : 1;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
template <typename... T> compound_key<T...> mk(Ref &r) {
  std::tuple<T...> t{gen<T>(r)...}; // braces: left to right
  return std::apply([](auto &... e) { return compound_key<T...>{e...}; }, t);
}
static std::string show(const Ref &r) {
  std::string o = "(";
  for (auto &e : r) { for (unsigned char c : e) { char b[4]; snprintf(b, 4, "%02x", c); o += b; } o += ","; }
  return o + ")";
}
template <typename A, typename B> void cmp(const A &a, const Ref &ra, const B &b, const Ref &rb) {
  int c = refcmp(ra, rb);
  PBT_LOG("compare %s %s -> %d", show(ra).c_str(), show(rb).c_str(), c);
  PBT_CHECK((a < b) == (c < 0), "< is wrong for %s %s", show(ra).c_str(), show(rb).c_str());
  PBT_CHECK((a > b) == (c > 0), "> is wrong for %s %s", show(ra).c_str(), show(rb).c_str());
  PBT_CHECK((a <= b) == (c <= 0), "<= is wrong for %s %s", show(ra).c_str(), show(rb).c_str());
  PBT_CHECK((a >= b) == (c >= 0), ">= is wrong for %s %s", show(ra).c_str(), show(rb).c_str());
  PBT_CHECK((a == b) == (c == 0), "== is wrong for %s %s", show(ra).c_str(), show(rb).c_str());
  PBT_CHECK((a != b) == (c != 0), "!= is wrong for %s %s", show(ra).c_str(), show(rb).c_str());
}
template <typename F> struct Pair;
template <typename A, typename B> void two(A mka, B mkb) {
  for (int k = 0; k < 6; k++) {
    Ref ra, rb;
    auto a = mka(ra);
    auto b = mkb(rb);
    cmp(a, ra, b, rb);
    cmp(b, rb, a, ra);
    cmp(a, ra, a, ra);
    auto copy = a;
    cmp(copy, ra, a, ra);
    int c = refcmp(ra, rb);
    size_t n = std::min(ra.size(), rb.size()), pre = 0;
    while (pre < n && ra[pre] == rb[pre]) pre++;
    if (c == 0) pbt::label("equal keys");
    else if (pre == n) pbt::label("proper prefix");
    else if (pre > 0) pbt::label("differ after a common element");
    else pbt::label("differ in the first element");
    if (pre > 0) pbt::nontrivial();
  }
}
template <typename K> void order(K mk1) {
  // sorting by < yields the reference order; strict weak order on a set
  std::vector<std::pair<decltype(mk1(std::declval<Ref &>())), Ref>> v;
  int n = 3 + (int)src.below(20);
  for (int i = 0; i < n; i++) { Ref r; auto k = mk1(r); v.emplace_back(k, r); }
  std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
  for (int i = 0; i + 1 < n; i++) PBT_CHECK(refcmp(v[i].second, v[i + 1].second) <= 0, "sorting by < is not the lexicographic order");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) cmp(v[i].first, v[i].second, v[j].first, v[j].second);
  pbt::nontrivial();
}
#define MK(...) [](Ref &r) { return mk<__VA_ARGS__>(r); }
using S = std::string;
static pbt::Reg a1("P06", "int3-int3", [] { two(MK(int, int, int), MK(int, int, int)); });
static pbt::Reg a2("P06", "int3-int1", [] { two(MK(int, int, int), MK(int)); });
static pbt::Reg a3("P06", "int3-int2", [] { two(MK(int, int, int), MK(int, int)); });
static pbt::Reg a4("P06", "int2-int1", [] { two(MK(int, int), MK(int)); });
static pbt::Reg a5("P06", "strint-str", [] { two(MK(S, int), MK(S)); });
static pbt::Reg a6("P06", "intstr-int", [] { two(MK(int, S), MK(int)); });
static pbt::Reg a7("P06", "mixed-width", [] { two(MK(int, int64_t, int), MK(int64_t, int)); });
static pbt::Reg a8("P06", "u8u64-u8u64", [] { two(MK(uint8_t, uint64_t), MK(uint8_t, uint64_t)); });
static pbt::Reg a9("P06", "five", [] { two(MK(bool, int8_t, S, int, int16_t), MK(bool, int8_t, S, int, int16_t)); });
static pbt::Reg a10("P06", "five-three", [] { two(MK(bool, int8_t, S, int, int16_t), MK(bool, int8_t, S)); });
static pbt::Reg a11("P06", "strstr", [] { two(MK(S, S), MK(S, S)); });
static pbt::Reg a12("P06", "sort-int2", [] { order(MK(int, int)); });
static pbt::Reg a13("P06", "sort-mixed", [] { order(MK(S, int8_t, int64_t)); });
static pbt::Reg a14("P06", "one", [] { two(MK(int), MK(int)); });
