// Small property-based testing engine used by every check in /verif.
//
// A case is a pure function of two recorded choice streams (stream 0: inputs
// and operations, stream 1: schedule).  The streams come from a PRNG seeded by
// (VERIF_SEED, property, sub-check, case number), are recorded in shared
// memory while the case runs (so they survive a crash of the code under test),
// and a failing case is shrunk by editing the streams and re-running it in a
// forked child until no edit keeps it failing.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

#if defined(__clang__)
#define PBT_NOINSTR __attribute__((no_sanitize("thread"), disable_sanitizer_instrumentation))
#else
#define PBT_NOINSTR __attribute__((no_sanitize("thread")))
#endif

namespace pbt {

struct Src {
  // draw a value in [0, n)
  uint64_t below(uint64_t n, int stream = 0);
  // inclusive range
  int64_t range(int64_t lo, int64_t hi, int stream = 0) {
    return lo + static_cast<int64_t>(
                    below(static_cast<uint64_t>(hi - lo) + 1, stream));
  }
  uint64_t u64(int stream = 0);
  bool chance(int percent, int stream = 0) {
    // 0 must be the "simple" value, so the event is the high end
    return below(100, stream) >= static_cast<uint64_t>(100 - percent);
  }
  // keep drawing operations; geometric with the given mean, shrinks to stop
  bool more(uint64_t mean) { return below(mean + 1) != 0; }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
};

extern Src src;      // the current case's choices
extern bool verbose; // true when a case is replayed for its readable trace

[[noreturn]] void fail(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const char *name, uint64_t n = 1); // classification counter
void nontrivial();                            // this case meets the rule
#define PBT_LOG(...)                                                           \
  do {                                                                         \
    if (pbt::verbose)                                                          \
      pbt::log(__VA_ARGS__);                                                   \
  } while (0)
#define PBT_CHECK(cond, ...)                                                   \
  do {                                                                         \
    if (!(cond))                                                               \
      pbt::fail(__VA_ARGS__);                                                  \
  } while (0)

struct Sub {
  const char *property;
  const char *name;
  std::function<void()> fn;
  int weight;      // relative number of cases
  bool leak_check; // compare live heap bytes before/after (ASan builds only)
};
std::vector<Sub> &subs();
struct Reg {
  Reg(const char *prop, const char *name, std::function<void()> fn,
      int weight = 10, bool leak = false) {
    subs().push_back({prop, name, fn, weight, leak});
  }
};

// Probes: fixed histories that demonstrate a recorded finding (or pin a
// repaired one).  Run first; a probe that fails is reported as KNOWN-FINDING
// if listed in known_findings.json, as a violation otherwise.
struct Probe {
  const char *property;
  const char *name;
  std::function<void()> fn;
};
std::vector<Probe> &probes();
struct RegProbe {
  RegProbe(const char *prop, const char *name, std::function<void()> fn) {
    probes().push_back({prop, name, fn});
  }
};

// hook run at the start of every case (scheduler reset and the like)
extern void (*case_begin_hook)();
// bytes currently allocated (set by the runtime in use); used by leak checks
extern size_t (*heap_bytes)();

inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
// The values a case stores: mostly each a new one (so that answers tell the
// operations apart), in some cases few ones again and again, or extreme ones.
struct Values {
  long n = 1;
  int mode;
  Values() : mode((int)src.below(8)) {}
  long operator++(int) {
    static const long E[] = {0, -1, 1, 2147483647, -2147483647 - 1, 255, 256, -128};
    long i = n++;
    return mode == 7 ? i % 3 : mode == 6 ? E[mix((uint64_t)i) % 8] : i;
  }
  long operator++() { return (*this)++; }
};
} // namespace pbt
