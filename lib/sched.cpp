// Deterministic simulation of threads: fibers, a replacement for the TSan
// runtime that turns every access into a switch point and checks it against a
// shadow of the heap, and optional TSO store buffers.  See sim.h.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <exception>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <ctime>
#include <vector>
#include <unistd.h>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
}

extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace sim {
Registry registry;
Opts opts;
void no_preempt(int);

// ---------------------------------------------------------------- heap
static constexpr size_t ARENA = size_t(1) << 32; // reserved, not committed
static constexpr size_t G = 16;
static char *arena, *arena_top;
static uint8_t *shadow; // per granule: 0 never used, 1 live, 2 freed, 3 red zone
struct Hdr { uint32_t granules; uint32_t tag; uint64_t size; };
static constexpr uint32_t TAG = 0xA110CA70;
struct FreeNode { FreeNode *next; };
static constexpr size_t NCLS = 8192;
static FreeNode *freelists[2][NCLS]; // [1]: aligned to 128
static FreeNode *quar_head, *quar_tail;
static size_t quar_bytes;
static bool reuse_now = false;
static size_t live_b = 0;
static bool heap_on = false;

static inline bool in_arena(const void *p) { return (size_t)((char *)p - arena) < ARENA && arena; }
static inline uint8_t *sh_of(const void *p) { return shadow + (((char *)p - arena) / G); }

static void heap_init() {
  shadow = (uint8_t *)mmap(nullptr, ARENA / G, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED || shadow == MAP_FAILED) abort();
  arena_top = arena + G;
}
static size_t cls_granules(size_t g) {
  if (g < NCLS / 2) return g;
  size_t p = NCLS / 2;
  while (p < g) p *= 2;
  return p;
}
static size_t cls_index(size_t g) { // g already rounded
  if (g < NCLS / 2) return g;
  size_t i = NCLS / 2;
  for (size_t p = NCLS / 2; p < g; p *= 2) i++;
  return i;
}
static void release_quarantine() {
  for (FreeNode *n = quar_head; n;) {
    FreeNode *nx = n->next;
    Hdr *h = (Hdr *)((char *)n - G);
    size_t c = cls_index(h->granules);
    n->next = freelists[h->tag & 1][c];
    freelists[h->tag & 1][c] = n;
    n = nx;
  }
  quar_head = quar_tail = nullptr;
  quar_bytes = 0;
}
// layout: [Hdr 16][payload g granules][red zone 16]
static void *heap_alloc(size_t size, size_t align) {
  if (UNLIKELY(!arena)) heap_init();
  if (align < G) align = G;
  size_t g = (size + G - 1) / G;
  if (!g) g = 1;
  if (align > 128) abort();
  int al = align > G;
  FreeNode **freelist = freelists[al];
  g = cls_granules(g);
  size_t c = cls_index(g);
  char *p;
  if (freelist[c]) {
    p = (char *)freelist[c];
    freelist[c] = freelist[c]->next;
  } else {
    char *t = arena_top + G;
    if (al) t = (char *)(((uintptr_t)t + 127) / 128 * 128);
    if (t + (g + 2) * G > arena + ARENA) { if (write(2, "arena full\n", 11)) {} abort(); }
    p = t;
    arena_top = t + (g + 1) * G;
    *sh_of(p - G) = 3;
    *sh_of(p + g * G) = 3;
  }
  Hdr *h = (Hdr *)(p - G);
  h->granules = (uint32_t)g; h->tag = TAG | al; h->size = size;
  size_t used = (size + G - 1) / G; if (!used) used = 1;
  memset(sh_of(p), 1, used);
  if (used < g) memset(sh_of(p) + used, 3, g - used);
  memset(p, 0xCD, used * G);
  live_b += size;
  return p;
}
static void flush_all(struct Fiber *);
struct Fiber;
static Fiber *curf;
static void heap_free(void *ptr, size_t sized = 0) {
  if (!ptr) return;
  if (!in_arena(ptr)) { free(ptr); return; }
  uint8_t *s = sh_of(ptr);
  Hdr *h = (Hdr *)((char *)ptr - G);
  if (*s == 2) pbt::fail("double free of %p", ptr);
  if ((h->tag & ~1u) != TAG || *s != 1) pbt::fail("free of %p, which is not the start of an allocation", ptr);
  if (sized && sized != h->size) pbt::fail("an object of %zu bytes is deleted as one of %zu bytes", (size_t)h->size, sized);
  live_b -= h->size;
  memset(s, 2, h->granules);
  memset(ptr, 0xDD, (h->size + G - 1) / G * G);
  FreeNode *n = (FreeNode *)ptr;
  if (reuse_now) {
    size_t c = cls_index(h->granules);
    n->next = freelists[h->tag & 1][c]; freelists[h->tag & 1][c] = n;
  } else {
    n->next = nullptr;
    if (quar_tail) quar_tail->next = n; else quar_head = n;
    quar_tail = n;
    quar_bytes += h->granules * G;
    if (quar_bytes > (512u << 20)) release_quarantine();
  }
}
size_t live_bytes() { return live_b; }

static bool checks_on = false; // shadow checks are made
__attribute__((noinline, noreturn)) static void bad_access(const void *p, size_t n, const char *what, uint8_t s) {
  checks_on = false;
  pbt::fail("%s of %zu bytes at %s memory", what, n, s == 2 ? "freed" : s == 3 ? "out-of-bounds (red zone)" : "unallocated");
}
static inline void check(const void *p, size_t n, const char *what) {
  if (LIKELY(in_arena(p)) && checks_on) {
    uint8_t *a = sh_of(p), *b = sh_of((char *)p + n - 1);
    if (UNLIKELY(*a != 1)) bad_access(p, n, what, *a);
    if (UNLIKELY(*b != 1)) bad_access(p, n, what, *b);
  }
}
static inline void check_range(const void *p, size_t n, const char *what) {
  if (!n || !checks_on || !in_arena(p)) return;
  for (uint8_t *a = sh_of(p), *b = sh_of((char *)p + n - 1); a <= b; a++)
    if (UNLIKELY(*a != 1)) bad_access(p, n, what, *a);
}

// ---------------------------------------------------------------- fibers
struct Pend { char *addr; unsigned size; uint64_t val; };
struct Fiber {
  int idx;
  int tid; // registry id
  void *sp = nullptr;
  char *stack = nullptr;
  std::function<void()> fn;
  enum St { READY, BLOCKED, DONE } st = READY;
  int *waits = nullptr;
  uint64_t eh[2] = {0, 0};
  std::vector<Pend> buf;
  int prio = 0;
  uint64_t parked_until = 0;
  int nopre = 0;
  int64_t pause_left = -1; // own steps until it stops; -1: not at all
  bool paused = false;     // goes on only when all others are done
};
static constexpr size_t STACK = 256 * 1024;
static std::vector<char *> stacks;
static std::vector<Fiber *> fibers;
static void *main_sp;
static uint64_t main_eh[2];
static int main_tid = -1;
static int64_t budget;    // accesses until the next scheduling decision
static int64_t slice;     // length of the running slice
static uint64_t steps_done;
static uint64_t clk;
static uint64_t nswitch;
static int nopre = 0, main_nopre = 0;
static bool tso_on = false;
static bool running = false;
static constexpr int64_t LONG = 4000;

enum Strat { SERIAL, RANDOM, PCT, STALL };
static int strat;
static uint64_t slice_max;
static int draws_left;
static std::vector<uint64_t> pct_points;
static size_t pct_next;
static int low_prio;

int self() { return curf ? curf->idx : -1; }
int thread_id() {
  int t = curf ? curf->tid : main_tid;
  if (t < 0) pbt::fail("harness: thread id used by an unregistered thread");
  return t;
}
void set_thread_id(int i) { if (curf) curf->tid = i; else main_tid = i; }
bool register_thread() {
  for (int i = 0; i < MAX_IDS; i++) if (!registry.used[i]) {
    registry.used[i] = true;
    if (curf) curf->tid = i; else main_tid = i;
    if (i > registry.max_id) registry.max_id = i;
    return true;
  }
  return false;
}
void unregister_thread() {
  int &t = curf ? curf->tid : main_tid;
  registry.used[t] = false; t = -1;
}
uint64_t switches() { return nswitch; }
void no_preempt(int d) { nopre += d; }

static inline uint64_t steps() { return steps_done + (uint64_t)(slice - budget); }
uint64_t now() { return ++clk; }

// ---- TSO buffers
static void apply(const Pend &p) {
  check(p.addr, p.size, "delayed store");
  memcpy(p.addr, &p.val, p.size);
}
static void flush_all(Fiber *f) {
  if (!f || f->buf.empty()) return;
  for (auto &p : f->buf) apply(p);
  f->buf.clear();
}
static void flush_some(Fiber *f, size_t n) {
  n = std::min(n, f->buf.size());
  for (size_t i = 0; i < n; i++) apply(f->buf[i]);
  f->buf.erase(f->buf.begin(), f->buf.begin() + n);
}
static bool overlaps(Fiber *f, const void *a, size_t n) {
  for (auto &p : f->buf) if (p.addr < (const char *)a + n && (const char *)a < p.addr + p.size) return true;
  return false;
}

static void switch_to(Fiber *to) {
  Fiber *from = curf;
  if (to == from) return;
  uint64_t *eg = (uint64_t *)__cxxabiv1::__cxa_get_globals();
  uint64_t *save = from ? from->eh : main_eh;
  save[0] = eg[0]; save[1] = eg[1] & 0xffffffffu;
  uint64_t *ld = to ? to->eh : main_eh;
  eg[0] = ld[0]; *(uint32_t *)&eg[1] = (uint32_t)ld[1];
  (from ? from->nopre : main_nopre) = nopre;
  nopre = to ? to->nopre : main_nopre;
  curf = to;
  nswitch++;
  sim_switch(from ? &from->sp : &main_sp, to ? to->sp : main_sp);
}

static uint64_t draw(uint64_t n) {
  if (draws_left <= 0) return 0;
  draws_left--;
  return pbt::src.below(n, 1);
}
static bool runnable(Fiber *f) {
  if (f->st == Fiber::BLOCKED && *f->waits == 0) f->st = Fiber::READY;
  return f->st == Fiber::READY;
}
static const char *pause_where = "";
static int *pause_gate;
static void set_slice(int64_t n) {
  steps_done += (uint64_t)(slice - budget);
  if (strat == PCT) {
    while (pct_next < pct_points.size() && pct_points[pct_next] <= steps_done) pct_next++;
    if (pct_next < pct_points.size()) n = std::min<int64_t>(n, pct_points[pct_next] - steps_done);
  }
  slice = budget = std::max<int64_t>(1, n);
}

// choose who runs next; `progress` false: the running fiber cannot usefully go on
static Fiber *pick(bool can_go_on, bool &sw);
static void resched(bool can_go_on) {
  nopre++; // code shared with instrumented objects must not re-enter
  bool sw = false;
  Fiber *to = pick(can_go_on, sw);
  nopre--;
  if (sw) switch_to(to);
}
static void on_pause(Fiber *f);
static Fiber *pick(bool can_go_on, bool &sw) {
  if (curf && curf->pause_left >= 0) {
    curf->pause_left -= slice - budget;
    if (curf->pause_left <= 0 && can_go_on) { on_pause(curf); can_go_on = false; }
    else if (curf->pause_left < 0) curf->pause_left = 0;
  }
  if (steps() > opts.max_steps) pbt::fail("no progress: %llu steps without finishing under a fair schedule", (unsigned long long)steps());
  Fiber *cand[MAX_IDS * 2]; int n = 0;
  int ci = curf ? curf->idx : -1;
  int nf = (int)fibers.size();
  uint64_t st = steps();
  for (int pass = 0; pass < 2 && n == 0; pass++)
    for (int k = 1; k <= nf; k++) {
      Fiber *f = fibers[(ci + k + nf) % nf];
      if (!runnable(f) || f->paused) continue;
      if (pass == 0 && f->parked_until > st) continue;
      if (f == curf && !can_go_on) continue;
      cand[n++] = f;
    }
  if (n == 0) {
    Fiber *asleep = nullptr; bool rest = true;
    for (auto *f : fibers) if (f->paused) asleep = f; else if (f->st != Fiber::DONE) rest = false;
    if (asleep && rest) { // everybody else is done: it may go on
      asleep->paused = false;
      set_slice(LONG); sw = asleep != curf;
      return asleep;
    }
    if (asleep && !(curf && !curf->paused && runnable(curf))) pbt::fail("a thread that paused %s keeps the others from finishing: they wait for a lock", pause_where);
    if (can_go_on && curf && curf->st == Fiber::READY) { set_slice(LONG); return curf; }
    bool spin = curf && runnable(curf);
    if (spin) { set_slice(LONG); return curf; }
    bool done = true;
    for (auto *f : fibers) if (f->st != Fiber::DONE) done = false;
    if (done) { steps_done = st; slice = budget = 1; sw = true; return nullptr; }
    pbt::fail("deadlock: every unfinished thread waits for a lock");
  }
  // drain some delayed stores of a random thread
  if (tso_on)
    for (auto *f : fibers) if (!f->buf.empty()) {
      uint64_t r = draw(4);
      if (r == 0) flush_all(f);
      else if (r == 1) flush_some(f, 1 + draw(f->buf.size()));
    }
  Fiber *to = nullptr; int64_t len = LONG;
  switch (strat) {
  case SERIAL:
    to = cand[0];
    break;
  case RANDOM: {
    to = cand[draw(n)];
    if (draws_left > 0 && draw(8) != 0) len = 1 + (int64_t)draw(slice_max);
    break;
  }
  case PCT: {
    bool at_point = pct_next < pct_points.size() && pct_points[pct_next] <= st;
    if (curf && (at_point || !can_go_on || budget <= 0)) curf->prio = --low_prio; // also fairness
    to = cand[0];
    for (int i = 1; i < n; i++) if (cand[i]->prio > to->prio) to = cand[i];
    break;
  }
  case STALL: {
    // park the running thread for a long time at a random point
    if (curf && can_go_on && draws_left > 0 && n > 1 && draw(3) != 0) {
      curf->parked_until = st + LONG * (1 + draw(64));
      int m = 0;
      for (int i = 0; i < n; i++) if (cand[i] != curf) cand[m++] = cand[i];
      n = m;
    }
    to = cand[draw(n)];
    if (draws_left > 0) len = 1 + (int64_t)draw(slice_max);
    break;
  }
  }
  if (to->pause_left >= 0) len = std::max<int64_t>(1, std::min<int64_t>(len, to->pause_left));
  set_slice(len);
  sw = to != curf;
  return to;
}

static void on_pause(Fiber *f) {
  flush_all(f);
  f->paused = true; f->pause_left = -1;
  if (pause_gate) *pause_gate = 0;
}
void pause_within(int64_t n, const char *where, int *gate) {
  if (!curf) return;
  pause_where = where; pause_gate = gate;
  set_slice(LONG);
  curf->pause_left = n;
  resched(true); // takes the limit into account
}
bool pause_over() {
  if (!curf) return false;
  bool was = curf->pause_left < 0;
  curf->pause_left = -1;
  return was;
}

static void fiber_main() {
  Fiber *f = curf;
  try { f->fn(); }
  catch (const std::exception &e) { pbt::fail("unexpected exception in a simulated thread: %s", e.what()); }
  catch (...) { pbt::fail("unexpected exception in a simulated thread"); }
  flush_all(f);
  f->st = Fiber::DONE;
  resched(false);
  abort();
}

void spawn(std::function<void()> fn) {
  Fiber *f = new Fiber;
  f->idx = (int)fibers.size();
  f->tid = -1;
  f->fn = std::move(fn);
  if (stacks.size() <= fibers.size()) {
    char *s = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(s, 4096, PROT_NONE);
    stacks.push_back(s + 4096);
  }
  f->stack = stacks[fibers.size()];
  uint64_t *top = (uint64_t *)(f->stack + STACK);
  *--top = 0;                    // return address of fiber_main
  *--top = (uint64_t)fiber_main; // popped by ret
  for (int i = 0; i < 6; i++) *--top = 0;
  f->sp = top;
  fibers.push_back(f);
}

void run() {
  if (fibers.empty()) return;
  static const uint64_t SL[] = {2, 6, 20, 60, 200, 1000};
  strat = (int)pbt::src.below(4, 1);
  slice_max = SL[pbt::src.below(6, 1)];
  draws_left = 6000;
  tso_on = opts.tso && pbt::src.below(4, 1) == 3;
  reuse_now = opts.reuse && pbt::src.below(6, 1) == 5;
  if (reuse_now) release_quarantine();
  pct_points.clear(); pct_next = 0; low_prio = 0;
  if (strat == PCT) {
    uint64_t d = 1 + pbt::src.below(6, 1);
    uint64_t span = 64ull << pbt::src.below(10, 1);
    for (uint64_t i = 0; i < d; i++) pct_points.push_back(1 + pbt::src.below(span, 1));
    std::sort(pct_points.begin(), pct_points.end());
    for (auto *f : fibers) f->prio = 1 + (int)pbt::src.below(1000, 1);
    low_prio = 0;
  }
  PBT_LOG("schedule: %s slice<=%llu tso=%d reuse=%d", strat == SERIAL ? "serial" : strat == RANDOM ? "random" : strat == PCT ? "priority" : "stall",
          (unsigned long long)slice_max, tso_on, reuse_now);
  running = true;
  steps_done = 0; slice = budget = 1;
  curf = nullptr;
  resched(false);
  running = false;
  curf = nullptr;
  for (auto *f : fibers) delete f;
  fibers.clear();
  tso_on = false; reuse_now = false;
}
static inline void point(int w = 1) {
  if (UNLIKELY((budget -= w) <= 0)) {
    if (curf && !nopre) resched(true);
    else if (!curf) { slice = budget = 1 << 30; }
  }
}
void yield() { if (curf && !nopre) { flush_all(curf); resched(false); } }
void spin_hint() { yield(); }

bool mutex_try_lock(int *m) {
  point(1);
  check(m, 4, "lock");
  if (curf) flush_all(curf);
  if (*m) return false;
  *m = 1;
  return true;
}
void mutex_lock(int *m) {
  point(1);
  if (curf) flush_all(curf);
  for (;;) {
    check(m, 4, "lock");
    if (!*m) { *m = 1; return; }
    if (!curf) pbt::fail("deadlock: a thread locks a mutex that is already locked and nobody else can unlock");
    curf->st = Fiber::BLOCKED; curf->waits = m;
    resched(false);
  }
}
void mutex_unlock(int *m) {
  point(1);
  check(m, 4, "unlock");
  if (curf) flush_all(curf);
  if (!*m) pbt::fail("unlock of a mutex that is not locked");
  *m = 0;
  point(1);
}

void reset() {
  for (auto *f : fibers) delete f;
  fibers.clear();
  curf = nullptr; main_tid = -1;
  registry = Registry{};
  clk = 0; nswitch = 0; nopre = main_nopre = 0; steps_done = 0; slice = budget = 1 << 30;
  tso_on = reuse_now = false; running = false;
  release_quarantine();
  checks_on = true;
}
static size_t hb() { return live_b; }
static struct Init { Init() { pbt::case_begin_hook = reset; pbt::heap_bytes = hb; } } init;

// ---- atomics
template <typename T> static T a_load(const volatile T *a, int) {
  point();
  check((void *)a, sizeof(T), "atomic load");
  if (UNLIKELY(tso_on) && curf && !curf->buf.empty()) {
    for (size_t i = curf->buf.size(); i-- > 0;)
      if (curf->buf[i].addr == (char *)a && curf->buf[i].size == sizeof(T)) { T v; memcpy(&v, &curf->buf[i].val, sizeof(T)); return v; }
    if (overlaps(curf, (void *)a, sizeof(T))) flush_all(curf);
  }
  return *a;
}
template <typename T> static void a_store(volatile T *a, T v, int mo) {
  point();
  check((void *)a, sizeof(T), "atomic store");
  if (tso_on && curf) {
    if (mo != 5 && sizeof(T) <= 8) {
      Pend p; p.addr = (char *)a; p.size = sizeof(T); p.val = 0; memcpy(&p.val, &v, sizeof(T) < 8 ? sizeof(T) : 8);
      if (curf->buf.size() >= 8) flush_some(curf, 1);
      curf->buf.push_back(p);
      return;
    }
    flush_all(curf);
  }
  *a = v;
  if (mo == 5) point();
}
template <typename T> static void rmw_pre(volatile T *a) {
  point();
  check((void *)a, sizeof(T), "atomic update");
  if (tso_on && curf) flush_all(curf);
}
} // namespace sim

using namespace sim;
static inline void plain(void *a, size_t n, const char *w) {
  point();
  check(a, n, w);
  if (UNLIKELY(tso_on) && curf && !curf->buf.empty() && overlaps(curf, a, n)) flush_all(curf);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **a, void *v) { (void)v; plain(a, 8, "write"); }
void __tsan_vptr_read(void **a) { plain(a, 8, "read"); }
#define RW(n)                                                                  \
  void __tsan_read##n(void *a) { plain(a, n, "read"); }                        \
  void __tsan_write##n(void *a) { plain(a, n, "write"); }                      \
  void __tsan_unaligned_read##n(void *a) { plain(a, n, "read"); }              \
  void __tsan_unaligned_write##n(void *a) { plain(a, n, "write"); }            \
  void __tsan_volatile_read##n(void *a) { plain(a, n, "read"); }               \
  void __tsan_volatile_write##n(void *a) { plain(a, n, "write"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { point(); check_range(a, n, "read"); }
void __tsan_write_range(void *a, unsigned long n) { point(); check_range(a, n, "write"); }

#define AT(bits, T)                                                            \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { return a_load<T>(a, mo); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { a_store<T>(a, v, mo); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { rmw_pre(a); T o = *a; *a = v; point(); return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { rmw_pre(a); T o = *a; *a = o + v; point(); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { rmw_pre(a); T o = *a; *a = o - v; point(); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { rmw_pre(a); T o = *a; *a = o & v; point(); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { rmw_pre(a); T o = *a; *a = o | v; point(); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { rmw_pre(a); T o = *a; *a = o ^ v; point(); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { rmw_pre(a); T o = *a; *a = ~(o & v); point(); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
    rmw_pre(a); T o = *a; if (o == *c) { *a = v; point(); return 1; } *c = o; point(); return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { \
    rmw_pre(a); T o = *a; if (o == *c) { *a = v; point(); return 1; } *c = o; point(); return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { \
    rmw_pre(a); T o = *a; if (o == c) *a = v; point(); return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { point(); if (mo == 5 && tso_on && curf) flush_all(curf); }
void __tsan_atomic_signal_fence(int) {}

int nanosleep(const struct timespec *, struct timespec *) { if (curf) sim::yield(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { if (curf) sim::yield(); return 0; }
int sched_yield() { if (curf) sim::yield(); return 0; }

// std::mutex and friends, used from a simulated thread
int pthread_mutex_lock(pthread_mutex_t *m) { if (curf) mutex_lock((int *)m); else *(int *)m = 1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (curf) return mutex_try_lock((int *)m) ? 0 : EBUSY;
  if (*(int *)m) return EBUSY;
  *(int *)m = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { if (curf) mutex_unlock((int *)m); else *(int *)m = 0; return 0; }

// the harness objects' calls are renamed to these
void *sim_memcpy(void *d, const void *s, size_t n) { if (n) { point(); check_range(d, n, "write (memcpy)"); check_range(s, n, "read (memcpy)"); } return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { if (n) { point(); check_range(d, n, "write (memmove)"); check_range(s, n, "read (memmove)"); } return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (n) { point(); check_range(d, n, "write (memset)"); } return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { if (n) { point(); check_range(a, n, "read (memcmp)"); check_range(b, n, "read (memcmp)"); } return memcmp(a, b, n); }
}

void *operator new(size_t n) { return heap_alloc(n, 16); }
void *operator new[](size_t n) { return heap_alloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return heap_alloc(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return heap_alloc(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return heap_alloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return heap_alloc(n, 16); }
void operator delete(void *p) noexcept { if (tso_on) flush_all(curf); heap_free(p); }
void operator delete[](void *p) noexcept { if (tso_on) flush_all(curf); heap_free(p); }
void operator delete(void *p, size_t n) noexcept { if (tso_on) flush_all(curf); heap_free(p, n); }
void operator delete[](void *p, size_t n) noexcept { if (tso_on) flush_all(curf); heap_free(p, n); }
void operator delete(void *p, std::align_val_t) noexcept { if (tso_on) flush_all(curf); heap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { if (tso_on) flush_all(curf); heap_free(p); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { if (tso_on) flush_all(curf); heap_free(p, n); }
void operator delete[](void *p, size_t n, std::align_val_t) noexcept { if (tso_on) flush_all(curf); heap_free(p, n); }
