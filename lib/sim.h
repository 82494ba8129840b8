// Simulated threads.  In "sched" builds (‑DPBT_SCHED) every thread is a fiber
// on one OS thread and every memory access of the code under test (instrumented
// with -fsanitize=thread, whose runtime is replaced by lib/sched.cpp) is a
// possible switch point decided by choice stream 1.  In other builds there is
// one real thread, and a logical thread id that a harness may set.
#pragma once
#include "pbt.h"
#include <functional>

namespace sim {
#ifndef SIM_MAX_IDS
#define SIM_MAX_IDS 16
#endif
static constexpr int MAX_IDS = SIM_MAX_IDS;

// thread registry state (ids handed out lowest-first, like the original)
struct Registry {
  bool used[MAX_IDS];
  int max_id;
};
extern Registry registry;
int thread_id();          // id of the running (simulated) thread
void set_thread_id(int);  // only for the running thread
bool register_thread();
void unregister_thread();
void reset();             // start of a case

uint64_t now();  // logical time: strictly increases
// sometimes other registered threads exist that do nothing, so that later ones
// get other ids than the lowest
inline void idle_threads() {
  if (pbt::src.below(4) != 3) return;
  int n = 7;
  for (int i = MAX_IDS > 16 ? 1 + (int)pbt::src.below(MAX_IDS - 15) : 1; i < MAX_IDS && n > 0; i++) if (!registry.used[i] && pbt::src.below(2)) {
    registry.used[i] = true; n--;
    if (i > registry.max_id) registry.max_id = i;
    PBT_LOG("id %d belongs to an idle thread", i);
  }
}
// registers a logical thread when lower ids may be taken by threads of no interest
inline int register_above() {
  int i = 1 + (int)pbt::src.below(MAX_IDS - 1);
  while (i < MAX_IDS && registry.used[i]) i++;
  if (i >= MAX_IDS) { register_thread(); return thread_id(); }
  registry.used[i] = true;
  if (i > registry.max_id) registry.max_id = i;
  set_thread_id(i);
  return i;
}
#ifdef PBT_SCHED
void spawn(std::function<void()> fn); // before run()
void run();                           // all spawned threads to completion
int self();                           // -1 outside a simulated thread
bool mutex_try_lock(int *m);
void mutex_lock(int *m);
void mutex_unlock(int *m);
void yield();
void spin_hint();
// The running thread stops within its next n+1 steps and goes on only when all
// others are done; if they cannot finish, that is a failure.  A gate (a locked
// mutex word) is opened when it stops.  pause_over(): it did stop.
void pause_within(int64_t n, const char *where, int *gate = nullptr);
bool pause_over();
struct Opts {
  bool tso = true;       // cases may delay non-seq_cst atomic stores
  bool reuse = true;     // cases may hand freed memory straight back
  uint64_t max_steps = 30000000;
};
extern Opts opts;
size_t live_bytes();
uint64_t switches(); // context switches in this case
void no_preempt(int d); // nesting +1/-1
#endif
} // namespace sim
