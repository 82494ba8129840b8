// Stand-in for the absent submodule external/synchronization-primitives.
#pragma once
#include "sim.h"
namespace sync_prim::mutex {
class Mutex {
  int word = 0;

public:
  Mutex() = default;
  Mutex(const Mutex &) = delete;
  Mutex &operator=(const Mutex &) = delete;
#ifdef PBT_SCHED
  void lock() { sim::mutex_lock(&word); }
  bool try_lock() { return sim::mutex_try_lock(&word); }
  void unlock() { sim::mutex_unlock(&word); }
#else
  void lock() {
    if (word) pbt::fail("deadlock: a thread locks a mutex that is already locked and nobody else can unlock");
    word = 1;
  }
  bool try_lock() { if (word) return false; word = 1; return true; }
  void unlock() {
    if (!word) pbt::fail("unlock of a mutex that is not locked");
    word = 0;
  }
#endif
  bool is_locked() const { return word != 0; }
};
} // namespace sync_prim::mutex
