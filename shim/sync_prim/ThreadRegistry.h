// Stand-in for the absent submodule external/synchronization-primitives.
#pragma once
#include "sim.h"
namespace sync_prim {
struct ThreadRegistry {
  static constexpr int MAX_THREADS = sim::MAX_IDS;
  static bool RegisterThread() { return sim::register_thread(); }
  static void UnregisterThread() { sim::unregister_thread(); }
  static int ThreadID() { return sim::thread_id(); }
  static int MaxThreadID() { return sim::registry.max_id; }
};
} // namespace sync_prim
