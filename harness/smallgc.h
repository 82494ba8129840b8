#pragma once
// The maps' epoch managers get a reclamation threshold chosen per case, so that
// retired objects really are reclaimed while other threads work (the default
// of 1000 per thread is never reached in a short run).
#include "indexes/utils/EpochManager.h"
#include "../lib/pbt.h"
#include "../lib/sim.h"
inline int gc_threshold = 1000;
inline int draw_gc_threshold() {
  static const int T[] = {1000, 1, 2, 3, 5, 1};
  int t = T[pbt::src.below(6)];
  PBT_LOG("reclaims from %d retired objects per thread on", t);
  sim::idle_threads();
  return gc_threshold = t;
}
namespace indexes::utils {
template <class E, class T, int N = 1000> struct EpochManagerUT : EpochManager<E, T, N> {
  EpochManagerUT() { this->set_reclamation_threshold(gc_threshold); }
};
} // namespace indexes::utils
#define EpochManager EpochManagerUT
