#include "sim.h"
namespace sim {
Registry registry;
static int cur = -1;
static uint64_t clk = 0;
int thread_id() {
  if (cur < 0) pbt::fail("harness: thread id used by an unregistered thread");
  return cur;
}
void set_thread_id(int i) { cur = i; }
bool register_thread() {
  for (int i = 0; i < MAX_IDS; i++) if (!registry.used[i]) {
    registry.used[i] = true; cur = i;
    if (i > registry.max_id) registry.max_id = i;
    return true;
  }
  return false;
}
void unregister_thread() { registry.used[cur] = false; cur = -1; }
uint64_t now() { return ++clk; }
void reset() { registry = Registry{}; registry.max_id = 0; cur = -1; clk = 0; }
static void begin() { reset(); }
static struct Init { Init() { pbt::case_begin_hook = begin; } } init;
}
