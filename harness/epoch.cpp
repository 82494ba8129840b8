// P19: epoch protection (simulated threads).  P20: reclamation exactly once and complete
// (PBT_SCHED: simulated threads; otherwise several logical threads at call granularity).
#include "indexes/utils/EpochManager.h"
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include <memory>
using pbt::src;
using TR = indexes::utils::ThreadRegistry;

namespace {
struct Obj { long id; long magic; };
struct Model {
  // per object
  struct O { int owner = -1; uint64_t retire_call = 0, retired = 0, reclaimed = 0; Obj *p = nullptr; long tag = 0; };
  std::vector<O> objs;
  // per thread
  uint64_t inside_since[sim::MAX_IDS] = {}; // 0: outside
  int nest[sim::MAX_IDS] = {};
  std::vector<int> pending[sim::MAX_IDS]; // retired, unreclaimed, in order
  uint64_t nreclaimed = 0;
  bool entered_after_retire_inside = false;
};
Model *M;
void on_reclaim(Obj *o, long tag) {
  PBT_CHECK(o->magic == 0x0b1ec7, "reclaimer called with a pointer that is not a retired object");
  Model::O &m = M->objs[o->id];
  PBT_CHECK(m.p == o, "reclaimer called with a pointer that is not a retired object");
  PBT_CHECK(m.retire_call, "object %ld reclaimed but never retired", o->id);
  PBT_CHECK(!m.reclaimed, "object %ld reclaimed twice", o->id);
  PBT_CHECK(m.tag == tag, "object %ld passed to another object's reclaimer", o->id);
  m.reclaimed = sim::now();
#ifndef P20
  for (int t = 0; t < sim::MAX_IDS; t++)
    PBT_CHECK(!(M->inside_since[t] && M->inside_since[t] < m.retire_call),
              "object %ld, retired at time %llu, reclaimed at %llu while thread %d is inside a section it entered at %llu", o->id,
              (unsigned long long)m.retire_call, (unsigned long long)m.reclaimed, t, (unsigned long long)M->inside_since[t]);
#endif
  auto &pd = M->pending[m.owner];
  PBT_CHECK(!pd.empty() && pd.front() == o->id, "thread %d's objects reclaimed out of retirement order: object %ld, expected %d", m.owner, o->id, pd.empty() ? -1 : pd.front());
  pd.erase(pd.begin());
  M->nreclaimed++;
}

#ifdef PBT_SCHED
struct SOp { int kind; int arg; };
enum { ENTER, EXIT, RETIRE_NEW, RETIRE_CUR, RETIRE_SPAN, RECLAIM, HOLD, SWITCH };

template <typename epoch_t, int THR> void case_sched() {
  using EMgr = indexes::utils::EpochManager<epoch_t, Obj, THR>;
  Model model; M = &model;
  sim::opts.tso = true; sim::opts.reuse = false;
  int nt = 2 + src.below(3);
  std::vector<std::vector<SOp>> prog(nt);
  int nobj = 0;
  static const int W[] = {ENTER, ENTER, EXIT, EXIT, RETIRE_NEW, RETIRE_NEW, RETIRE_CUR, RETIRE_SPAN, RECLAIM, RECLAIM, HOLD, HOLD, SWITCH};
  for (auto &p : prog) {
    while (src.more(7) && p.size() < 30) {
      int k = W[src.below(13)];
      p.push_back({k, (int)src.below(4)});
      if (k == RETIRE_NEW || k == RETIRE_CUR) nobj++;
      if (k == RETIRE_SPAN) nobj += p.back().arg;
    }
  }
  model.objs.resize(nobj);
  std::vector<Obj> store(nobj);
  for (auto &p : model.pending) p.reserve(nobj + 1);
  for (int i = 0; i < nobj; i++) { store[i] = {i, 0x0b1ec7}; model.objs[i].p = &store[i]; }
  
  int main_reg = src.below(2);
  if (main_reg) TR::RegisterThread();
  sim::idle_threads();
  auto mgr = std::make_unique<EMgr>();
  bool interesting = false;
  int next_obj = 0;
  // real use: a shared slot whose object readers dereference (freed for real)
  struct Node { long a, b; };
  std::atomic<Node *> slot{new Node{1, ~1L}};
  if (pbt::verbose) for (int t = 0; t < nt; t++) {
    std::string s;
    static const char *N[] = {"enter", "exit", "retire_new", "retire_cur", "retire_span", "reclaim", "hold", "switch"};
    for (auto &o : prog[t]) s += std::string(N[o.kind]) + (o.kind == RETIRE_SPAN ? std::to_string(o.arg) : "") + " ";
    PBT_LOG("thread %d: %s", t, s.c_str());
  }
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      TR::RegisterThread();
      int id = TR::ThreadID();
      auto reclaim_with = [&](long tag) { return [tag](Obj *o) { sim::no_preempt(1); on_reclaim(o, tag); sim::no_preempt(-1); }; };
      for (auto &o : prog[t]) {
        switch (o.kind) {
        case ENTER:
          mgr->enter_epoch();
          if (model.nest[id]++ == 0) model.inside_since[id] = sim::now();
          break;
        case EXIT:
          if (model.nest[id] == 0) break;
          if (--model.nest[id] == 0) model.inside_since[id] = 0;
          mgr->exit_epoch();
          break;
        case RETIRE_NEW: case RETIRE_CUR: {
          sim::no_preempt(1);
          int i = next_obj++;
          model.objs[i].owner = id; model.objs[i].tag = i * 7; model.objs[i].retire_call = sim::now();
          model.pending[id].push_back(i);
          for (int u = 0; u < sim::MAX_IDS; u++) if (u != id && model.inside_since[u]) interesting = true;
          sim::no_preempt(-1);
          if (o.kind == RETIRE_NEW) mgr->retire_in_new_epoch(reclaim_with(i * 7), &store[i]);
          else mgr->retire_in_current_epoch(reclaim_with(i * 7), &store[i]);
          model.objs[i].retired = sim::now();
          break;
        }
        case RETIRE_SPAN: {
          sim::no_preempt(1);
          std::vector<Obj *> ps;
          int base = next_obj;
          for (int k = 0; k < o.arg; k++) {
            int i = next_obj++;
            model.objs[i].owner = id; model.objs[i].tag = base * 7 + 1; model.objs[i].retire_call = sim::now();
            model.pending[id].push_back(i);
            ps.push_back(&store[i]);
          }
          sim::no_preempt(-1);
          gsl::span<Obj *> sp{ps.data(), ps.size()};
          mgr->retire_in_new_epoch(reclaim_with(base * 7 + 1), sp);
          break;
        }
        case RECLAIM: {
          size_t left = mgr->do_reclaim();
          PBT_CHECK(left == model.pending[id].size(), "reclaim reports %zu objects left, %zu are", left, model.pending[id].size());
          break;
        }
        case HOLD: {
          // read the shared node inside a section and, sometimes, replace it
          mgr->enter_epoch();
          if (model.nest[id]++ == 0) model.inside_since[id] = sim::now();
          Node *n = slot.load();
          long a = n->a;
          PBT_CHECK(n->b == ~a, "a node read inside a protected section was reclaimed and overwritten");
          if (--model.nest[id] == 0) model.inside_since[id] = 0;
          mgr->exit_epoch();
          break;
        }
        case SWITCH: mgr->switch_epoch(); break;
        }
      }
      while (model.nest[id] > 0) {
        if (--model.nest[id] == 0) model.inside_since[id] = 0;
        mgr->exit_epoch();
      }
      TR::UnregisterThread();
    });
  sim::run();
  if (!main_reg) TR::RegisterThread();
  mgr->reclaim_all();
  for (int i = 0; i < next_obj; i++)
    PBT_CHECK(model.objs[i].reclaimed, "object %d was retired but is not reclaimed by a full reclaim although nobody is inside", i);
  delete slot.load();
  mgr.reset();
  if (interesting && sim::switches() > 4) pbt::nontrivial();
  if (interesting) pbt::label("retired while another thread inside");
  if (model.nreclaimed) pbt::label("cases with reclamation");
}

// The protocol as the maps use it: readers load a shared pointer inside a
// section, writers swap it and retire the old node; shadow memory is the oracle.
void case_use() {
  struct Node { long a, b; };
  using EMgr = indexes::utils::EpochManager<uint64_t, Node, 2>;
  sim::opts.tso = true; sim::opts.reuse = true;
  int nt = 2 + src.below(3);
  TR::RegisterThread();
  sim::idle_threads();
  auto mgr = std::make_unique<EMgr>();
  mgr->set_reclamation_threshold(1 + src.below(3));
  std::atomic<Node *> slot{new Node{1, ~1L}};
  std::vector<std::vector<int>> prog(nt);
  bool rd = false, wr = false;
  for (auto &p : prog) while (src.more(4) && p.size() < 12) { p.push_back(src.below(6)); (p.back() < 3 ? rd : wr) = true; }
  if (pbt::verbose) for (auto &p : prog) { std::string s; for (int k : p) s += std::to_string(k) + " "; PBT_LOG("program %s(0-2 read, 3 nested read, 4-5 replace)", s.c_str()); }
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      TR::RegisterThread();
      long c = 100 * (t + 1);
      for (int k : prog[t]) {
        mgr->enter_epoch();
        if (k < 4) {
          if (k == 3) mgr->enter_epoch();
          Node *n = slot.load();
          if (k == 3) mgr->exit_epoch();
          long a = n->a;
          for (int i = 0; i < k * 3; i++) a = n->a;
          PBT_CHECK(n->b == ~a, "a node read inside a protected section was overwritten");
        } else {
          Node *fresh = new Node{c, ~c};
          c++;
          Node *old = slot.exchange(fresh);
          mgr->retire_in_new_epoch([](Node *n) { n->a = 0; n->b = 0; delete n; }, old);
        }
        mgr->exit_epoch();
        if (k == 5) mgr->do_reclaim();
      }
      TR::UnregisterThread();
    });
  sim::run();
  mgr->reclaim_all();
  delete slot.load();
  if (rd && wr && sim::switches() > 4) pbt::nontrivial();
}
#ifdef P19
pbt::Reg r1("P19", "protect_u64", case_sched<uint64_t, 2>, 10), r2("P19", "protect_int", case_sched<int, 1000>, 5), r3("P19", "shared_node", case_use, 10, true);
#endif
#ifdef P20
pbt::Reg r1("P20", "exactly_once_threads", case_sched<uint64_t, 3>, 10, true);
#endif
#else // ---------------------------------------------------- call granularity
template <typename epoch_t, int THR> void case_seq() {
  using EMgr = indexes::utils::EpochManager<epoch_t, Obj, THR>;
  auto model = std::make_unique<Model>(); M = model.get();
  const int CAP = src.below(30) ? 400 : 4000;
  std::vector<Obj> store(CAP);
  model->objs.resize(CAP);
  for (int i = 0; i < CAP; i++) { store[i] = {i, 0x0b1ec7}; model->objs[i].p = &store[i]; }
  auto mgr = std::make_unique<EMgr>();
  int nt = 1 + src.below(5);
  std::vector<int> ids;
  sim::idle_threads();
  bool sparse = src.below(4) == 3;
  for (int i = 0; i < nt; i++) { if (sparse) sim::register_above(); else TR::RegisterThread(); ids.push_back(TR::ThreadID()); }
  int thr = THR;
  int nobj = 0;
  bool blocked = false, autor = false;
  PBT_CHECK(mgr->get_reclamation_threshold(0) == THR, "initial threshold is %d, declared %d", mgr->get_reclamation_threshold(0), THR);
  // epochs are only compared: each object remembers when it was retired and
  // whether that advanced the epoch
  std::vector<uint64_t> epoch_of(CAP);
  uint64_t ep = 0; // advanced as the manager is told to
  uint64_t announced[sim::MAX_IDS];
  for (auto &a : announced) a = ~0ull;
  auto must_be_gone = [&](int t, const char *when) {
    uint64_t mn = ~0ull;
    for (int u : ids) mn = std::min(mn, announced[u]);
    for (int i : model->pending[t]) {
      if (epoch_of[i] >= mn) { blocked = true; break; }
      pbt::fail("%s left object %d, retired in an epoch every thread inside has moved past", when, i);
    }
  };
  while (src.more(60)) {
    int t = ids[src.below(nt)];
    sim::set_thread_id(t);
    switch (src.below(CAP > 400 ? 12 : 10)) {
    case 10: { // many sections inside each other
      int k = 1 + (int)src.below(400);
      PBT_LOG("T%d enter %d times", t, k);
      for (int i = 0; i < k; i++) mgr->enter_epoch();
      if (model->nest[t] == 0) { model->inside_since[t] = sim::now(); announced[t] = ep; }
      model->nest[t] += k;
      PBT_CHECK((uint64_t)mgr->my_epoch() == announced[t], "my_epoch is %llu, the thread entered in epoch %llu", (unsigned long long)mgr->my_epoch(), (unsigned long long)announced[t]);
      break;
    }
    case 11: { // many epochs, or many sections left
      int k = 1 + (int)src.below(400);
      if (src.below(2)) {
        k *= 200; PBT_LOG("%d new epochs", k);
        for (int i = 0; i < k; i++) mgr->switch_epoch();
        ep += k;
        PBT_CHECK((uint64_t)mgr->now() == ep, "current epoch is %llu, expected %llu", (unsigned long long)mgr->now(), (unsigned long long)ep);
      } else {
        k = std::min(k, model->nest[t]);
        PBT_LOG("T%d exit %d times", t, k);
        if (k && !(model->nest[t] -= k)) { model->inside_since[t] = 0; announced[t] = ~0ull; }
        for (int i = 0; i < k; i++) mgr->exit_epoch();
      }
      break;
    }
    case 0: case 1:
      PBT_LOG("T%d enter", t);
      mgr->enter_epoch();
      if (model->nest[t]++ == 0) { model->inside_since[t] = sim::now(); announced[t] = ep; }
      PBT_CHECK((uint64_t)mgr->my_epoch() == announced[t], "my_epoch is %llu, the thread entered in epoch %llu", (unsigned long long)mgr->my_epoch(), (unsigned long long)announced[t]);
      break;
    case 2: case 3:
      if (!model->nest[t]) break;
      PBT_LOG("T%d exit", t);
      if (--model->nest[t] == 0) { model->inside_since[t] = 0; announced[t] = ~0ull; }
      mgr->exit_epoch();
      break;
    case 4: case 5: {
      if (nobj >= CAP - 8) break;
      bool nw = src.below(2) == 0;
      int n = src.below(4) == 0 ? src.below(5) : 1;
      if (CAP > 400 && src.below(4) == 3) n = (int)src.below(std::min(1500, CAP - nobj));
      bool span = n != 1 || src.below(2);
      std::vector<Obj *> ps;
      long tag = nobj * 3;
      for (int k = 0; k < n; k++) {
        int i = nobj++;
        model->objs[i].owner = t; model->objs[i].tag = tag; model->objs[i].retire_call = sim::now();
        epoch_of[i] = ep;
        model->pending[t].push_back(i);
        ps.push_back(&store[i]);
      }
      if (nw) ep++;
      PBT_LOG("T%d retire %d %s", t, n, nw ? "new" : "cur");
      auto r = [tag](Obj *o) { on_reclaim(o, tag); };
      uint64_t before = model->nreclaimed;
      if (span) {
        gsl::span<Obj *> sp{ps.data(), ps.size()};
        if (nw) mgr->retire_in_new_epoch(r, sp); else mgr->retire_in_current_epoch(r, sp);
      } else if (nw) mgr->retire_in_new_epoch(r, ps[0]);
      else mgr->retire_in_current_epoch(r, ps[0]);
      PBT_CHECK((uint64_t)mgr->now() == ep, "current epoch is %llu, expected %llu", (unsigned long long)mgr->now(), (unsigned long long)ep);
      if (model->nreclaimed != before) { autor = true; pbt::label("threshold reclamation"); }
      if ((int)(model->pending[t].size() + (model->nreclaimed - before)) >= thr) must_be_gone(t, "retiring past the threshold");
      else PBT_CHECK(model->nreclaimed == before, "reclamation was triggered with %zu objects collected, threshold %d", model->pending[t].size() + (size_t)(model->nreclaimed - before), thr);
      break;
    }
    case 6: case 7: {
      PBT_LOG("T%d reclaim", t);
      size_t left = mgr->do_reclaim();
      PBT_CHECK(left == model->pending[t].size(), "reclaim reports %zu objects left, %zu are", left, model->pending[t].size());
      must_be_gone(t, "a reclaim call");
      break;
    }
    case 8: {
      if (src.below(2)) { epoch_t old = mgr->switch_epoch(); PBT_CHECK((uint64_t)old == ep, "switch_epoch returned %llu, the epoch was %llu", (unsigned long long)old, (unsigned long long)ep); ep++; }
      else {
        int v = (int)src.below(12) - 1;
        mgr->set_reclamation_threshold(v);
        if (v > 0) thr = v;
        PBT_LOG("threshold %d", v);
        PBT_CHECK(mgr->get_reclamation_threshold(0) == thr, "threshold is %d after setting %d", mgr->get_reclamation_threshold(0), v);
      }
      break;
    }
    case 9:
      PBT_LOG("reclaim_all");
      mgr->reclaim_all();
      for (int u : ids) must_be_gone(u, "a full reclaim");
      break;
    }
  }
  bool all_out = src.below(4) != 0;
  for (int t : ids) {
    sim::set_thread_id(t);
    while (model->nest[t] > 0) { if (--model->nest[t] == 0) { model->inside_since[t] = 0; announced[t] = ~0ull; } mgr->exit_epoch(); }
  }
  if (all_out) {
    mgr->reclaim_all();
    for (int i = 0; i < nobj; i++) PBT_CHECK(model->objs[i].reclaimed, "object %d is not reclaimed by a full reclaim although nobody is inside", i);
  } else {
    mgr.reset();
    for (int i = 0; i < nobj; i++) PBT_CHECK(model->objs[i].reclaimed, "object %d was retired and never passed to its reclaimer: the manager was destroyed first", i);
  }
  if (blocked && nobj > 3) pbt::nontrivial();
  if (autor) pbt::label("cases with threshold reclamation");
  mgr.reset();
  M = nullptr;
}
#ifdef P19
#define EP "P19"
#else
#define EP "P20"
#endif
pbt::Reg r1(EP, "model_u64", case_seq<uint64_t, 3>, 10, true), r2(EP, "model_default", case_seq<int, 1000>, 5, true), r3(EP, "model_u32", case_seq<uint32_t, 1>, 5, true);
#endif
} // namespace
