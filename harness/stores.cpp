// P25: the locked stores, P26: the store over the concurrent B+tree, both made
// by the store factory.  Sequential histories against an ideal store (asan),
// threads under a schedule with a linearizability check per record (sched).
#include "smallgc.h"
#include "db/db_factory.cpp"
#include "../lib/pbt.h"
#include "../lib/sim.h"
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
using pbt::src;
using TR = indexes::utils::ThreadRegistry;
using ycsbc::DB;

// Findings that are recorded (known_findings.json): what they break is not
// generated, so that anything else is still reported.
#if defined(KF_locked_delete_table) || defined(KF_conc_delete_table)
constexpr bool NO_DELETE = true;
#else
constexpr bool NO_DELETE = false;
#endif
#if defined(KF_locked_tables_mixed) || defined(KF_conc_tables_mixed)
constexpr bool ONE_TABLE = true;
#else
constexpr bool ONE_TABLE = false;
#endif
#if defined(KF_locked_field_count) || defined(KF_conc_field_count)
constexpr bool ALL_FIELDS = true;
#else
constexpr bool ALL_FIELDS = false;
#endif
#ifdef KF_conc_update_lost
constexpr bool NO_UPDATE = true;
#else
constexpr bool NO_UPDATE = false;
#endif
namespace {
using Rec = std::map<std::string, std::string>;
std::string show(const Rec &r) { std::string s = "{"; for (auto &[k, v] : r) s += (s.size() > 1 ? ", " : "") + k + "=" + v; return s + "}"; }
std::string field(long i) { return i == 9 ? "" : i == 8 ? "a_field_with_a_name_that_does_not_fit_inline" : "field" + std::to_string(i); }
bool concurrent(const std::string &n) { return n == "concurrent_btree"; }
bool scans(const std::string &n) { return n == "stl_map" || n == "btree" || n == "concurrent_btree"; }
std::unique_ptr<DB> make(const std::string &name) {
  utils::Properties p;
  p.SetProperty("dbname", name);
  std::unique_ptr<DB> db(ycsbc::DBFactory::CreateDB(p));
  PBT_CHECK(db != nullptr, "the factory does not know the store %s", name.c_str());
  return db;
}
Rec rec(const std::vector<DB::KVPair> &v, const char *what) {
  Rec r;
  for (auto &[k, x] : v) PBT_CHECK(r.emplace(k, x).second, "%s: field %s is reported twice", what, k.c_str());
  return r;
}

#ifndef PBT_SCHED
struct Ideal {
  std::map<std::string, std::map<std::string, Rec>> tables;
};
void seq_case(const char *name) {
  TR::RegisterThread();
  draw_gc_threshold();
  auto db = make(name);
  std::map<std::string, std::map<std::string, Rec>> ideal;
  // tables and keys whose plain concatenations coincide
  static const std::vector<std::string> TABLES = {"usertable", "a", "ab", "abc", "b", "u", "usertable2", ""};
  int nt = ONE_TABLE ? 1 : 1 + (int)src.below(src.below(3) ? 2 : 8);
  std::vector<std::string> tables;
  if (NO_DELETE && src.below(2)) tables.push_back(""), nt--; // there deletes work
  for (int i = 0; i < nt; i++) { auto &t = TABLES[src.below(TABLES.size())]; if (std::find(tables.begin(), tables.end(), t) == tables.end()) tables.push_back(t); }
  static const int KEYS[] = {6, 20, 20, 60, 400};
  long nkeys = KEYS[src.below(5)];
  auto key = [&](long i) -> std::string {
    switch (i % 6) {
    case 0: return "bc" + std::to_string(i);
    case 1: return "c" + std::to_string(i - 1);
    case 2: return "user" + std::to_string(i);
    case 3: return "table2" + std::to_string(i);
    case 4: return i == 4 ? "" : std::to_string(i - 4);
    default: return "user" + std::to_string(pbt::mix(i)) + "_not_inline";
    }
  };
  int most = 1 + (int)src.below(10);
  // every record has the same fields, in the order of insertion
  std::vector<std::string> same;
  if (ALL_FIELDS) for (int i = 0; i < most; i++) same.push_back(field((i * 7 + 3) % 10));
  long nextv = 1; bool shrank = false; size_t peak = 0, live = 0; int reads = 0;
  auto val = [&] { long v = nextv++; return std::to_string(v) + std::string(src.below(4) == 3 ? src.below(60) : 0, 'x'); };
  auto fields = [&](DB::FieldSet &fs) -> DB::FieldSet * {
    if (src.below(2)) return nullptr;
    int n = (int)src.below(4);
    for (int i = 0; i < n; i++) fs.insert(field((long)src.below(10)));
    return &fs;
  };
  auto is_in = [&](const std::string &t) { return !NO_DELETE || t.empty(); };
  // what reading these fields of r gives
  auto match = [&](const Rec &r, const DB::FieldSet *fs, int fc, const Rec &got, const char *what) {
    Rec want;
    for (auto &[k, v] : r) if (!fs || fs->count(k)) want[k] = v;
    if (fc >= (int)r.size()) PBT_CHECK(got == want, "%s gives %s, expected %s", what, show(got).c_str(), show(want).c_str());
    else { // only so many fields are asked for
      for (auto &[k, v] : got) PBT_CHECK(want.count(k) && want[k] == v, "%s gives %s=%s, the record is %s", what, k.c_str(), v.c_str(), show(r).c_str());
      PBT_CHECK((int)got.size() <= fc && (fs || (int)got.size() == fc), "%s gives %zu fields of %zu, %d were asked for", what, got.size(), r.size(), fc);
    }
  };
  auto count = [&](int total) -> int { if (ALL_FIELDS) { int n = (int)same.size(); return src.below(5) == 4 ? (int)src.below(n + 1) : n; } return src.below(5) == 4 ? (int)src.below(total + 4) : total + (int)src.below(3); };
  while (src.more(src.below(8) == 0 ? 300 : 60)) {
    const std::string &t = tables[src.below(tables.size())];
    std::string k = key((long)src.below(nkeys));
    auto &tab = ideal[t];
    auto it = tab.find(k);
    switch (src.below(13)) {
    case 0: case 1: case 2: { // insert
      DB::FieldVec v; Rec r;
      int n = ALL_FIELDS ? most : (int)src.below(most + 1);
      for (int i = 0; i < 10 && (int)v.size() < n; i++) { long f = (i * 7 + 3) % 10; v.emplace_back(field(f), val()); r.insert(v.back()); }
      PBT_LOG("insert %s/%s %s", t.c_str(), k.c_str(), show(r).c_str());
      int rc = db->Insert(t, k, v);
      if (concurrent(name) && it != tab.end()) PBT_CHECK(rc == DB::kErrorConflict, "inserting the existing record %s/%s returned %d", t.c_str(), k.c_str(), rc);
      else { PBT_CHECK(rc == DB::kOK, "insert %s/%s returned %d", t.c_str(), k.c_str(), rc); if (it == tab.end()) live++; tab[k] = r; }
      break;
    }
    case 3: { // fill
      long a = (long)src.below(nkeys), n = 1 + (long)src.below(nkeys);
      PBT_LOG("insert %ld records into %s from key %ld", n, t.c_str(), a);
      for (long i = a; i < a + n && i < nkeys; i++) if (!tab.count(key(i))) { std::string x = val(); DB::FieldVec v{{field(i % 4), x}, {field(5), x}}; if (ALL_FIELDS) { v.clear(); for (auto &f : same) v.emplace_back(f, x); } PBT_CHECK(db->Insert(t, key(i), v) == DB::kOK, "insert failed"); tab[key(i)] = Rec(v.begin(), v.end()); live++; }
      break;
    }
    case 4: case 5: { // update
      DB::FieldMap v; Rec r;
      if (NO_UPDATE && it != tab.end()) break;
      int n = (int)src.below(4);
      if (ALL_FIELDS && it == tab.end()) for (auto &f : same) { auto x = val(); v[f] = x; r[f] = x; }
      else for (int i = 0; i < n; i++) { auto f = ALL_FIELDS ? same[src.below(same.size())] : field((long)src.below(10)); auto x = val(); v[f] = x; r[f] = x; }
      PBT_LOG("update %s/%s %s", t.c_str(), k.c_str(), show(r).c_str());
      int rc = db->Update(t, k, ALL_FIELDS ? (int)same.size() : count(10), v);
      PBT_CHECK(rc == DB::kOK, "update %s/%s returned %d", t.c_str(), k.c_str(), rc);
      if (it == tab.end()) { tab[k] = r; live++; } else for (auto &[f, x] : r) it->second[f] = x;
      break;
    }
    case 6: case 7: { // delete
      if (!is_in(t)) break;
      if (src.below(2) && !tab.empty()) { it = tab.lower_bound(k); if (it == tab.end()) it = tab.begin(); k = it->first; }
      PBT_LOG("delete %s/%s", t.c_str(), k.c_str());
      int rc = db->Delete(t, k);
      PBT_CHECK(rc == (it == tab.end() ? DB::kErrorNoData : DB::kOK), "delete %s/%s returned %d, the record %s", t.c_str(), k.c_str(), rc, it == tab.end() ? "does not exist" : "exists");
      if (it != tab.end()) { tab.erase(it); live--; }
      break;
    }
    case 8: { // delete many
      if (src.below(3) || !is_in(t)) break;
      long a = (long)src.below(nkeys), n = 1 + (long)src.below(nkeys);
      PBT_LOG("delete %ld records of %s from key %ld", n, t.c_str(), a);
      for (long i = a; i < a + n && i < nkeys; i++) { bool had = tab.erase(key(i)) > 0; if (had) live--; int rc = db->Delete(t, key(i)); PBT_CHECK(rc == (had ? DB::kOK : DB::kErrorNoData), "delete %s/%s returned %d, the record %s", t.c_str(), key(i).c_str(), rc, had ? "exists" : "does not exist"); }
      break;
    }
    case 9: case 10: { // read
      DB::FieldSet fs; auto *f = fields(fs);
      std::vector<DB::KVPair> out;
      if (src.below(2)) out.push_back({"left over", "x"});
      int fc = count(10);
      PBT_LOG("read %s/%s", t.c_str(), k.c_str());
      int rc = db->Read(t, k, f, fc, out);
      PBT_CHECK(rc == (it == tab.end() ? DB::kErrorNoData : DB::kOK), "read %s/%s returned %d, the record %s", t.c_str(), k.c_str(), rc, it == tab.end() ? "does not exist" : "exists");
      if (rc == DB::kOK) { match(it->second, f, fc, rec(out, "read"), "read"); reads++; }
      break;
    }
    case 11: { // scan
      DB::FieldSet fs; auto *f = fields(fs);
      int fc = count(10), n = (int)src.below(src.below(2) ? 6 : nkeys + 3);
      std::vector<std::vector<DB::KVPair>> out;
      if (src.below(2)) out.push_back({{"left over", "x"}});
      PBT_LOG("scan %s from %s, %d records", t.c_str(), k.c_str(), n);
      if (!scans(name)) {
        bool refused = false;
        try { db->Scan(t, k, n, f, fc, out); } catch (const char *) { refused = true; }
        PBT_CHECK(refused, "a store without order accepted a scan");
        break;
      }
      int rc = db->Scan(t, k, n, f, fc, out);
      PBT_CHECK(rc == DB::kOK, "scan returned %d", rc);
      size_t i = 0;
      for (auto x = tab.lower_bound(k); x != tab.end() && (int)i < n; ++x, ++i) {
        PBT_CHECK(i < out.size(), "scan of %s from %s ends after %zu records, %s comes next", t.c_str(), k.c_str(), i, x->first.c_str());
        match(x->second, f, fc, rec(out[i], "scan"), "scan");
      }
      PBT_CHECK(out.size() == i, "scan of %s from %s gives %zu records, expected %zu", t.c_str(), k.c_str(), out.size(), i);
      reads++;
      break;
    }
    case 12: // read everything
      if (src.below(4)) break;
      for (auto &tn : tables) for (long i = 0; i < nkeys; i++) {
        std::vector<DB::KVPair> out; auto x = ideal[tn].find(key(i));
        int rc = db->Read(tn, key(i), nullptr, ALL_FIELDS ? (int)same.size() : 10, out);
        PBT_CHECK(rc == (x == ideal[tn].end() ? DB::kErrorNoData : DB::kOK), "read %s/%s returned %d, the record %s", tn.c_str(), key(i).c_str(), rc, x == ideal[tn].end() ? "does not exist" : "exists");
        if (!rc) match(x->second, nullptr, 100, rec(out, "read"), "read");
      }
      break;
    }
    peak = std::max(peak, live);
    if (live * 2 < peak) shrank = true;
  }
  db->Close();
  db.reset();
  if (peak >= 4 && (shrank || NO_DELETE) && reads) pbt::nontrivial();
  if (peak > 100) pbt::label("more than 100 records");
  if (tables.size() > 1) pbt::label("several tables");
}
// recorded findings, each by the history that shows it
#ifdef P25
#define STORE "stl_map"
#define FOUND(name, fn) pbt::RegProbe pr_##fn("P25", "locked-" name, fn)
#else
#define STORE "concurrent_btree"
#define FOUND(name, fn) pbt::RegProbe pr_##fn("P26", "conc-" name, fn)
#endif
DB::FieldVec vec(std::initializer_list<DB::KVPair> l) { return DB::FieldVec(l); }
void f_delete() {
  TR::RegisterThread(); auto db = make(STORE); auto v = vec({{"f", "1"}});
  db->Insert("usertable", "a", v);
  PBT_LOG("insert usertable/a, delete usertable/a");
  PBT_CHECK(db->Delete("usertable", "a") == DB::kOK, "deleting an existing record reports no data");
}
void f_tables() {
  TR::RegisterThread(); auto db = make(STORE); auto v = vec({{"f", "1"}}); std::vector<DB::KVPair> out;
  db->Insert("ab", "c", v);
  PBT_LOG("insert ab/c, read a/bc");
  PBT_CHECK(db->Read("a", "bc", nullptr, 1, out) == DB::kErrorNoData, "record ab/c is found as a/bc");
}
void f_fields() {
  TR::RegisterThread(); auto db = make(STORE); auto v = vec({{"f", "1"}}); std::vector<DB::KVPair> out;
  db->Insert("t", "k", v);
  PBT_LOG("insert t/k with one field, read up to two");
  PBT_CHECK(db->Read("t", "k", nullptr, 2, out) == DB::kOK && out.size() == 1, "a record of one field is read as %zu", out.size());
}
void f_update() {
  TR::RegisterThread(); auto db = make(STORE); auto v = vec({{"f", "1"}}); std::vector<DB::KVPair> out;
  db->Insert("t", "k", v);
  DB::FieldMap m; m["f"] = "2";
  PBT_LOG("insert t/k f=1, update f=2, read");
  PBT_CHECK(db->Update("t", "k", 1, m) == DB::kOK, "update fails");
  PBT_CHECK(db->Read("t", "k", nullptr, 1, out) == DB::kOK && out.at(0).second == "2", "an acknowledged update is not visible");
}
FOUND("delete-table", f_delete); FOUND("tables-mixed", f_tables); FOUND("field-count", f_fields); FOUND("update-lost", f_update);
#define R(P, n) pbt::Reg r_##n(P, #n, [] { seq_case(#n); }, 10, !ALL_FIELDS)
#ifdef P25
R("P25", stl_map); R("P25", stl_umap); R("P25", robinmap); R("P25", btree);
pbt::Reg r_unknown("P25", "unknown_name", [] {
  utils::Properties p; std::string n; while (src.more(6)) n += (char)('a' + src.below(26));
  p.SetProperty("dbname", n);
  static const std::set<std::string> known = {"stl_map", "stl_umap", "robinmap", "btree", "concurrent_btree"};
  std::unique_ptr<DB> db(ycsbc::DBFactory::CreateDB(p));
  PBT_CHECK((db != nullptr) == (known.count(n) > 0), "the factory %s the name %s", db ? "accepts" : "refuses", n.c_str());
}, 1);
#else
R("P26", concurrent_btree);
#endif
#else // ------------------------------------------------------------- threads
enum { READ, INSERT, UPDATE, DELETE_, SCAN_ };
struct Op {
  int thr = -1, kind = 0; long key = 0;
  Rec arg; int rc = 0; Rec res; bool ran = false;
  std::set<std::string> want; bool all = true;
  uint64_t inv = 0, ret = 0;
  int limit = 0; std::vector<Rec> rows;
};
std::string name_of(long k) { return (k < 10 ? "user0" : "user") + std::to_string(k) + (k % 2 ? "_longer_than_inline" : ""); }
std::string show(const Op &o) {
  static const char *N[] = {"read", "insert", "update", "delete", "scan from"};
  char b[80]; snprintf(b, sizeof b, "[%llu,%llu] T%d %s %ld ", (unsigned long long)o.inv, (unsigned long long)o.ret, o.thr, N[o.kind], o.key);
  std::string s = b;
  if (o.kind == INSERT || o.kind == UPDATE) s += show(o.arg);
  s += " = " + std::to_string(o.rc);
  if (o.kind == READ && !o.rc) s += " " + show(o.res);
  for (auto &r : o.rows) s += " " + show(r);
  return s;
}
using St = std::optional<Rec>;
struct Checker {
  std::vector<Op> h; bool conc;
  std::vector<bool> done; size_t left;
  std::set<std::pair<std::vector<bool>, St>> seen;
  uint64_t budget = 400000;
  bool step(const Op &o, St &s) {
    switch (o.kind) {
    case READ:
      if (o.rc) return o.rc == DB::kErrorNoData && !s;
      if (!s) return false;
      if (o.all) return o.res == *s;
      { Rec w; for (auto &[k, v] : *s) if (o.want.count(k)) w[k] = v; return w == o.res; }
    case INSERT:
      if (conc && s) return o.rc == DB::kErrorConflict;
      if (o.rc) return false;
      s = o.arg; return true;
    case UPDATE:
      if (o.rc) return false;
      if (!s) s = o.arg; else for (auto &[k, v] : o.arg) (*s)[k] = v;
      return true;
    default:
      if (!s) return o.rc == DB::kErrorNoData;
      if (o.rc) return false;
      s.reset(); return true;
    }
  }
  bool dfs(St s) {
    if (!left || !budget) return true;
    budget--;
    if (!seen.insert({done, s}).second) return false;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < h.size(); i++) if (!done[i]) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) {
      if (done[i] || h[i].inv > minret) continue;
      St t = s;
      if (!step(h[i], t)) continue;
      done[i] = true; left--;
      bool ok = dfs(t);
      done[i] = false; left++;
      if (ok) return true;
    }
    return false;
  }
};
void conc_case(const char *name) {
  sim::opts.tso = true; sim::opts.reuse = true;
  TR::RegisterThread();
  draw_gc_threshold();
  auto dbp = make(name);
  DB &db = *dbp;
  const std::string T = "usertable", T2 = "usertabl";
  int nt = 2 + (int)src.below(3);
  std::vector<Op> hist;
  long nextv = 1;
  auto text = [](long v) { return std::to_string(v) + (v % 3 ? "" : "_a_value_that_does_not_fit_inline"); };
  auto whole = [&](Op &o) { o.arg["id"] = name_of(o.key); long v = nextv++; o.arg["x"] = text(v); o.arg["y"] = text(v); };
  const int FC = ALL_FIELDS ? 3 : 10;
  auto run1 = [&](Op &o) {
    DB::FieldVec v(o.arg.begin(), o.arg.end());
    DB::FieldMap m; for (auto &kv : o.arg) m[kv.first] = kv.second;
    DB::FieldSet fs; for (auto &w : o.want) fs.insert(w);
    std::vector<DB::KVPair> out; std::vector<std::vector<DB::KVPair>> rows;
    std::string k = name_of(o.key);
    o.inv = sim::now();
    switch (o.kind) {
    case READ: o.rc = db.Read(T, k, o.all ? nullptr : &fs, FC, out); break;
    case INSERT: o.rc = db.Insert(T, k, v); break;
    case UPDATE: o.rc = db.Update(T, k, FC, m); break;
    case DELETE_: o.rc = db.Delete(T, k); break;
    case SCAN_: o.rc = db.Scan(T, k, o.limit, nullptr, FC, rows); break;
    }
    o.ret = sim::now();
    o.ran = true;
    if (o.kind == READ && !o.rc) o.res = rec(out, "read");
    if (o.kind == SCAN_) for (auto &r : rows) o.rows.push_back(rec(r, "scan"));
  };
  static const int PRE[] = {0, 1, 2, 4, 8, 60};
  int pre = PRE[src.below(6)];
  int hot = 1 + (int)src.below(4);
  for (int i = 0; i < pre; i++) { Op o; o.kind = INSERT; o.key = i; whole(o); run1(o); hist.push_back(o); }
  for (int i = 0; i < hot; i++) if (!NO_DELETE && src.below(3) == 2) { Op o; o.kind = DELETE_; o.key = i; run1(o); hist.push_back(o); }
  static const int W[] = {SCAN_, READ, READ, READ, INSERT, INSERT, UPDATE, UPDATE, UPDATE, DELETE_, DELETE_};
  const int last = NO_UPDATE ? 6 : NO_DELETE ? 9 : 11, first = scans(name) ? 0 : 1;
  std::vector<std::vector<Op>> prog(nt);
  bool muts = false;
  for (int t = 0; t < nt; t++)
    while (src.more(4) && prog[t].size() < 10) {
      Op o; o.thr = t; o.kind = W[first + src.below(last - first)];
      o.key = src.below(8) ? (long)src.below(hot) : (long)src.below(pre + 2);
      if (o.kind == INSERT) whole(o);
      if (o.kind == UPDATE) { o.arg["id"] = name_of(o.key); uint64_t w = src.below(3); long v = nextv++; if (w != 1 || ALL_FIELDS) o.arg["x"] = text(v); if (w != 0 || ALL_FIELDS) o.arg["y"] = text(v); }
      if (o.kind == READ && src.below(3) == 2) { o.all = false; o.want.insert(src.below(2) ? "x" : "y"); }
      if (o.kind == SCAN_) o.limit = (int)src.below(6);
      if (o.kind == INSERT || o.kind == UPDATE || o.kind == DELETE_) muts = true;
      prog[t].push_back(o);
    }
  for (int t = 0; t < nt; t++)
    sim::spawn([&, t] {
      db.Init();
      if (!concurrent(name)) TR::RegisterThread();
      for (auto &o : prog[t]) run1(o);
      db.Close();
      TR::UnregisterThread();
    });
  sim::run();
  for (auto &p : prog) for (auto &x : p) hist.push_back(x);
  std::set<long> ks;
  for (auto &o : hist) if (o.kind != SCAN_) ks.insert(o.key);
  for (long k : ks) { Op o; o.kind = READ; o.key = k; o.thr = 99; run1(o); hist.push_back(o); }
  if (pbt::verbose) for (auto &o : hist) PBT_LOG("%s", show(o).c_str());
  // a scan reads every record in the part of the table it covered
  size_t n = hist.size();
  for (size_t i = 0; i < n; i++) {
    const Op sc = hist[i];
    if (sc.kind != SCAN_) continue;
    PBT_CHECK(sc.rc == DB::kOK && (int)sc.rows.size() <= sc.limit, "%s: wrong status or too many records", show(sc).c_str());
    std::map<std::string, Rec> by;
    std::string prev;
    for (auto &r : sc.rows) {
      PBT_CHECK(r.count("id"), "%s: reports a record nobody wrote", show(sc).c_str());
      const std::string &id = r.at("id");
      PBT_CHECK(id >= name_of(sc.key) && (prev.empty() || id > prev), "%s: records out of order or before the start", show(sc).c_str());
      by[id] = r; prev = id;
    }
    bool full = (int)sc.rows.size() == sc.limit;
    size_t known = 0;
    for (long k : ks) {
      std::string id = name_of(k);
      auto b = by.find(id);
      if (b != by.end()) known++;
      if (id < name_of(sc.key) || (full && (prev.empty() || id > prev))) continue;
      Op o; o.kind = READ; o.key = k; o.thr = sc.thr; o.inv = sc.inv; o.ret = sc.ret; o.ran = true;
      if (b == by.end()) o.rc = DB::kErrorNoData; else o.res = b->second;
      hist.push_back(o);
    }
    PBT_CHECK(known == by.size(), "%s: reports a record nobody wrote", show(sc).c_str());
  }
  for (long k : ks) {
    Checker c; c.conc = concurrent(name);
    for (auto &o : hist) if (o.key == k && o.kind != SCAN_ && o.ran) c.h.push_back(o);
    std::sort(c.h.begin(), c.h.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
    c.done.assign(c.h.size(), false); c.left = c.h.size();
    if (!c.dfs({})) {
      std::string t; for (auto &o : c.h) t += "\n  " + show(o);
      pbt::fail("no sequential order explains the operations on record %ld:%s", k, t.c_str());
    }
  }
  dbp.reset();
  if (muts && sim::switches() > 6) pbt::nontrivial();
}
#ifdef P25
pbt::Reg r1("P25", "t_stl_map", [] { conc_case("stl_map"); }, 10, !ALL_FIELDS), r2("P25", "t_robinmap", [] { conc_case("robinmap"); }, 5, !ALL_FIELDS), r3("P25", "t_btree", [] { conc_case("btree"); }, 10, !ALL_FIELDS);
#else
pbt::Reg r1("P26", "threads", [] { conc_case("concurrent_btree"); }, 10, !ALL_FIELDS);
#endif
#endif
} // namespace
