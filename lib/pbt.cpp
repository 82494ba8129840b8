#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=16:max_redzone=128";
}
extern "C" const char *__ubsan_default_options() {
  return "halt_on_error=1:exitcode=78:print_stacktrace=1";
}

namespace pbt {
Src src;
bool verbose = false;
void (*case_begin_hook)() = nullptr;
#ifdef HAVE_ASAN
size_t (*heap_bytes)() = __sanitizer_get_current_allocated_bytes;
#else
size_t (*heap_bytes)() = nullptr;
#endif
std::vector<Sub> &subs() { static std::vector<Sub> s; return s; }
std::vector<Probe> &probes() { static std::vector<Probe> s; return s; }

static constexpr int NSTREAM = 2;
static constexpr size_t CAP = 1u << 20;
static constexpr int NLABEL = 96;
static constexpr size_t HSIZE = 1u << 22;

struct Shared {
  std::atomic<uint64_t> n[NSTREAM];
  uint64_t rec[NSTREAM][CAP];
  std::atomic<int64_t> cur_case;
  std::atomic<int> cur_sub;
  std::atomic<uint64_t> evaluations, nontriv;
  char msg[4096];
  std::atomic<int> failed;
  char names[NLABEL][64];
  uint64_t counts[NLABEL];
  uint64_t ntcase[16]; // first nontrivial (case) ids for samples
  std::atomic<int> nnt;
  size_t loglen;
  char logbuf[1 << 18];
};
static Shared *sh = nullptr; // this process's area
static std::atomic<uint64_t> *htab = nullptr;

static Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<Shared *>(p);
}

static uint64_t rng_state[NSTREAM];
static bool replaying = false;
static std::vector<uint64_t> rep[NSTREAM];
static size_t rep_pos[NSTREAM];
static bool is_nt = false;
static const char *lab_ptr[NLABEL];

uint64_t Src::u64(int st) {
  uint64_t v;
  if (replaying) {
    v = rep_pos[st] < rep[st].size() ? rep[st][rep_pos[st]++] : 0;
  } else {
    rng_state[st] += 0x9E3779B97F4A7C15ull;
    v = mix(rng_state[st]);
  }
  size_t i = sh->n[st].load(std::memory_order_relaxed);
  if (i < CAP) {
    sh->rec[st][i] = v;
    sh->n[st].store(i + 1, std::memory_order_relaxed);
  }
  return v;
}
uint64_t Src::below(uint64_t n, int st) {
  if (n <= 1) n = 1;
  uint64_t v;
  if (replaying) {
    v = rep_pos[st] < rep[st].size() ? rep[st][rep_pos[st]++] : 0;
    if (v >= n) v %= n;
  } else {
    rng_state[st] += 0x9E3779B97F4A7C15ull;
    v = static_cast<uint64_t>(
        (static_cast<unsigned __int128>(mix(rng_state[st])) * n) >> 64);
  }
  size_t i = sh->n[st].load(std::memory_order_relaxed);
  if (i < CAP) {
    sh->rec[st][i] = v;
    sh->n[st].store(i + 1, std::memory_order_relaxed);
  }
  return v;
}

void log(const char *fmt, ...) {
  if (!sh || sh->loglen + 2 >= sizeof(sh->logbuf)) return;
  va_list ap; va_start(ap, fmt);
  int k = vsnprintf(sh->logbuf + sh->loglen, sizeof(sh->logbuf) - sh->loglen, fmt, ap);
  va_end(ap);
  if (k > 0) sh->loglen = std::min(sh->loglen + k, sizeof(sh->logbuf) - 1);
  if (sh->loglen + 1 < sizeof(sh->logbuf)) { sh->logbuf[sh->loglen++] = '\n'; sh->logbuf[sh->loglen] = 0; }
}
void fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  if (verbose) log("FAIL: %s", sh->msg);
  sh->failed = 1;
  _exit(43);
}
void label(const char *name, uint64_t n) {
  for (int i = 0; i < NLABEL; i++) {
    if (lab_ptr[i] == name) { sh->counts[i] += n; return; }
    if (!lab_ptr[i]) {
      lab_ptr[i] = name;
      snprintf(sh->names[i], 64, "%s", name);
      sh->counts[i] += n;
      return;
    }
  }
}
void nontrivial() { is_nt = true; }

static double case_cpu_s = 30;
static void on_prof(int) {
  snprintf(sh->msg, sizeof sh->msg, "case did not finish within its CPU budget (no progress)");
  sh->failed = 1;
  _exit(44);
}
static void arm(double s) {
  struct itimerval tv{};
  tv.it_value.tv_sec = (time_t)s;
  tv.it_value.tv_usec = (suseconds_t)((s - (time_t)s) * 1e6);
  setitimer(ITIMER_PROF, &tv, nullptr);
}

static void run_fn(const std::function<void()> &fn) {
  if (case_begin_hook) case_begin_hook();
  try {
    fn();
  } catch (const std::exception &e) {
    fail("unexpected exception: %s", e.what());
  } catch (...) {
    fail("unexpected exception of unknown type");
  }
}
static void reset_rec() {
  for (int s = 0; s < NSTREAM; s++) { sh->n[s] = 0; rep_pos[s] = 0; }
  is_nt = false;
}
static void run_case(const Sub &sub, const std::function<void()> &reseed) {
  reset_rec();
  reseed();
  if (sub.leak_check && heap_bytes) {
    size_t before = heap_bytes();
    run_fn(sub.fn);
    size_t after = heap_bytes();
    if (after > before) {
      size_t g[3];
      for (int k = 0; k < 3; k++) { // statics warm up once; a leak repeats
        size_t b = heap_bytes();
        reset_rec(); reseed(); run_fn(sub.fn);
        g[k] = heap_bytes() - b;
      }
      if (g[1] && g[1] == g[2] && (ssize_t)g[1] > 0)
        fail("memory leak: %zu bytes stay allocated after everything was destroyed", g[2]);
    }
    return;
  }
  run_fn(sub.fn);
}

static uint64_t strhash(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
static double now_s() {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::string opt(int argc, char **argv, const char *n, const char *d) {
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], n)) return argv[i + 1];
  return d;
}
static bool has(int argc, char **argv, const char *n) {
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], n)) return true;
  return false;
}

struct CaseData { std::vector<uint64_t> s[NSTREAM]; };
static std::string stderr_path;

// run one recorded case in a child; returns true if it fails
static bool run_child(const Sub *sub, const Probe *probe, const CaseData *cd, bool verb,
                      double cpu, std::string *why, CaseData *rec, std::string *logout) {
  static Shared *csh = new_shared();
  csh->failed = 0; csh->msg[0] = 0; csh->loglen = 0; csh->logbuf[0] = 0;
  for (int s = 0; s < NSTREAM; s++) csh->n[s] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    sh = csh;
    int fd = open(stderr_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    verbose = verb;
    signal(SIGPROF, on_prof);
    arm(cpu);
    if (cd) { replaying = true; for (int s = 0; s < NSTREAM; s++) rep[s] = cd->s[s]; }
    if (sub) run_case(*sub, [] {});
    else { reset_rec(); run_fn(probe->fn); }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (bad && why) {
    if (csh->failed) *why = csh->msg;
    else {
      std::ostringstream o;
      if (WIFSIGNALED(st)) o << "crash: signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
      else o << "abnormal exit " << WEXITSTATUS(st);
      std::ifstream f(stderr_path); std::string l; int k = 0;
      while (std::getline(f, l) && k < 400) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos) {
          o << "; " << l.substr(0, 300); if (l.find("what():") != std::string::npos || l.find("ERROR") != std::string::npos) break;
        }
        k++;
      }
      *why = o.str();
    }
  }
  if (rec) for (int s = 0; s < NSTREAM; s++) rec->s[s].assign(csh->rec[s], csh->rec[s] + std::min<size_t>(csh->n[s], CAP));
  if (logout) *logout = std::string(csh->logbuf, csh->loglen);
  return bad;
}

static CaseData shrink(const Sub &sub, CaseData cd, double limit_s) {
  double end = now_s() + limit_s;
  int runs = 0;
  double cpu = std::min(case_cpu_s, 6.0);
  auto fails = [&](CaseData &c) {
    runs++;
    CaseData r;
    if (!run_child(&sub, nullptr, &c, false, cpu, nullptr, &r, nullptr)) return false;
    for (int s = 0; s < NSTREAM; s++) if (r.s[s].size() < c.s[s].size()) c.s[s] = r.s[s];
    return true;
  };
  bool progress = true;
  while (progress && now_s() < end && runs < 4000) {
    progress = false;
    for (int s = NSTREAM - 1; s >= 0; s--) {
      // drop chunks, largest first
      for (size_t len = std::max<size_t>(1, cd.s[s].size()); len >= 1 && now_s() < end; len /= 2) {
        for (size_t at = cd.s[s].size() >= len ? cd.s[s].size() - len + 1 : 0; at-- > 0 && now_s() < end;) {
          if (at + len > cd.s[s].size()) continue;
          CaseData t = cd;
          t.s[s].erase(t.s[s].begin() + at, t.s[s].begin() + at + len);
          if (fails(t)) { cd = t; progress = true; }
          if (len > 8 && at > 0) at -= std::min(at, len / 2);
        }
        if (len == 1) break;
      }
      // lower values
      for (size_t i = 0; i < cd.s[s].size() && now_s() < end; i++) {
        uint64_t v = cd.s[s][i];
        if (!v) continue;
        CaseData t = cd; t.s[s][i] = 0;
        if (fails(t)) { cd = t; progress = true; continue; }
        uint64_t lo = 0, hi = v; int k = 0;
        while (lo + 1 < hi && k++ < 12 && now_s() < end && i < cd.s[s].size()) {
          uint64_t mid = lo + (hi - lo) / 2;
          t = cd; t.s[s][i] = mid;
          if (fails(t)) { cd = t; hi = mid; progress = true; } else lo = mid;
        }
      }
    }
  }
  return cd;
}

static void write_replay(const std::string &path, const std::string &prop, const std::string &subname,
                         const CaseData &cd, const std::string &why, const std::string &trace) {
  std::ofstream f(path);
  f << "pbt-replay 1\nproperty " << prop << "\nsub " << subname << "\n";
  for (int s = 0; s < NSTREAM; s++) {
    f << "stream " << s << " " << cd.s[s].size();
    for (auto v : cd.s[s]) f << " " << v;
    f << "\n";
  }
  std::string w = why; std::replace(w.begin(), w.end(), '\n', ' ');
  f << "why " << w << "\n--- readable trace ---\n" << trace << "\n";
}
static bool read_replay(const std::string &path, std::string &prop, std::string &subname, CaseData &cd) {
  std::ifstream f(path); std::string l;
  if (!std::getline(f, l) || l.rfind("pbt-replay", 0)) return false;
  while (std::getline(f, l)) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "property") is >> prop;
    else if (k == "sub") is >> subname;
    else if (k == "stream") { int s; size_t n; is >> s >> n; cd.s[s].resize(n); for (auto &v : cd.s[s]) is >> v; }
    else if (k == "---") break;
  }
  return true;
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
} // namespace pbt

using namespace pbt;
int main(int argc, char **argv) {
  std::string prop = opt(argc, argv, "--property", "");
  uint64_t seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  int64_t cases = atoll(opt(argc, argv, "--cases", "1000").c_str());
  int workers = atoi(opt(argc, argv, "--workers", "8").c_str());
  double maxs = atof(opt(argc, argv, "--max-s", "300").c_str());
  std::string out = opt(argc, argv, "--out", "");
  std::string rdir = opt(argc, argv, "--replay-dir", ".");
  std::string onlysub = opt(argc, argv, "--sub", "");
  double shrink_s = atof(opt(argc, argv, "--shrink-s", "60").c_str());
  case_cpu_s = atof(opt(argc, argv, "--case-cpu", "30").c_str());
  stderr_path = rdir + "/stderr." + std::to_string(getpid());
  mkdir(rdir.c_str(), 0755);
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  sh = new_shared();
  std::string replay = opt(argc, argv, "--replay", "");
  if (!replay.empty()) {
    std::string subname; CaseData cd;
    if (!read_replay(replay, prop, subname, cd)) { fprintf(stderr, "cannot read replay\n"); return 2; }
    for (auto &s : subs()) if (prop == s.property && subname == s.name) {
      std::string why, lg;
      bool bad = run_child(&s, nullptr, &cd, true, case_cpu_s, &why, nullptr, &lg);
      printf("%s\n%s\n", lg.c_str(), bad ? ("FAILS: " + why).c_str() : "PASSES");
      if (bad && has(argc, argv, "--stderr")) { std::ifstream f(stderr_path); std::string l; while (std::getline(f, l)) printf("%s\n", l.c_str()); }
      unlink(stderr_path.c_str());
      return bad ? 1 : 0;
    }
    for (auto &p : probes()) if (prop == p.property && subname == std::string("probe:") + p.name) {
      std::string why, lg;
      bool bad = run_child(nullptr, &p, nullptr, true, case_cpu_s, &why, nullptr, &lg);
      printf("%s\n%s\n", lg.c_str(), bad ? ("FAILS: " + why).c_str() : "PASSES");
      unlink(stderr_path.c_str());
      return bad ? 1 : 0;
    }
    fprintf(stderr, "unknown sub-check %s/%s\n", prop.c_str(), subname.c_str());
    return 2;
  }

  std::vector<Sub> my;
  for (auto &s : subs()) if (prop == s.property && (onlysub.empty() || onlysub == s.name)) my.push_back(s);
  std::ostringstream js;
  js << "{\"property\":\"" << prop << "\",\"seed\":" << seed << ",";
  double t0 = now_s();

  struct PR { std::string name, why, replay; };
  std::vector<PR> pfail; int nprobes = 0;
  for (auto &p : probes()) if (prop == p.property && onlysub.empty()) {
    nprobes++;
    std::string why, lg;
    bool bad = true;
    for (int k = 0; k < 3 && bad; k++) bad = run_child(nullptr, &p, nullptr, true, case_cpu_s, &why, nullptr, &lg);
    if (bad) {
      std::string path = rdir + "/" + prop + "-probe-" + p.name + ".replay";
      write_replay(path, prop, std::string("probe:") + p.name, CaseData{}, why, lg);
      pfail.push_back({p.name, why, path});
    }
  }
  js << "\"probes\":" << nprobes << ",\"probe_failures\":[";
  for (size_t i = 0; i < pfail.size(); i++)
    js << (i ? "," : "") << "{\"name\":\"" << jesc(pfail[i].name) << "\",\"why\":\"" << jesc(pfail[i].why) << "\",\"replay\":\"" << jesc(pfail[i].replay) << "\"}";
  js << "],";

  // schedule of sub-checks by weight
  std::vector<int> wheel;
  for (size_t i = 0; i < my.size(); i++) for (int k = 0; k < my[i].weight; k++) wheel.push_back(i);
  for (size_t i = wheel.size(); i > 1; i--) std::swap(wheel[i - 1], wheel[mix(i * 77) % i]);

  htab = static_cast<std::atomic<uint64_t> *>(mmap(nullptr, HSIZE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto *distinct = static_cast<std::atomic<uint64_t> *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto *stop = distinct + 1;
  std::vector<Shared *> ws(workers);
  for (auto &w : ws) w = new_shared();
  std::vector<pid_t> pids(workers);
  auto reseed_for = [&](int64_t c, int sub) {
    uint64_t b = mix(seed) ^ mix(strhash(prop + "/" + my[sub].name)) ^ mix(c * 0x632BE59BD9B4E019ull + 17);
    for (int s = 0; s < NSTREAM; s++) rng_state[s] = mix(b + s * 0xABCDEF1234567ull);
  };
  if (!wheel.empty())
  for (int w = 0; w < workers; w++) {
    fflush(stdout); fflush(stderr);
    pids[w] = fork();
    if (pids[w] == 0) {
      sh = ws[w];
      std::string ep = stderr_path + ".w" + std::to_string(w);
      int fd = open(ep.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
      signal(SIGPROF, on_prof);
      for (int64_t c = w; c < cases; c += workers) {
        if (*stop || now_s() - t0 > maxs) break;
        int sub = wheel[mix(c) % wheel.size()];
        sh->cur_case = c; sh->cur_sub = sub;
        arm(case_cpu_s);
        run_case(my[sub], [&] { reseed_for(c, sub); });
        sh->evaluations++;
        if (is_nt) {
          sh->nontriv++;
          uint64_t h = strhash(my[sub].name);
          for (int s = 0; s < NSTREAM; s++) { size_t n = std::min<size_t>(sh->n[s], CAP); for (size_t i = 0; i < n; i++) h = mix(h ^ sh->rec[s][i]); }
          if (!h) h = 1;
          for (uint64_t i = h & (HSIZE - 1), k = 0; k < 64; i = (i + 1) & (HSIZE - 1), k++) {
            uint64_t e = 0;
            if (htab[i].compare_exchange_strong(e, h)) { (*distinct)++; break; }
            if (e == h) break;
          }
          int k = sh->nnt; if (k < 16) { sh->ntcase[k] = c; sh->nnt = k + 1; }
        }
      }
      sh->cur_case = -1;
      _exit(0);
    }
  }
  int badw = -1; int badst = 0;
  if (!wheel.empty())
  for (int left = workers; left > 0; left--) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      for (int w = 0; w < workers; w++) if (pids[w] == p && badw < 0) { badw = w; badst = st; }
      *stop = 1;
    }
  }
  (void)badst;
  uint64_t ev = 0, nt = 0; std::map<std::string, uint64_t> labs;
  for (auto *w : ws) {
    ev += w->evaluations; nt += w->nontriv;
    for (int i = 0; i < NLABEL && w->names[i][0]; i++) labs[w->names[i]] += w->counts[i];
  }
  int rc = 0;
  js << "\"failure\":";
  if (badw >= 0) {
    int sub = ws[badw]->cur_sub; int64_t c = ws[badw]->cur_case;
    CaseData cd;
    for (int s = 0; s < NSTREAM; s++) cd.s[s].assign(ws[badw]->rec[s], ws[badw]->rec[s] + std::min<size_t>(ws[badw]->n[s], CAP));
    std::string why0 = ws[badw]->failed ? ws[badw]->msg : "crash";
    // must fail again from its recorded choices, three times
    bool rep3 = true; std::string why, lg;
    for (int k = 0; k < 3 && rep3; k++) rep3 = run_child(&my[sub], nullptr, &cd, false, case_cpu_s, &why, nullptr, nullptr);
    if (rep3) {
      CaseData sm = shrink(my[sub], cd, shrink_s);
      std::string w2;
      bool ok = run_child(&my[sub], nullptr, &sm, true, case_cpu_s, &w2, nullptr, &lg);
      if (!ok) { sm = cd; run_child(&my[sub], nullptr, &sm, true, case_cpu_s, &w2, nullptr, &lg); }
      std::string path = rdir + "/" + prop + "-" + my[sub].name + ".replay";
      write_replay(path, prop, my[sub].name, sm, w2, lg);
      js << "{\"sub\":\"" << my[sub].name << "\",\"case\":" << c << ",\"why\":\"" << jesc(w2) << "\",\"first_why\":\"" << jesc(why0) << "\",\"replay\":\"" << jesc(path) << "\",\"reproduced\":true}";
      rc = 1;
    } else {
      js << "{\"sub\":\"" << my[sub].name << "\",\"case\":" << c << ",\"why\":\"" << jesc(why0) << "\",\"reproduced\":false}";
      rc = 3;
    }
  } else js << "null";
  for (int w = 0; w < workers; w++) unlink((stderr_path + ".w" + std::to_string(w)).c_str());

  // samples: replay a few non-trivial cases for their readable trace
  js << ",\"samples\":[";
  int ns = 0; std::set<int> seen;
  if (rc == 0)
  for (int pass = 0; pass < 2; pass++)
  for (auto *w : ws) for (int i = 0; i < w->nnt && ns < 4; i++) {
    int64_t c = w->ntcase[i]; int sub = wheel[mix(c) % wheel.size()];
    if (pass == 0 && !seen.insert(sub).second) continue;
    if (pass == 1 && ns >= 2) continue;
    static Shared *tmp = new_shared();
    tmp->loglen = 0;
    pid_t p = fork();
    if (p == 0) {
      sh = tmp; verbose = true;
      int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
      reset_rec(); reseed_for(c, sub); run_fn(my[sub].fn); _exit(0);
    }
    int st; waitpid(p, &st, 0);
    std::string t(tmp->logbuf, std::min<size_t>(tmp->loglen, 900));
    js << (ns ? "," : "") << "{\"sub\":\"" << my[sub].name << "\",\"case\":" << c << ",\"trace\":\"" << jesc(t) << "\"}";
    ns++;
  }
  js << "],\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << (uint64_t)*distinct << ",\"labels\":{";
  bool first = true;
  for (auto &[k, v] : labs) { js << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
  js << "},\"wall_s\":" << now_s() - t0 << ",\"subs\":[";
  for (size_t i = 0; i < my.size(); i++) js << (i ? "," : "") << "\"" << my[i].name << "\"";
  js << "]}";
  if (!out.empty()) { std::ofstream f(out); f << js.str() << "\n"; }
  else printf("%s\n", js.str().c_str());
  unlink(stderr_path.c_str());
  return rc;
}
