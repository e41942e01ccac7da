// Exhaustive explorer used by every check.
//
// A harness declares scopes. A scope is a finite space of cases; a case is a short vector of ints.
// tasks(scope) partition the space; run_task enumerates every case of one task and hands each to
// Ctx::go, which records it in shared memory (so that a crash or a hang names its case), runs the
// scope's run function on the real code and counts. Nothing is sampled. A failing case is re-run
// alone in a fresh process before it is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

enum { MAXV = 64, MAXW = 16, MAXSCOPE = 48, MAXSAMPLE = 2, OUTBITS = 26, MAXKNOWN = 64 };

struct Fail { std::string msg; };
[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
  char b[1800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Fail{b};
}

struct CaseRec { int scope, n; int v[MAXV]; };

struct Slot {
  CaseRec cur;
  std::atomic<uint64_t> progress;
  uint64_t cases[MAXSCOPE], states, transitions, traces, nontrivial, cut;
  uint64_t known[MAXKNOWN];
  uint64_t task;
  std::atomic<int> failed;   // 1: recorded by the worker, 2: crash, 3: hang
  CaseRec fcase; char msg[2000];
  CaseRec sample[MAXSCOPE][MAXSAMPLE];
};
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  Slot slot[MAXW];
  unsigned char out[1u << (OUTBITS - 3)];
};

struct Ctx {
  Shared* sh = nullptr; Slot* sl = nullptr; int scope = 0; bool replay = false;
  // counters: a state is a distinct configuration of the explored system (a text, a text plus cursor, ...);
  // a transition is one operation executed on the real code whose effect was compared with the model.
  void state(uint64_t k = 1) { sl->states += k; }
  void step(uint64_t k = 1) { sl->transitions += k; }
  void nontrivial() { sl->nontrivial++; }
  void cut() { sl->cut++; }         // this case was not explored to its full bound
  void known(int i) { sl->known[i]++; }
  void outcome(uint64_t h) {
    h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    h &= (1ull << OUTBITS) - 1;
    unsigned char m = 1u << (h & 7);
    if (!(sh->out[h >> 3] & m)) __atomic_fetch_or(&sh->out[h >> 3], m, __ATOMIC_RELAXED);
  }
  bool stopped() const { return sh->stop.load(std::memory_order_relaxed); }
  bool go(const int* v, int n);
  bool go(const std::vector<int>& v) { return go(v.data(), (int)v.size()); }
};

struct Scope {
  std::string name, bound;                                  // bound: human description of the space
  uint64_t ntasks = 1;
  std::function<void(Ctx&, uint64_t)> run_task;             // enumerate
  std::function<void(Ctx&, const int*, int)> run;           // decide one case
  std::function<std::string(const int*, int)> show;         // describe one case
  uint64_t expected = 0;                                    // size of the space, 0 if not known in advance
};

struct Harness {
  std::vector<Scope> scopes;
  std::vector<std::string> known;                           // labels of known findings, index = Ctx::known
  uint64_t reserved = 0;                                    // address space taken before the workers start, on top of their limit
  bool isolate = false;                                     // run each task in a process of its own, so that the history of a case is its task
};

inline Harness*& H() { static Harness* h; return h; }

inline bool Ctx::go(const int* v, int n) {
  if (stopped()) return false;
  if (n > MAXV) { fprintf(stderr, "internal: case too long\n"); _exit(3); }
  sl->cur.scope = scope; sl->cur.n = n; memcpy(sl->cur.v, v, n * sizeof(int));
  sl->progress.store(sl->progress.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
  std::string msg;
  try {
    H()->scopes[scope].run(*this, v, n);
    sl->traces++; sl->cases[scope]++;
    if (!replay) {
      uint64_t k = sl->cases[scope] - 1;
      if (k == 0) sl->sample[scope][0] = sl->cur;
      else if ((k & (k - 1)) == 0) sl->sample[scope][1] = sl->cur;
    }
    return true;
  } catch (Fail& f) { msg = f.msg; }
  catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
  catch (...) { msg = "unexpected exception"; }
  if (!sl->failed.load()) {
    sl->fcase = sl->cur; snprintf(sl->msg, sizeof sl->msg, "%s", msg.c_str());
    sl->failed.store(1);
  }
  sh->stop.store(1);
  return false;
}

// ---------------------------------------------------------------- enumeration helpers
// all sequences of exactly L symbols from [0,k): task t fixes the first min(L,pre) symbols
struct SeqSpace {
  int k, L, pre;
  SeqSpace(int k_, int L_, int pre_ = 2) : k(k_), L(L_), pre(pre_ < L_ ? pre_ : L_) {}
  uint64_t ntasks() const { uint64_t r = 1; for (int i = 0; i < pre; i++) r *= k; return r; }
  uint64_t size() const { uint64_t r = 1; for (int i = 0; i < L; i++) r *= k; return r; }
  void task(Ctx& c, uint64_t t) const {
    std::vector<int> v(L);
    for (int i = pre - 1; i >= 0; i--) { v[i] = t % k; t /= k; }
    int m = L - pre;
    for (;;) {
      if (!c.go(v.data(), L)) return;
      int i = L - 1;
      while (i >= pre && ++v[i] == k) v[i--] = 0;
      if (i < pre) break;
    }
    (void)m;
  }
};
inline Scope seq_scope(const std::string& name, int k, int L, std::function<void(Ctx&, const int*, int)> run,
                       std::function<std::string(const int*, int)> show, int pre = 2) {
  SeqSpace s(k, L, pre);
  Scope r; r.name = name; r.bound = "all " + std::to_string(s.size()) + " sequences of " + std::to_string(L) + " from " + std::to_string(k) + " symbols";
  r.ntasks = s.ntasks(); r.expected = s.size(); r.run = run; r.show = show;
  r.run_task = [s](Ctx& c, uint64_t t) { s.task(c, t); };
  return r;
}
// all ints in [lo,hi), one int per case
inline Scope range_scope(const std::string& name, int64_t lo, int64_t hi, std::function<void(Ctx&, const int*, int)> run,
                         std::function<std::string(const int*, int)> show) {
  Scope r; r.name = name; r.bound = "all integers from " + std::to_string(lo) + " to " + std::to_string(hi - 1);
  const int64_t chunk = (hi - lo) > 4000000 ? 262144 : 4096;
  r.ntasks = (hi - lo + chunk - 1) / chunk; r.expected = hi - lo; r.run = run; r.show = show;
  r.run_task = [=](Ctx& c, uint64_t t) {
    int64_t a = lo + (int64_t)t * chunk, b = a + chunk < hi ? a + chunk : hi;
    for (int64_t x = a; x < b; x++) { int v = (int)x; if (!c.go(&v, 1)) return; }
  };
  return r;
}
// the full product of n pairs (i,j), i in [0,a), j in [0,b)
inline Scope pair_scope(const std::string& name, int a, int b, std::function<void(Ctx&, const int*, int)> run,
                        std::function<std::string(const int*, int)> show) {
  Scope r; r.name = name; r.bound = "all " + std::to_string((uint64_t)a * b) + " pairs (" + std::to_string(a) + " x " + std::to_string(b) + ")";
  r.ntasks = a; r.expected = (uint64_t)a * b; r.run = run; r.show = show;
  r.run_task = [=](Ctx& c, uint64_t t) { for (int j = 0; j < b; j++) { int v[2] = {(int)t, j}; if (!c.go(v, 2)) return; } };
  return r;
}
// explicit list of cases produced lazily per task
inline Scope list_scope(const std::string& name, const std::string& bound, uint64_t ntasks, std::function<void(Ctx&, uint64_t)> rt,
                        std::function<void(Ctx&, const int*, int)> run, std::function<std::string(const int*, int)> show, uint64_t expected = 0) {
  Scope r; r.name = name; r.bound = bound; r.ntasks = ntasks; r.run_task = rt; r.run = run; r.show = show; r.expected = expected;
  return r;
}

inline uint64_t hmix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
template <class C> uint64_t hseq(const C& c, uint64_t h = 1469598103934665603ull) { for (auto x : c) h = hmix(h, (uint64_t)(uint32_t)x); return h; }

// ---------------------------------------------------------------- driver
inline std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r;
}
inline std::string jcase(const CaseRec& c) {
  std::string s = "{\"scope\":\"" + jesc(H()->scopes[c.scope].name) + "\",\"v\":[";
  for (int i = 0; i < c.n; i++) { if (i) s += ","; s += std::to_string(c.v[i]); }
  s += "],\"text\":\"" + jesc(H()->scopes[c.scope].show ? H()->scopes[c.scope].show(c.v, c.n) : std::string()) + "\"}";
  return s;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double cpu_of(pid_t p) {
  clockid_t c; timespec t;
  if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0;
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline void limit_memory() {
#if !defined(__SANITIZE_ADDRESS__)
  rlimit r = {(3ull << 30) + H()->reserved, (3ull << 30) + H()->reserved}; setrlimit(RLIMIT_AS, &r);
#endif
  rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
}

// runs one case alone (or a whole task, task >= 0) in a child; returns 0 held, 1 failed (msg filled), 2 crashed, 3 hung
inline int replay_one(Shared* sh, const CaseRec& c, std::string& msg, double limit, long task = -1) {
  Slot* sl = &sh->slot[MAXW - 1];
  sl->failed.store(0); sl->msg[0] = 0; sh->stop.store(0);
  pid_t p = fork();
  if (p == 0) {
    limit_memory();
    Ctx x; x.sh = sh; x.sl = sl; x.scope = c.scope; x.replay = true;
    CaseRec copy = c;
    if (task >= 0) H()->scopes[c.scope].run_task(x, (uint64_t)task);
    else x.go(copy.v, copy.n);
    _exit(0);
  }
  for (;;) {
    int st; pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) {
      if (sl->failed.load()) { msg = sl->msg; return 1; }
      if (WIFSIGNALED(st)) { msg = std::string("crashed: ") + strsignal(WTERMSIG(st)); return 2; }
      if (WEXITSTATUS(st)) { msg = "aborted (exit status " + std::to_string(WEXITSTATUS(st)) + ")"; return 2; }
      return 0;
    }
    if (cpu_of(p) > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); msg = "does not terminate (" + std::to_string((int)limit) + " s of CPU time)"; return 3; }
    usleep(2000);
  }
}

inline int run_main(Harness& h, int argc, char** argv) {
  H() = &h;
  long rtask = -1;
  int jobs = 8; const char* out = nullptr; std::vector<int> rv; std::string rscope; bool replay = false;
  double hang = 20;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--task") rtask = atol(argv[++i]);
    else if (a == "--replay") { replay = true; rscope = argv[++i]; while (i + 1 < argc && (argv[i + 1][0] != '-' || argv[i + 1][1] != '-')) rv.push_back((int)strtoll(argv[++i], 0, 10)); }
  }
  if (jobs > MAXW - 1) jobs = MAXW - 1;
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 3; }
  if (h.scopes.size() > MAXSCOPE) { fprintf(stderr, "too many scopes\n"); return 3; }

  if (replay) {
    CaseRec c; c.scope = -1; c.n = (int)rv.size();
    for (size_t s = 0; s < h.scopes.size(); s++) if (h.scopes[s].name == rscope) c.scope = (int)s;
    if (c.scope < 0) { fprintf(stderr, "unknown scope %s\n", rscope.c_str()); return 3; }
    memcpy(c.v, rv.data(), rv.size() * sizeof(int));
    std::string msg; int r = replay_one(sh, c, msg, 60, rtask);
    printf("%s\n%s\n", jcase(c).c_str(), r ? ("FAILS: " + msg).c_str() : "holds");
    return r ? 1 : 0;
  }

  double t0 = now();
  std::vector<std::pair<int, uint64_t>> tasks;
  for (size_t s = 0; s < h.scopes.size(); s++) for (uint64_t t = 0; t < h.scopes[s].ntasks; t++) tasks.push_back({(int)s, t});
  std::vector<pid_t> pid(jobs); std::vector<uint64_t> last(jobs, 0); std::vector<double> lastcpu(jobs, 0); std::vector<int> live(jobs, 1);
  fflush(stdout); fflush(stderr);
  auto start = [&](int w) {
    pid[w] = fork();
    if (pid[w] == 0) {
      limit_memory();
      Ctx c; c.sh = sh; c.sl = &sh->slot[w];
      for (;;) {
        uint64_t t = sh->next.fetch_add(1);
        if (t >= tasks.size() || c.stopped()) break;
        c.scope = tasks[t].first; c.sl->task = tasks[t].second;
        h.scopes[c.scope].run_task(c, tasks[t].second);
        if (h.isolate) break;
      }
      fflush(stdout); _exit(0);
    }
  };
  for (int w = 0; w < jobs; w++) start(w);
  int nlive = jobs; bool internal = false;
  while (nlive) {
    usleep(h.isolate ? 200 : 3000);
    for (int w = 0; w < jobs; w++) if (live[w]) {
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
      Slot& sl = sh->slot[w];
      if (r == pid[w]) {
        if (h.isolate && WIFEXITED(st) && !WEXITSTATUS(st) && !sh->stop.load() && sh->next.load() < tasks.size()) { lastcpu[w] = 0; start(w); continue; }
        live[w] = 0; nlive--;
        if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
          if (WIFEXITED(st) && WEXITSTATUS(st) == 3) internal = true;
          if (!sl.failed.load()) { sl.fcase = sl.cur; snprintf(sl.msg, sizeof sl.msg, "crashed"); sl.failed.store(2); }
          sh->stop.store(1);
        }
        continue;
      }
      uint64_t p = sl.progress.load(); double cpu = cpu_of(pid[w]);
      if (p != last[w]) { last[w] = p; lastcpu[w] = cpu; }
      else if (p && cpu - lastcpu[w] > hang) {
        kill(pid[w], SIGKILL);
        if (!sl.failed.load()) { sl.fcase = sl.cur; snprintf(sl.msg, sizeof sl.msg, "hang"); sl.failed.store(3); }
        sh->stop.store(1);
      }
    }
  }
  if (internal) { fprintf(stderr, "internal error in a worker\n"); return 3; }
  uint64_t states = 0, trans = 0, traces = 0, nontriv = 0, cut = 0; std::vector<uint64_t> cases(h.scopes.size(), 0), known(h.known.size(), 0);
  int best = -1;
  for (int w = 0; w < jobs; w++) {
    Slot& sl = sh->slot[w]; states += sl.states; trans += sl.transitions; traces += sl.traces; nontriv += sl.nontrivial; cut += sl.cut;
    for (size_t s = 0; s < h.scopes.size(); s++) cases[s] += sl.cases[s];
    for (size_t s = 0; s < h.known.size(); s++) known[s] += sl.known[s];
    if (sl.failed.load()) {
      auto key = [&](int x) { Slot& q = sh->slot[x]; std::vector<long> k{q.fcase.scope, q.fcase.n}; for (int i = 0; i < q.fcase.n; i++) k.push_back(q.fcase.v[i]); return k; };
      if (best < 0 || key(w) < key(best)) best = w;
    }
  }
  uint64_t distinct = 0;
  for (size_t i = 0; i < sizeof sh->out; i++) distinct += __builtin_popcount(sh->out[i]);
  std::string viol; int rc = 0;
  if (best >= 0) {
    // replay before report: every worker's failure is a candidate, smallest first
    std::vector<std::pair<std::vector<long>, int>> cand;
    for (int w = 0; w < jobs; w++) if (sh->slot[w].failed.load()) {
      Slot& q = sh->slot[w]; std::vector<long> k{q.fcase.scope, q.fcase.n}; for (int i = 0; i < q.fcase.n; i++) k.push_back(q.fcase.v[i]);
      cand.push_back({k, w});
    }
    std::sort(cand.begin(), cand.end());
    rc = 3;
    for (auto& c : cand) {
      CaseRec fc = sh->slot[c.second].fcase; std::string first = sh->slot[c.second].msg, msg;
      int r = replay_one(sh, fc, msg, 60), r2 = 0; std::string msg2;
      if (r) r2 = replay_one(sh, fc, msg2, 60);
      if (r && r2) { viol = "{\"case\":" + jcase(fc) + ",\"message\":\"" + jesc(msg) + "\",\"scope_bound\":\"" + jesc(h.scopes[fc.scope].bound) + "\"}"; rc = 1; break; }
      if (!r || !r2) {   // not a property of the case alone: with the cases of its task that ran before it, in a new process
        std::string m1, m2; long task = (long)sh->slot[c.second].task;
        if (replay_one(sh, fc, m1, 300, task)) { CaseRec f1 = sh->slot[MAXW - 1].failed.load() ? sh->slot[MAXW - 1].fcase : sh->slot[MAXW - 1].cur;
          if (replay_one(sh, fc, m2, 300, task)) { viol = "{\"case\":" + jcase(f1) + ",\"task\":" + std::to_string(task) + ",\"message\":\"" + jesc(m1 + " (after the earlier cases of task " + std::to_string(task) + ", not alone)") + "\",\"scope_bound\":\"" + jesc(h.scopes[fc.scope].bound) + "\"}"; rc = 1; break; } }
      }
      fprintf(stderr, "not reproduced alone: %s: %s\n", jcase(fc).c_str(), first.c_str());
    }
  } else {
    for (size_t s = 0; s < h.scopes.size(); s++)
      if (h.scopes[s].expected && cases[s] != h.scopes[s].expected) {
        fprintf(stderr, "scope %s: %llu cases explored, %llu expected\n", h.scopes[s].name.c_str(), (unsigned long long)cases[s], (unsigned long long)h.scopes[s].expected);
        rc = 3;
      } else if (!cases[s]) { fprintf(stderr, "scope %s explored nothing\n", h.scopes[s].name.c_str()); rc = 3; }
  }
  std::string j = "{\"states\":" + std::to_string(states) + ",\"transitions\":" + std::to_string(trans) + ",\"cut\":" + std::to_string(cut) + ",\"traces\":" + std::to_string(traces) +
    ",\"nontrivial\":" + std::to_string(nontriv) + ",\"distinct_outcomes\":" + std::to_string(distinct) + ",\"wall\":" + std::to_string(now() - t0) + ",\"scopes\":[";
  for (size_t s = 0; s < h.scopes.size(); s++) {
    if (s) j += ",";
    j += "{\"name\":\"" + jesc(h.scopes[s].name) + "\",\"bound\":\"" + jesc(h.scopes[s].bound) + "\",\"cases\":" + std::to_string(cases[s]) + ",\"samples\":[";
    int bw = -1;
    for (int w = 0; w < jobs; w++) if (sh->slot[w].cases[s] && (bw < 0 || sh->slot[w].cases[s] > sh->slot[bw].cases[s])) bw = w;
    if (bw >= 0) { j += jcase(sh->slot[bw].sample[s][0]); if (sh->slot[bw].cases[s] > 1) j += "," + jcase(sh->slot[bw].sample[s][1]); }
    j += "]}";
  }
  j += "],\"known\":[";
  for (size_t s = 0; s < h.known.size(); s++) { if (s) j += ","; j += "{\"label\":\"" + jesc(h.known[s]) + "\",\"hits\":" + std::to_string(known[s]) + "}"; }
  j += "],\"violation\":" + (viol.empty() ? std::string("null") : viol) + "}\n";
  if (out) { FILE* f = fopen(out, "w"); if (!f) { perror(out); return 3; } fputs(j.c_str(), f); fclose(f); }
  else fputs(j.c_str(), stdout);
  return rc;
}

}  // namespace mc
