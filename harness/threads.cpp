// T01: a controlled scheduler and a happens-before monitor under the real library code.
//
// The library and harness/threads_ops.cpp are compiled with the compiler's thread-sanitizer instrumentation, but linked with
// the runtime below: every access to memory that is not the thread's own stack comes here. Real threads run one at a time;
// only the running thread decides who runs next. Each execution happens in a process of its own.
//
// Two accesses to the same octet from different threads, one of them a write, not both atomic and not ordered by
// synchronisation, are a data race, and reported. Reduction: in a program without data races the order of ordinary accesses
// follows from the order of the synchronising ones, so it is enough to switch threads before synchronising operations: atomic
// accesses to octets that another thread also accesses, taking a lock, beginning a one-time initialisation (releasing is
// visible only to who takes). All schedules that switch there are explored, up to a number of preemptions. A program whose
// threads do not synchronise has one class of schedules, and one execution decides it. The scope "unreduced" does without this.
#include <deque>
#include <dlfcn.h>
#include <malloc.h>
#include <link.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include "mc.hpp"
#include "threads.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
typedef uintptr_t U;

enum { MAXT = 3, MAXDEC = 60000, MAXCONF = 8192, SHBITS = 12, BLOCK = 64, NBLOCK = 1 << 13 };
struct Dec { unsigned char chosen, nopt, preempt; };           // preempt: alternatives cost a preemption
struct Result {
  int ok; char msg[1500]; int ndec; Dec dec[MAXDEC]; int nconf; U conf[MAXCONF]; int overflow; uint64_t accesses, sync, points; int nout[MAXT]; int out[MAXT][4000];
};
static Result* R;

// ---------------------------------------------------------------- one execution
struct Thr { pthread_t th; sem_t sem; U lo, hi; unsigned vc[MAXT]; bool done, blocked; U waits; std::vector<int> ops; char* arena; char* top; int run; };
static Thr T[MAXT]; static int NT; static int running_; static const unsigned char* plan_; static int nplan_;
static std::vector<U> points_; static bool all_points_;       // octets at which to offer a switch; or every access outside own memory
static __thread int cur = -1; static __thread bool inrt = false;
static struct Seg { U lo, hi; } ro_[32]; static int nro_;
struct Sh { unsigned w[MAXT], r[MAXT], aw[MAXT], ar[MAXT]; };
struct Block { U base; int next; Sh b[BLOCK]; };               // the accesses to BLOCK consecutive octets
static Block* shadow_; static int nshadow_; static int head_[1 << SHBITS]; static Block* last_;
[[noreturn]] static void shadow_full();
static Sh& shadow(U x) {
  U base = x & ~(U)(BLOCK - 1); if (last_ && last_->base == base) return last_->b[x - base];
  U h = (base * 0x9E3779B97F4A7C15ull) >> (64 - SHBITS);
  for (int i = head_[h]; i; i = shadow_[i].next) if (shadow_[i].base == base) return (last_ = &shadow_[i])->b[x - base];
  if (nshadow_ == NBLOCK) shadow_full();
  Block& n = shadow_[nshadow_]; n.base = base; n.next = head_[h]; head_[h] = nshadow_++; return (last_ = &n)->b[x - base];
}
struct Sync { U a; unsigned vc[MAXT]; int owner; int readers; int state; };
static Sync sync_[512]; static int nsync_;
static char* arena_base_; enum : size_t { ARENA = 64u << 20 };
static bool in_arena(void* p) { return arena_base_ && (char*)p >= arena_base_ && (char*)p < arena_base_ + ARENA * MAXT; }

[[noreturn]] static void finish(const char* msg) {
  snprintf(R->msg, sizeof R->msg, "%s", msg); R->ok = 0; _exit(0);
}
static void shadow_full() { finish("internal: shadow memory full"); }
static const char* where(void* pc) {
  static char b[4][200]; static int k; char* s = b[k++ & 3]; Dl_info i;
  if (dladdr(pc, &i) && i.dli_sname) snprintf(s, 200, "%s", i.dli_sname); else snprintf(s, 200, "%p", pc);
  return s;
}
static int enabled(int t) { return !T[t].done && !T[t].blocked; }
// the running thread (me) offers a switch; `free` if it cannot go on itself
static void decide(int me, bool must) {
  int opt[MAXT], n = 0;
  if (!must && enabled(me)) opt[n++] = me;
  for (int t = 0; t < NT; t++) if (t != me && enabled(t)) opt[n++] = t;
  if (!n) { for (int t = 0; t < NT; t++) if (!T[t].done) finish("the threads block each other for ever"); return; }
  int c = 0;
  if (n > 1) {
    if (R->ndec < nplan_) c = plan_[R->ndec];
    if (c >= n) c = 0;
    if (R->ndec >= MAXDEC) finish("internal: too many scheduling points");
    R->dec[R->ndec++] = {(unsigned char)c, (unsigned char)n, (unsigned char)(!must && opt[0] == me)};
  }
  int next = opt[c];
  if (next != me) {
    running_ = next; T[me].run = 0; sem_post(&T[next].sem);
    if (!T[me].done) { while (sem_wait(&T[me].sem)) {} }
  }
}
static void point() {
  Thr& t = T[cur]; R->points++;
  if (++t.run > 3000) {   // waiting in a loop: let the others go on
    t.run = 0; bool other = false; for (int i = 0; i < NT; i++) if (i != cur && enabled(i)) other = true;
    static int spins; if (!other || ++spins > 2000) finish("a thread waits for ever"); decide(cur, true); return;
  }
  decide(cur, false);
}
static Sync& sync(U a) {
  for (int i = 0; i < nsync_; i++) if (sync_[i].a == a) return sync_[i];
  if (nsync_ == 512) finish("internal: too many synchronisation objects");
  Sync& s = sync_[nsync_++]; memset(&s, 0, sizeof s); s.a = a; s.owner = -1; return s;
}
static void acquire(Sync& s) { for (int i = 0; i < MAXT; i++) if (s.vc[i] > T[cur].vc[i]) T[cur].vc[i] = s.vc[i]; }
static void release(Sync& s) { for (int i = 0; i < MAXT; i++) if (T[cur].vc[i] > s.vc[i]) s.vc[i] = T[cur].vc[i]; T[cur].vc[cur]++; }
static void block_on(U a) { T[cur].blocked = true; T[cur].waits = a; decide(cur, true); }
static void wake(U a) { for (int i = 0; i < NT; i++) if (T[i].blocked && T[i].waits == a) T[i].blocked = false; }

static void access(const void* p, size_t n, bool write, bool atomic, void* pc) {
  if (cur < 0 || inrt) return;
  U a = (U)p; Thr& t = T[cur];
  if (a >= t.lo && a < t.hi) return;                                        // own stack
  for (int i = 0; i < nro_; i++) if (a >= ro_[i].lo && a + n <= ro_[i].hi) { R->accesses++; return; }   // can be written by no one
  inrt = true; R->accesses++;
  bool mine = a >= (U)t.arena && a < (U)t.arena + ARENA;
  bool pt = all_points_ && !mine;
  if (!pt) for (size_t i = 0; i < n && !pt; i++) pt = std::binary_search(points_.begin(), points_.end(), a + i);
  if (pt) point();
  for (size_t i = 0; i < n; i++) {
    U x = a + i; Sh& s = shadow(x);
    for (int u = 0; u < NT; u++) if (u != cur) {
      unsigned seen = t.vc[u];
      bool race = s.w[u] > seen || (write && !atomic && (s.r[u] > seen || s.ar[u] > seen || s.aw[u] > seen)) || (!atomic && s.aw[u] > seen) || (write && atomic && s.r[u] > seen);
      if (race) {
        static char b[700]; Dl_info di; const char* obj = dladdr((void*)x, &di) && di.dli_sname ? di.dli_sname : "memory shared by the threads";
        snprintf(b, sizeof b, "data race: thread %d %s %s in %s, thread %d accessed it without synchronisation", cur, write ? "writes" : "reads", obj, where(pc), u); finish(b);
      }
    }
    unsigned* f = atomic ? (write ? s.aw : s.ar) : (write ? s.w : s.r); f[cur] = t.vc[cur];
  }
  inrt = false;
}
#define PC __builtin_return_address(0)
#define RW(n) \
  extern "C" void __tsan_read##n(void* p) { access(p, n, false, false, PC); } extern "C" void __tsan_write##n(void* p) { access(p, n, true, false, PC); } \
  extern "C" void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); } extern "C" void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); } \
  extern "C" void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); } extern "C" void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); } \
  extern "C" void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, false, PC); } extern "C" void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); }
extern "C" void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, PC); }
extern "C" void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
extern "C" void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static void at(const void* p, size_t n, bool write, int mo, bool rd, void* pc) {
  if (cur < 0 || inrt) return;
  access(p, n, write, true, pc); R->sync++;
  mo &= 0xFF; Sync& s = sync((U)p);
  if (rd && (mo == MO_CONSUME || mo == MO_ACQUIRE || mo >= MO_ACQ_REL)) acquire(s);
  if (write) { if (mo >= MO_RELEASE) { if (!rd) memset(s.vc, 0, sizeof s.vc); release(s); } else if (!rd) memset(s.vc, 0, sizeof s.vc); }
}
#define AT(b, ty) \
  extern "C" ty __tsan_atomic##b##_load(const volatile ty* p, int mo) { at((void*)p, b / 8, false, mo, true, PC); return *p; } \
  extern "C" void __tsan_atomic##b##_store(volatile ty* p, ty v, int mo) { at((void*)p, b / 8, true, mo, false, PC); *p = v; } \
  extern "C" ty __tsan_atomic##b##_exchange(volatile ty* p, ty v, int mo) { at((void*)p, b / 8, true, mo, true, PC); ty o = *p; *p = v; return o; } \
  extern "C" ty __tsan_atomic##b##_fetch_add(volatile ty* p, ty v, int mo) { at((void*)p, b / 8, true, mo, true, PC); ty o = *p; *p = o + v; return o; } \
  extern "C" ty __tsan_atomic##b##_fetch_sub(volatile ty* p, ty v, int mo) { at((void*)p, b / 8, true, mo, true, PC); ty o = *p; *p = o - v; return o; } \
  extern "C" ty __tsan_atomic##b##_fetch_and(volatile ty* p, ty v, int mo) { at((void*)p, b / 8, true, mo, true, PC); ty o = *p; *p = o & v; return o; } \
  extern "C" ty __tsan_atomic##b##_fetch_or(volatile ty* p, ty v, int mo) { at((void*)p, b / 8, true, mo, true, PC); ty o = *p; *p = o | v; return o; } \
  extern "C" ty __tsan_atomic##b##_fetch_xor(volatile ty* p, ty v, int mo) { at((void*)p, b / 8, true, mo, true, PC); ty o = *p; *p = o ^ v; return o; } \
  extern "C" ty __tsan_atomic##b##_fetch_nand(volatile ty* p, ty v, int mo) { at((void*)p, b / 8, true, mo, true, PC); ty o = *p; *p = ~(o & v); return o; } \
  extern "C" bool __tsan_atomic##b##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int) { at((void*)p, b / 8, true, mo, true, PC); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
  extern "C" bool __tsan_atomic##b##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int mo, int) { at((void*)p, b / 8, true, mo, true, PC); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
  extern "C" ty __tsan_atomic##b##_compare_exchange_val(volatile ty* p, ty e, ty v, int mo, int) { at((void*)p, b / 8, true, mo, true, PC); ty o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int mo) { if (cur >= 0 && !inrt) { Sync& s = sync(1); R->sync++; acquire(s); release(s); } }
extern "C" void __tsan_atomic_signal_fence(int) {}

// C library functions that read and write on behalf of the instrumented code
extern "C" {
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (cur >= 0 && !inrt && n) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (cur >= 0 && !inrt && n) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (cur >= 0 && !inrt && n) access(d, n, true, false, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (cur >= 0 && !inrt && n) { access(a, n, false, false, PC); access(b, n, false, false, PC); } return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { if (cur >= 0 && !inrt && n) access(a, n, false, false, PC); return __real_memchr(a, c, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); access(s, n + 1, false, false, PC); return n; }
static void* get(size_t n); static void put(void* p);
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_qsort(void*, size_t, size_t, int (*)(const void*, const void*));
void* __wrap_malloc(size_t n) { return cur < 0 || inrt ? __real_malloc(n) : get(n); }
void* __wrap_calloc(size_t n, size_t k) { return cur < 0 || inrt ? __real_calloc(n, k) : get(n * k); }      // never handed out before: zero
void __wrap_free(void* p) { put(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!in_arena(p) && (cur < 0 || inrt)) return __real_realloc(p, n);
  void* q = get(n); if (p && in_arena(p)) { size_t k = ((size_t*)p)[-1]; __real_memcpy(q, p, k < n ? k : n); } else if (p) __real_memcpy(q, p, std::min(n, malloc_usable_size(p))); return q;
}
void __wrap_qsort(void* b, size_t n, size_t k, int (*f)(const void*, const void*)) { if (cur >= 0 && !inrt && n) access(b, n * k, true, false, PC); __real_qsort(b, n, k, f); }
// locks
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
static int lock(void* m, bool shared, bool wait) {
  bool was = inrt; inrt = true; R->sync++; point(); int r = 0;
  for (;;) { Sync& s = sync((U)m); if (s.owner < 0 && (shared || !s.readers)) { if (shared) s.readers++; else s.owner = cur; acquire(s); break; } if (!wait) { r = EBUSY; break; } block_on((U)m); }
  inrt = was; return r;
}
static int unlock(void* m) { bool was = inrt; inrt = true; R->sync++; Sync& s = sync((U)m); if (s.owner == cur) s.owner = -1; else if (s.readers) s.readers--; release(s); wake((U)m); inrt = was; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return cur < 0 || inrt ? __real_pthread_mutex_lock(m) : lock(m, false, true); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return cur < 0 || inrt ? __real_pthread_mutex_trylock(m) : lock(m, false, false); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return cur < 0 || inrt ? __real_pthread_mutex_unlock(m) : unlock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return cur < 0 || inrt ? __real_pthread_rwlock_rdlock(m) : lock(m, true, true); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return cur < 0 || inrt ? __real_pthread_rwlock_wrlock(m) : lock(m, false, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return cur < 0 || inrt ? __real_pthread_rwlock_unlock(m) : unlock(m); }
// one-time initialisation: 0 not done, 1 being done, 2 done
static bool once_begin(U a, bool done) {
  bool was = inrt; inrt = true; R->sync++; point(); bool r;
  for (;;) { Sync& s = sync(a); if (done || s.state == 2) { acquire(s); r = false; break; } if (!s.state) { s.state = 1; acquire(s); r = true; break; } block_on(a); }
  inrt = was; return r;
}
static void once_end(U a, int state) { bool was = inrt; inrt = true; R->sync++; Sync& s = sync(a); s.state = state; release(s); wake(a); inrt = was; }
int __real___cxa_guard_acquire(char*); void __real___cxa_guard_release(char*); void __real___cxa_guard_abort(char*);
int __wrap___cxa_guard_acquire(char* g) { if (cur < 0 || inrt) return __real___cxa_guard_acquire(g); return once_begin((U)g, *g == 1); }
void __wrap___cxa_guard_release(char* g) { if (cur < 0 || inrt) return __real___cxa_guard_release(g); *g = 1; once_end((U)g, 2); }
void __wrap___cxa_guard_abort(char* g) { if (cur < 0 || inrt) return __real___cxa_guard_abort(g); once_end((U)g, 0); }
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { if (cur < 0 || inrt) return __real_pthread_once(o, f); if (once_begin((U)o, *o == 2)) { f(); *o = 2; once_end((U)o, 2); } return 0; }
int __wrap_pthread_cond_wait(void*, void*) { finish("internal: condition variables are not modelled"); }
}
// memory: each thread has its own region and never reuses it, so that an address means the same thing in every schedule
static void* get(size_t n) { if (cur < 0 || inrt) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } Thr& t = T[cur]; size_t k = n; n = (n + 47) & ~(size_t)15; if (t.top + n > t.arena + ARENA) throw std::bad_alloc(); char* p = t.top + 16; ((size_t*)p)[-1] = k; t.top += n; return p; }
static void put(void* p) { if (!in_arena(p)) __real_free(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

static int segments(dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum && nro_ < 32; k++) { auto& p = i->dlpi_phdr[k]; if ((p.p_type == PT_LOAD && !(p.p_flags & PF_W)) || p.p_type == PT_GNU_RELRO) { U lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz; if (p.p_type == PT_GNU_RELRO) hi &= ~(U)4095; if (hi > lo) ro_[nro_++] = {lo, hi}; } }
  return 0;
}
static void* body(void* a) {
  long me = (long)a; Thr& t = T[me]; pthread_attr_t at; void* sp; size_t sz;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sp, &sz); pthread_attr_destroy(&at); t.lo = (U)sp; t.hi = (U)sp + sz;
  while (sem_wait(&t.sem)) {}
  bool bad = false; cur = (int)me;
  { std::vector<int> out;
    try { for (size_t i = 0; i < t.ops.size(); i++) t01_op(t.ops[i] / T01_VARIANTS, t.ops[i] % T01_VARIANTS, out); } catch (...) { bad = true; }
    inrt = true; if (bad) { R->nout[me] = 1; R->out[me][0] = -666; } else { R->nout[me] = (int)std::min(out.size(), (size_t)4000); for (int i = 0; i < R->nout[me]; i++) R->out[me][i] = out[i]; } inrt = false; }
  inrt = true; t.done = true; decide((int)me, true); cur = -1; inrt = false;
  return nullptr;
}
typedef std::vector<std::vector<int>> Prog;     // per thread: operations (op * variants + variant)
// executes one schedule in this process and leaves
[[noreturn]] static void execute(const Prog& p, int first, const std::vector<int>& warm) {
  t01_setup();
  std::vector<int> sink; for (int w : warm) t01_op(w / T01_VARIANTS, w % T01_VARIANTS, sink);
  nro_ = 0; dl_iterate_phdr(segments, nullptr);
  shadow_ = (Block*)mmap(nullptr, sizeof(Block) * NBLOCK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arena_base_ = (char*)mmap(nullptr, ARENA * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shadow_ == MAP_FAILED || arena_base_ == MAP_FAILED) { perror("mmap"); _exit(3); }
  nshadow_ = 1; NT = (int)p.size(); R->ndec = R->nconf = R->overflow = 0; R->msg[0] = 0; R->ok = 1; R->accesses = R->sync = R->points = 0; nsync_ = 0;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 << 10);
  for (int t = 0; t < NT; t++) { T[t].ops = p[t]; T[t].done = T[t].blocked = false; T[t].run = 0; T[t].arena = T[t].top = arena_base_ + ARENA * t; memset(T[t].vc, 0, sizeof T[t].vc); T[t].vc[t] = 1; sem_init(&T[t].sem, 0, 0); }
  for (long t = 0; t < NT; t++) if (pthread_create(&T[t].th, &at, body, (void*)t)) { perror("pthread_create"); _exit(3); }
  running_ = first; sem_post(&T[first].sem);
  for (int t = 0; t < NT; t++) pthread_join(T[t].th, nullptr);
  for (int i = 1; i < nshadow_; i++) for (int k = 0; k < BLOCK; k++) {
    Sh& s = shadow_[i].b[k]; int any = 0, wr = 0, at = 0; for (int t = 0; t < NT; t++) { any += (s.w[t] || s.r[t] || s.aw[t] || s.ar[t]); wr += (s.w[t] || s.aw[t]); at += (s.aw[t] || s.ar[t]); }
    if (any > 1 && wr && at) {   // those that are not atomic are ordered by synchronisation, or a race and found as such
      if (R->nconf < MAXCONF) R->conf[R->nconf++] = shadow_[i].base + k; else R->overflow = 1; }
  }
  _exit(0);
}
static void spawn(const Prog& p, int first, const std::vector<unsigned char>& plan, const std::set<U>& pts, bool allp, const std::vector<int>& warm) {
  R->ok = -1; R->msg[0] = 0;
  pid_t pid = fork();
  if (!pid) { alarm(120); plan_ = plan.data(); nplan_ = (int)plan.size(); points_.assign(pts.begin(), pts.end()); all_points_ = allp; execute(p, first, warm); }
  int st; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) fail("a schedule crashed: %s", strsignal(WTERMSIG(st)));
  if (WEXITSTATUS(st) || R->ok < 0) { fprintf(stderr, "internal: an execution failed to start\n"); _exit(3); }
  if (!R->ok && !strncmp(R->msg, "internal", 8)) { fprintf(stderr, "%s\n", R->msg); _exit(3); }
}
static std::string describe(const Prog& p) { std::string s; for (size_t t = 0; t < p.size(); t++) { s += t ? " | " : ""; for (size_t i = 0; i < p[t].size(); i++) s += std::string(i ? ", then " : "") + t01_name[p[t][i] / T01_VARIANTS] + (p[t][i] % T01_VARIANTS ? " (second text)" : ""); } return s; }
static std::vector<int> alone(const std::vector<int>& ops) {
  static std::map<std::vector<int>, std::vector<int>> memo; auto it = memo.find(ops); if (it != memo.end()) return it->second;
  spawn(Prog{ops}, 0, {}, {}, false, {}); if (!R->ok) fail("%s alone: %s", describe(Prog{ops}).c_str(), R->msg);
  return memo[ops] = std::vector<int>(R->out[0], R->out[0] + R->nout[0]);
}
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
static const time_t started = time(nullptr);
static bool late() { return time(nullptr) - started > (thorough() ? 450 : 200); }
// explores every schedule of the program up to `bound` preemptions at the scheduling points
static void explore(Ctx& c, const Prog& p, int bound, bool allp, const std::vector<int>& warm) {
  std::vector<std::vector<int>> want; for (auto& t : p) want.push_back(alone(t));
  std::set<U> pts; uint64_t schedules = 0; bool again = true, interacts = false; const uint64_t LIMIT = thorough() ? 10000 : 5000;
  auto verify = [&](int first, const std::vector<unsigned char>& plan) {
    schedules++; c.step();
    if (!R->ok) fail("%s: %s (schedule: thread %d first, %zu planned decisions)", describe(p).c_str(), R->msg, first, plan.size());
    for (size_t t = 0; t < p.size(); t++) if (std::vector<int>(R->out[t], R->out[t] + R->nout[t]) != want[t]) fail("%s: thread %zu gets another result than alone (thread %d first, %zu planned decisions, %d made)", describe(p).c_str(), t, first, plan.size(), R->ndec);
    c.outcome(mc::hmix(R->ndec, R->accesses));
  };
  int complete = bound;
  while (again) {
    again = false; complete = bound;
    for (int first = 0; first < (int)p.size() && !again; first++) {
      if (first && !allp && !interacts) break;                  // one class of interleavings: the first execution decided it
      std::deque<std::vector<unsigned char>> work[8]; work[0].push_back({});   // by preemptions used
      for (int used = 0; used <= bound && !again; used++) while (!work[used].empty() && !again) {
        // only code that synchronises a lot gets here: give up the deepest bound
        if (schedules >= (late() ? 8 : LIMIT)) { complete = std::min(complete, used - 1); break; }
        std::vector<unsigned char> plan = work[used].front(); work[used].pop_front();
        spawn(p, first, plan, pts, allp, warm); verify(first, plan);
        if (R->sync || R->nconf || R->overflow) interacts = true;
        size_t before = pts.size(); for (int i = 0; i < R->nconf; i++) pts.insert(R->conf[i]);
        if (pts.size() != before) { again = true; break; }     // more dependent accesses: explore again with them
        std::vector<unsigned char> base; for (int i = 0; i < R->ndec; i++) base.push_back(R->dec[i].chosen);
        for (int i = (int)plan.size(); i < R->ndec; i++) { int u = used + (R->dec[i].preempt ? 1 : 0); if (u > bound) continue; if (work[u].size() > LIMIT) { complete = std::min(complete, u - 1); continue; }
          for (int k = 1; k < R->dec[i].nopt; k++) { std::vector<unsigned char> n(base.begin(), base.begin() + i); n.push_back(k); work[u].push_back(std::move(n)); } }
      }
    }
  }
  if (complete < bound) c.cut();
  c.state(); if (interacts || schedules > p.size()) c.nontrivial();
}
enum { NB = T01_OPS * T01_VARIANTS };
static std::vector<int> all_ops() { std::vector<int> r; for (int i = 0; i < NB; i++) r.push_back(i); return r; }

int main(int argc, char** argv) {
  mc::Harness h; int bound = thorough() ? 3 : 2;
  static const int REP[] = {0 * 2, 1 * 2 + 1, 2 * 2, 3 * 2 + 1, 4 * 2, 8 * 2, 10 * 2 + 1, 12 * 2, 14 * 2 + 1, 18 * 2, 20 * 2, 26 * 2}; enum { NREP = 12 };
  auto slot = [] { if (!R) { R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (R == MAP_FAILED) _exit(3); } };
  auto scope = [&](const std::string& name, const std::string& what, int k, int L, std::function<Prog(const int*)> mk, int bnd, bool allp, bool warm) {
    Scope s = mc::seq_scope(name, k, L, [=](Ctx& c, const int* v, int) { slot(); explore(c, mk(v), bnd, allp, warm ? all_ops() : std::vector<int>()); }, [=](const int* v, int) { return describe(mk(v)); }, 1);
    s.bound = what + ": " + s.bound + ", every schedule of dependent accesses and synchronisation up to " + std::to_string(bnd) + " preemptions" + (allp ? ", switching at every access outside the thread's own memory" : "");
    h.scopes.push_back(s);
  };
  scope("pairs", "two threads, one operation each, over the same texts", NB, 2, [](const int* v) { return Prog{{v[0]}, {v[1]}}; }, bound, false, false);
  scope("warm-pairs", "the same after every operation was called once before the threads start", NB, 2, [](const int* v) { return Prog{{v[0]}, {v[1]}}; }, bound, false, true);
  scope("sequences", "two threads, two operations each", NREP, 4, [](const int* v) { return Prog{{REP[v[0]], REP[v[1]]}, {REP[v[2]], REP[v[3]]}}; }, bound, false, false);
  scope("triples", "three threads, one operation each", thorough() ? (int)T01_OPS : (int)NREP, 3, [](const int* v) { return thorough() ? Prog{{v[0] * 2}, {v[1] * 2 + 1}, {v[2] * 2}} : Prog{{REP[v[0]]}, {REP[v[1]]}, {REP[v[2]]}}; }, 2, false, false);
  // without the reduction: offer a switch at every access that is not to the thread's own stack and memory
  scope("unreduced", "two threads, one operation each, no reduction", thorough() ? (int)T01_OPS : (int)NREP, 2, [](const int* v) { return thorough() ? Prog{{v[0] * 2}, {v[1] * 2 + 1}} : Prog{{REP[v[0]]}, {REP[v[1]]}}; }, 1, true, false);
  return run_main(h, argc, argv);
}
