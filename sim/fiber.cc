// Simulated threads (fibers), seeded scheduler, pthread seams, and the runtime behind
// -fsanitize=thread instrumentation: preemption points, heap checks, happens-before races.
#include "core.h"
#include "mem.h"
#include <sys/mman.h>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <cxxabi.h>
#include <map>
#include <vector>
#include <unordered_map>
#include <functional>
#include <link.h>

extern "C" char __libc_single_threaded;
extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {
bool g_race_detect = false;
uint64_t g_steps = 0, g_step_cap = 60000000;
void (*g_hook)() = nullptr; uint64_t g_hook_at = ~0ull;
void (*g_race_filter)(const void*, bool*) = nullptr;
static const int MAXF = 9; static const size_t STK = 512 << 10;
enum St { RUN, BLOCKED, SLEEP, DONE };
struct Fiber { void* sp = nullptr; char* stk = nullptr; size_t stksz = 0; St st = RUN; const void* on = nullptr; int64_t wake = 0; int depth = 0, err = 0; char eh[16]; std::function<void()> fn; uint32_t C[MAXF]; bool joinwait = false; };
static Fiber F[MAXF]; static int nf = 1, cur = 0; static uint64_t nsw = 0; static uint64_t nsync = 0;
static uint32_t preempt_mean = 0; static uint64_t preempt_at = ~0ull;
int self() { return cur; }
// ---- thread-local storage of the executable (code under test and harness): one copy per fiber ----
static char* tls_base = nullptr; static size_t tls_size = 0, tls_filesz = 0; static const void* tls_image = nullptr; static char* tls_save[MAXF];
static void tls_init() {
  if (tls_base) return;
  dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) -> int {
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_base = (char*)i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz; tls_filesz = i->dlpi_phdr[k].p_filesz; tls_image = (void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); }
    return 1; }, nullptr);   // the first object reported is the executable
  if (!tls_base) tls_base = (char*)1;
}
static inline bool in_tls(const void* p) { return tls_size && (char*)p >= tls_base && (char*)p < tls_base + tls_size; }
uint64_t switches() { return nsw; }
bool on_own_stack(const void* p) { return F[cur].stk && (char*)p >= F[cur].stk && (char*)p < F[cur].stk + F[cur].stksz; }

// ---- vector clocks / race shadow --------------------------------------------
typedef struct { uint32_t c[MAXF]; } VC;
static std::unordered_map<uintptr_t, VC>* syncs;
struct Gran { uint32_t w[MAXF], r[MAXF]; uint8_t wm[MAXF], rm[MAXF]; const void* wpc[MAXF]; const void* rpc[MAXF]; };
static std::unordered_map<uintptr_t, Gran>* grans;
static void vc_join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXF; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void sync_acquire(const void* a) { if (nf < 2) return; Scope s; auto it = syncs->find((uintptr_t)a); if (it != syncs->end()) vc_join(F[cur].C, it->second.c); }
static void sync_release(const void* a, bool join = true) { if (!syncs) { Scope s; syncs = new std::unordered_map<uintptr_t, VC>; } Scope s; VC& v = (*syncs)[(uintptr_t)a]; if (join) vc_join(v.c, F[cur].C); else memcpy(v.c, F[cur].C, sizeof v.c); F[cur].C[cur]++; }
void mem_forget(const void* p, size_t n) { if (!grans || grans->empty()) return; Scope s; uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n + 7) >> 3; if (b - a > 4096) { for (auto it = grans->begin(); it != grans->end();) if (it->first >= a && it->first < b) it = grans->erase(it); else ++it; return; } for (; a < b; ++a) grans->erase(a); }

static void race(const void* addr, size_t n, bool w, const void* pc, int other, bool ow, const void* opc) {
  bool ign = false; if (g_race_filter) g_race_filter(addr, &ign); if (ign) return;
  violation("data-race", "unsynchronised concurrent %s (%zu bytes) by thread %d [pc 0x%lx] and %s by thread %d [pc 0x%lx] to %s memory", w ? "write" : "read", n, cur, (unsigned long)pc, ow ? "write" : "read", other, (unsigned long)opc, alloc_owned(addr) ? "heap" : "static");
}
static void race_check(const void* p, size_t n, bool w, const void* pc) {
  if (on_own_stack(p) || in_tls(p) || p == (const void*)&errno) return;   // errno is saved per fiber
  Scope s;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    uintptr_t g = a >> 3; unsigned o = a & 7; unsigned k = (unsigned)std::min<uintptr_t>(8 - o, e - a); uint8_t m = (uint8_t)(((1u << k) - 1) << o);
    Gran& G = (*grans)[g]; uint32_t* C = F[cur].C;
    for (int u = 0; u < nf; ++u) if (u != cur) {
      if ((G.wm[u] & m) && G.w[u] > C[u]) race(p, n, w, pc, u, true, G.wpc[u]);
      if (w && (G.rm[u] & m) && G.r[u] > C[u]) race(p, n, w, pc, u, false, G.rpc[u]); }
    if (w) { G.w[cur] = C[cur]; G.wm[cur] = m; G.wpc[cur] = pc; } else { G.r[cur] = C[cur]; G.rm[cur] = m; G.rpc[cur] = pc; }
    a += k; }
}

// ---- scheduling ---------------------------------------------------------------
static void arm_preempt() {
  if (!preempt_mean) { preempt_at = ~0ull; return; }
  uint32_t r = choose(2 * preempt_mean + 1); preempt_at = r ? g_steps + r : ~0ull;
}
void set_preempt(uint32_t mean) { preempt_mean = mean; }
static void swap_to(int t) {
  if (t == cur) return;
  int f = cur; F[f].depth = g_depth; F[f].err = errno; memcpy(F[f].eh, __cxxabiv1::__cxa_get_globals(), 16);
  ++nsw; unsigned char h[2] = {(unsigned char)t, (unsigned char)f}; note_hash(h, 2); note_hash(&g_steps, 8);
  if (tls_size) { memcpy(tls_save[f], tls_base, tls_size); memcpy(tls_base, tls_save[t], tls_size); }
  cur = t; errno = F[t].err; memcpy(__cxxabiv1::__cxa_get_globals(), F[t].eh, 16); g_depth = F[t].depth;
  sim_switch(&F[f].sp, F[t].sp);
}
static void reschedule(bool mustblock, bool preempt) {
  ++g_depth;
  for (;;) {
    int run[MAXF], n = 0; bool meok = F[cur].st == RUN && !mustblock;
    if (meok) run[n++] = cur;
    for (int i = 0; i < nf; ++i) if (i != cur && F[i].st == RUN) run[n++] = i;
    if (F[cur].st == RUN && mustblock && n == 0) { run[n++] = cur; }
    if (n == 0) {
      int best = -1; for (int i = 0; i < nf; ++i) if (F[i].st == SLEEP && (best < 0 || F[i].wake < F[best].wake)) best = i;
      if (best >= 0) { if (F[best].wake > g_now_ns) g_now_ns = F[best].wake; F[best].st = RUN; continue; }
      violation("deadlock", "all %d threads are blocked (thread %d waits on a lock)", nf, cur);
    }
    int t = run[n > 1 ? choose(n) : 0];
    if (t != cur) { if (verbose()) ev("  ~t%d @%llu", t, (unsigned long long)g_steps); else ev("  ~t%d", t); if (preempt) { nontrivial(); count("sched.preemptions"); } }
    swap_to(t); break;
  }
  --g_depth; arm_preempt();
}
void yield(const char* why) { (void)why; if (!g_active || nf < 2) return; ++nsync; if (preempt_mean) { ++g_depth; bool c = chance(1, 3); --g_depth; if (c) reschedule(false, true); } }
static void block_on(const void* a) { F[cur].st = BLOCKED; F[cur].on = a; reschedule(true, false); }
static void wake_all(const void* a) { for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].on == a) { F[i].st = RUN; F[i].on = nullptr; } }
static void sleep_until(int64_t t) { if (nf < 2) { if (t > g_now_ns) g_now_ns = t; return; } F[cur].st = SLEEP; F[cur].wake = t; reschedule(true, false); }

static void fiber_entry() {
  g_depth = 0; arm_preempt();
  try { F[cur].fn(); } catch (...) { violation("uncaught-exception", "an exception escaped a simulated thread"); }
  sync_release(&F[cur]); g_depth = 1; F[cur].st = DONE; g_depth = 0;
  bool all = true; for (int i = 1; i < nf; ++i) if (F[i].st != DONE) all = false;
  if (all) { F[0].st = RUN; }
  reschedule(true, false);
  abort();
}
void spawn(const std::function<void()>& fn) {
  Scope sc; if (nf >= MAXF) abort();
  tls_init(); if (tls_size) { if (!tls_save[0]) tls_save[0] = (char*)malloc(tls_size); if (!tls_save[nf]) tls_save[nf] = (char*)malloc(tls_size); memset(tls_save[nf], 0, tls_size); memcpy(tls_save[nf], tls_image, tls_filesz); }
  if (!syncs) syncs = new std::unordered_map<uintptr_t, VC>; if (!grans) { grans = new std::unordered_map<uintptr_t, Gran>; grans->reserve(1 << 12); }
  int i = nf; Fiber& f = F[i]; f = Fiber(); f.fn = fn; f.stksz = STK; f.stk = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  memset(f.eh, 0, 16); memset(f.C, 0, sizeof f.C); if (i == 1) { if (!F[0].C[0]) F[0].C[0] = 1; }
  memcpy(f.C, F[0].C, sizeof f.C); f.C[i] = 1; F[0].C[0]++;
  void** sp = (void**)(f.stk + STK - 64); *--sp = nullptr; *--sp = (void*)fiber_entry; for (int k = 0; k < 6; ++k) *--sp = nullptr;
  f.sp = sp; f.depth = 0; ++nf;
}
void run_all() {
  if (nf < 2) return;
  __libc_single_threaded = 0;
  int sd = g_depth; F[0].st = BLOCKED; F[0].on = &F[0]; g_depth = 0; reschedule(true, false);
  for (int i = 1; i < nf; ++i) { sync_acquire(&F[i]); munmap(F[i].stk, STK); }
  preempt_at = ~0ull; { Scope s; for (int i = 1; i < nf; ++i) { F[i].fn = nullptr; } if (grans) grans->clear(); syncs->clear(); }
  for (int i = 0; i < MAXF; ++i) F[0].C[i] = 0; F[0].C[0] = 1; nf = 1; g_depth = sd; __libc_single_threaded = 1;
}
static inline void access(const void* p, size_t n, bool w, const void* pc) {
  if (p == (const void*)&g_depth) return;
  if (!g_active || g_depth) return;
  if (++g_steps > g_step_cap) violation("no-progress", "the operation did not finish within %llu instrumented memory accesses (endless loop)", (unsigned long long)g_step_cap);
  mem_access(p, n, w, pc);
  if (g_hook && g_steps >= g_hook_at) g_hook();
  if (nf > 1) { if (g_race_detect) race_check(p, n, w, pc); if (g_steps >= preempt_at) reschedule(false, true); }
}
// accesses made by library functions (memcpy, strlen, free ...) on behalf of the code under test
void lib_access(const void* p, size_t n, bool w, const void* pc) {
  if (!g_active || g_depth || !n) return;
  mem_access(p, n, w, pc); if (nf > 1 && g_race_detect) race_check(p, n, w, pc); }
// ---- mutexes --------------------------------------------------------------------
struct Mtx { int owner = -1; int rec = 0; int readers = 0; };
static std::map<const void*, Mtx>* mt;
static Mtx& M(const void* a) { Scope s; if (!mt) mt = new std::map<const void*, Mtx>; return (*mt)[a]; }
static inline bool on() { return g_active && g_depth == 0; }
static int m_lock(const void* a, bool recursive, bool tryl) {
  yield("lock"); Mtx& m = M(a);
  while (m.owner >= 0 && m.owner != cur) { if (tryl) return EBUSY; count("sched.lock_contended"); nontrivial(); block_on(a); }
  if (m.owner == cur) { if (recursive) { ++m.rec; return 0; } if (tryl) return EBUSY; violation("deadlock", "thread %d locks a mutex it already holds", cur); }
  m.owner = cur; m.rec = 1; sync_acquire(a); return 0; }
static int m_unlock(const void* a) {
  Mtx& m = M(a); if (m.owner != cur) { violation("unlock-not-owned", "thread %d unlocks a mutex it does not hold", cur); }
  if (--m.rec > 0) return 0; m.owner = -1; sync_release(a); wake_all(a); yield("unlock"); return 0; }
} // namespace sim
using namespace sim;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) { ++g_depth; real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name); --g_depth; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on()) return 0; return m_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!on()) return 0; return m_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!on()) return 0; return m_unlock(m); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } if (mt) { Scope s; mt->erase(m); } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (mt) { Scope s; mt->erase(m); } return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!on()) return 0; yield("wrlock"); Mtx& m = M(l); while ((m.owner >= 0 && m.owner != cur) || m.readers) block_on(l); m.owner = cur; m.rec = 1; sync_acquire(l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!on()) return 0; yield("rdlock"); Mtx& m = M(l); while (m.owner >= 0) block_on(l); m.readers++; sync_acquire(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!on()) return 0; Mtx& m = M(l); if (m.owner == cur) m.owner = -1; else m.readers--; sync_release(l); wake_all(l); yield("rwunlock"); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return 0; Mtx& mm = M(m); mm.owner = -1; sync_release(m); wake_all(m); block_on(c); m_lock(m, false, false); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (!on()) return 0; wake_all(c); yield("signal"); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) return 0; wake_all(c); yield("broadcast"); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!on()) { if (*o != 2) { *o = 2; fn(); } return 0; }
  yield("once"); Mtx& m = M(o);
  while (m.owner >= 0) block_on(o);
  if (*o == 2) { sync_acquire(o); return 0; }
  m.owner = cur; fn(); *o = 2; m.owner = -1; sync_release(o); wake_all(o); return 0; }
int __cxa_guard_acquire(int64_t* g) {
  char* b = (char*)g; if (*b) { if (on()) sync_acquire(g); return 0; }
  if (!on()) return 1;
  yield("static-init"); Mtx& m = M(g); while (m.owner >= 0) { nontrivial(); block_on(g); }
  if (*b) { sync_acquire(g); return 0; }
  m.owner = cur; return 1; }
void __cxa_guard_release(int64_t* g) { *(char*)g = 1; if (!on()) return; M(g).owner = -1; sync_release(g); wake_all(g); yield("static-init-done"); }
void __cxa_guard_abort(int64_t* g) { if (!on()) return; M(g).owner = -1; wake_all(g); }

// ---- time ---------------------------------------------------------------------
}
namespace sim { void (*g_clock_hook)(int which) = nullptr; }
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) {
  if (!g_active) return syscall(SYS_clock_gettime, c, t);
  if (on()) { yield("clock"); if (g_clock_hook) { Scope s; g_clock_hook(c); } }
  int64_t v = g_now_ns; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += g_real_off_ns; else if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) v = g_cpu_ns;
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
int gettimeofday(struct timeval* t, void*) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* o) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
clock_t clock() { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return (clock_t)(s.tv_sec * 1000000ll + s.tv_nsec / 1000); }
int nanosleep(const struct timespec* q, struct timespec*) { if (!g_active) return syscall(SYS_nanosleep, q, 0); ++g_depth; sleep_until(g_now_ns + q->tv_sec * 1000000000ll + q->tv_nsec); --g_depth; return 0; }
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, 0); return 0; }
int clock_nanosleep(clockid_t, int fl, const struct timespec* q, struct timespec*) { if (fl) { int64_t w = q->tv_sec * 1000000000ll + q->tv_nsec; sleep_until(w); return 0; } nanosleep(q, 0); return 0; }
int sched_yield() { if (on()) yield("sched_yield"); return 0; }
struct tm; 
struct tm* localtime(const time_t* t) {   // shared static result, like the real one
  REAL(struct tm*, gmtime_r, const time_t*, struct tm*); static struct tm buf;
  if (on()) { yield("localtime"); if (nf > 1 && g_race_detect) { race_check(&buf, sizeof buf, true, __builtin_return_address(0)); } }
  Scope s; return real_gmtime_r(t, &buf); }
struct tm* gmtime(const time_t* t) { REAL(struct tm*, gmtime_r, const time_t*, struct tm*); static struct tm buf; if (on()) { yield("gmtime"); if (nf > 1 && g_race_detect) race_check(&buf, sizeof buf, true, __builtin_return_address(0)); } Scope s; return real_gmtime_r(t, &buf); }

// ---- the -fsanitize=thread ABI -----------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { access(p, 8, *p != v, PC); }   // counted either way: *p may be left-over memory
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
static inline void at(const volatile void* p, size_t n, bool w, int acq, int rel, const void* pc) {
  if (!g_active || g_depth) return;
  if (++g_steps > g_step_cap) violation("no-progress", "endless loop on an atomic");
  mem_access((const void*)p, n, w, pc); if (nf > 1) { yield("atomic"); if (acq) sync_acquire((const void*)p); if (rel) sync_release((const void*)p); } }
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) == 4 || (mo) == 5)
#define REL(mo) ((mo) == 3 || (mo) == 4 || (mo) == 5)
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T* a, int mo) { at(a, b / 8, false, ACQ(mo), 0, PC); return *a; } \
void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { at(a, b / 8, true, 0, REL(mo), PC); *a = v; } \
T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo) { at(a, b / 8, true, ACQ(mo), REL(mo), PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int mo) { at(a, b / 8, true, ACQ(mo), REL(mo), PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int mo) { at(a, b / 8, true, ACQ(mo), REL(mo), PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int mo) { at(a, b / 8, true, ACQ(mo), REL(mo), PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int mo) { at(a, b / 8, true, ACQ(mo), REL(mo), PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int mo) { at(a, b / 8, true, ACQ(mo), REL(mo), PC); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int mo) { at(a, b / 8, true, ACQ(mo), REL(mo), PC); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { (void)fmo; at(a, b / 8, true, ACQ(mo), REL(mo), PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { (void)fmo; at(a, b / 8, true, ACQ(mo), REL(mo), PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { (void)fmo; at(a, b / 8, true, ACQ(mo), REL(mo), PC); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
