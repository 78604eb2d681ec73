// Deterministic simulation core: one choice stream per run, event log,
// violation reporting, run loop with replay and minimisation.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- state flags ---------------------------------------------------------
extern bool g_active;        // a simulated run is in progress
extern int  g_depth;         // >0 : executing harness/engine code, not the code under test

struct Scope {               // enter harness code (real libc allocator, no hooks)
  Scope() { asm volatile("" ::: "memory"); ++g_depth; asm volatile("" ::: "memory"); }
  ~Scope() { asm volatile("" ::: "memory"); --g_depth; asm volatile("" ::: "memory"); }
};
struct Unscope {             // re-enter code under test from harness code
  int saved; Unscope() : saved(g_depth) { asm volatile("" ::: "memory"); g_depth = 0; asm volatile("" ::: "memory"); }   // malloc and free are not known to read g_depth
  ~Unscope() { asm volatile("" ::: "memory"); g_depth = saved; asm volatile("" ::: "memory"); }
};

// ---- choices: the only source of nondeterminism ---------------------------
// every value is recorded; 0 is always the simplest alternative
uint32_t choose(uint32_t n);                 // uniform in [0,n)
bool chance(uint32_t num, uint32_t den = 1000);
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
template <class T> const T& pick(const std::vector<T>& v) { return v[choose((uint32_t)v.size())]; }
uint32_t weighted(std::initializer_list<uint32_t> w); // index; 0 simplest

// ---- event log, statistics ------------------------------------------------
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char* name, uint64_t n = 1);   // statistic counter
void fault(const char* kind);                    // an injected fault that really fired
void probe(const char* name);                    // a rare condition that was reached
void nontrivial();                               // run counts as non-trivial
void where(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // what is being executed (for crash reports)
uint64_t faults_fired();
void state_hash(uint64_t h);                     // distinct states/interleavings measure
void note_hash(const void* p, size_t n);         // mix bytes into run hash

[[noreturn]] void violation(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void end_run();                     // finish the run normally, right now

// ---- simulated clock --------------------------------------------------------
extern int64_t g_now_ns;      // monotonic simulated nanoseconds
extern int64_t g_real_off_ns; // realtime = g_now_ns + g_real_off_ns (jumps allowed)
extern int64_t g_cpu_ns;      // process cpu time

// ---- properties -------------------------------------------------------------
typedef void (*RunFn)();
struct Property { const char* id; RunFn fn; };
void register_property(const char* id, RunFn fn);
struct Reg { Reg(const char* id, RunFn fn) { register_property(id, fn); } };

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string& s, size_t max = 120);
bool verbose();

// ---- allocator --------------------------------------------------------------
void alloc_arm(int64_t countdown, int count = 1); // fail the countdown-th tested allocation from now (1 = next)
void alloc_disarm();
bool alloc_fired();
uint64_t alloc_live();        // live blocks allocated by code under test
uint64_t alloc_live_bytes();
void alloc_save(std::string* s); void alloc_load(const std::string& s);   // contents and accounting of the arena (forked processes)
uint64_t alloc_used();        // bytes of the heap arena used so far
uint64_t alloc_seq();         // number of allocations made so far by code under test
void alloc_check_all();       // verify redzones of all live blocks
bool alloc_owned(const void* p);   // address belongs to a live arena block
std::string alloc_list(uint64_t since_seq);

// ---- fibers (simulated threads) ---------------------------------------------
void spawn(const std::function<void()>& fn);
void run_all();               // run spawned fibers to completion
void yield(const char* why);  // scheduling point
int  self();                  // current fiber index (0 = main)
void set_preempt(uint32_t mean); // mean instrumented accesses between preemptions (0 never)
extern bool g_race_detect;
extern uint64_t g_steps, g_step_cap;
extern void (*g_hook)(); extern uint64_t g_hook_at;   // called from code under test once g_steps reaches g_hook_at
bool on_own_stack(const void* p);
uint64_t switches();
void mem_forget(const void* p, size_t n); // forget race shadow of a memory range
extern void (*g_race_filter)(const void* addr, bool* ignore);

} // namespace sim
#endif
