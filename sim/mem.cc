// Arena allocator with redzones for code under test; libc allocator for harness code.
#include "core.h"
#include "mem.h"
#include <sys/mman.h>
#include <cstring>
#include <cerrno>
#include <new>
#include <cstdlib>
#include <execinfo.h>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
namespace sim {
static const uintptr_t ABASE = 0x200000000000ull; static const size_t ASIZE = 512ull << 20;
static const uintptr_t SBASE = 0x210000000000ull;  // one state byte per arena byte
static bool inited = false; static uintptr_t brk_ = ABASE;
static uint64_t nlive = 0, blive = 0, seq_ = 0;
static int64_t cd = 0; static int cdn = 0; static bool armed = false, fired = false;
struct Hdr { uint64_t magic; uint32_t size; uint32_t seq; uint64_t prev; uint64_t pad; };
static const uint64_t LIVE = 0x51A11FEEDBEEF001ull, DEAD = 0x51A1DEADDEAD0002ull;
static uintptr_t last_ = 0;

// debugging aid: SIM_ALLOC_BT=<n> prints the call stack of the n-th simulated allocation (and of the injected failure for n=0)
static uint64_t bt_seq = ~0ull;
static void show_stack() { Scope sc; void* b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
static void init() {
  inited = true; if (const char* e = getenv("SIM_ALLOC_BT")) bt_seq = strtoull(e, nullptr, 10);
  void* a = mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* b = mmap((void*)SBASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)ABASE || b != (void*)SBASE) abort();
}
static inline unsigned char* shadow(uintptr_t p) { return (unsigned char*)(SBASE + (p - ABASE)); }
static inline bool in_arena(const void* p) { return (uintptr_t)p >= ABASE && (uintptr_t)p < ABASE + ASIZE; }

static void* amalloc(size_t n, size_t align = 16) {
  Scope sc;
  if (!inited) init();
  if (n > (64u << 20) || brk_ + n + 256 > ABASE + ASIZE) return nullptr;
  uintptr_t u = (brk_ + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
  Hdr* h = (Hdr*)(u - sizeof(Hdr)); h->magic = LIVE; h->size = (uint32_t)n; h->seq = (uint32_t)++seq_; if (seq_ == bt_seq) show_stack(); h->prev = last_; last_ = u;
  uintptr_t e = u + n, end = (e + 16 + 15) & ~15ull; memset((void*)e, 0xA5, end - e);
  memset(shadow(u), 1, n); memset((void*)u, 0xCD, n); brk_ = end; ++nlive; blive += n; mem_forget((void*)u, n);
  return (void*)u;
}
static void check_block(uintptr_t u, const char* when) {
  Hdr* h = (Hdr*)(u - sizeof(Hdr)); uintptr_t e = u + h->size, end = (e + 16 + 15) & ~15ull;
  for (uintptr_t p = e; p < end; ++p) if (*(unsigned char*)p != 0xA5) {
    violation("heap-overflow", "bytes past the end of a %u-byte heap block (allocation #%u) were overwritten (offset +%zu), noticed %s", h->size, h->seq, (size_t)(p - e), when); }
}
static void afree(void* p) {
  uintptr_t u = (uintptr_t)p; Hdr* h = (Hdr*)(u - sizeof(Hdr));
  if ((u & 15) || h->magic != LIVE) {
    if (!(u & 15) && h->magic == DEAD) violation("double-free", "heap block #%u of %u bytes freed twice", h->seq, h->size);
    violation("bad-free", "free of a pointer that is not the start of a heap block"); }
  check_block(u, "at free");
  h->magic = DEAD; memset(shadow(u), 0, h->size); --nlive; blive -= h->size; memset(p, 0xDD, h->size);
}
void mem_access(const void* p, size_t n, bool write, const void* pc) {
  if (!in_arena(p)) return;
  const unsigned char* s = shadow((uintptr_t)p);
  for (size_t i = 0; i < n; ++i) if (!s[i]) {
    uintptr_t a = (uintptr_t)p + i, best = 0;
    for (uintptr_t u = last_; u;) { Hdr* h = (Hdr*)(u - sizeof(Hdr)); if (a >= u - sizeof(Hdr)) { best = u; break; } u = h->prev; }
    Hdr* h = best ? (Hdr*)(best - sizeof(Hdr)) : nullptr;
    bool uaf = h && h->magic == DEAD && a < best + h->size;
    violation(uaf ? "heap-use-after-free" : "heap-out-of-bounds", "%s of %zu bytes at offset %ld of %s heap block #%u (size %u) [pc 0x%lx]", write ? "write" : "read", n,
              h ? (long)((uintptr_t)p - best) : 0L, uaf ? "freed" : (h && h->magic == DEAD) ? "freed" : "live", h ? h->seq : 0, h ? h->size : 0, (unsigned long)pc); }
}
bool alloc_owned(const void* p) { return in_arena(p) && inited && *shadow((uintptr_t)p); }
void alloc_arm(int64_t n, int c) { armed = n > 0; cd = n; cdn = c; fired = false; }
void alloc_disarm() { armed = false; }
bool alloc_fired() { return fired; }
uint64_t alloc_live() { return nlive; }
uint64_t alloc_live_bytes() { return blive; }
void alloc_save(std::string* s) { if (!inited) init(); size_t n = brk_ - ABASE; uint64_t c[3] = {nlive, blive, last_}; s->assign((char*)c, sizeof c); s->append((char*)ABASE, n); s->append((char*)SBASE, n); }
void alloc_load(const std::string& s) { uint64_t c[3]; memcpy(c, s.data(), sizeof c); nlive = c[0]; blive = c[1]; last_ = c[2]; size_t n = (s.size() - sizeof c) / 2; memcpy((char*)ABASE, s.data() + sizeof c, n); memcpy((char*)SBASE, s.data() + sizeof c + n, n); }
uint64_t alloc_seq() { return seq_; }
uint64_t alloc_used() { return inited ? brk_ - ABASE : 0; }
void alloc_check_all() { for (uintptr_t u = last_; u;) { Hdr* h = (Hdr*)(u - sizeof(Hdr)); if (h->magic == LIVE) check_block(u, "at the end of the run"); u = h->prev; } }
std::string alloc_list(uint64_t since) {
  Scope sc; std::string r; for (uintptr_t u = last_; u;) { Hdr* h = (Hdr*)(u - sizeof(Hdr)); if (h->seq <= since) break; if (h->magic == LIVE) r = strf("#%u(%u) ", h->seq, h->size) + r; u = h->prev; } return r; }
static inline bool mine() { return g_active && g_depth == 0; }
static bool fail_now() {
  if (!armed) return false;
  if (--cd > 0) return false;
  if (--cdn <= 0) armed = false;
  fired = true; if (!bt_seq) show_stack(); fault("alloc_fail"); return true;
}
void* mem_alloc(size_t n, size_t align) { if (fail_now()) { errno = ENOMEM; return nullptr; } return amalloc(n, align < 16 ? 16 : align); }
size_t mem_size(void* p) { return ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size; }
} // namespace sim
using namespace sim;

extern "C" {
void* malloc(size_t n) { return mine() ? mem_alloc(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (in_arena(p)) { if (g_active) { if (!g_depth && alloc_owned(p)) lib_access(p, mem_size(p), true, __builtin_return_address(0)); Scope s; afree(p); } } else __libc_free(p); }
void* calloc(size_t a, size_t b) {
  if (!mine()) return __libc_calloc(a, b);
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = mem_alloc(n, 16); if (p) { Scope s; memset(p, 0, n); } return p; }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!in_arena(p)) { return __libc_realloc(p, n); }
  if (n == 0) { free(p); return nullptr; }
  void* q = malloc(n); if (!q) return nullptr;
  size_t o = mem_size(p); memcpy(q, p, o < n ? o : n); free(p); return q; }
void* memalign(size_t a, size_t n) { return mine() ? mem_alloc(n, a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void* p) { return p && in_arena(p) ? mem_size(p) : 0; }
}
static void* opnew(size_t n) { if (!n) n = 1; void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return opnew(n); }
void* operator new[](size_t n) { return opnew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { void* p = memalign((size_t)a, n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
