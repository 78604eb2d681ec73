// The memory and string functions of libc, with the same checks as instrumented accesses:
// they also see what uninstrumented library code (std::string, streams) copies.
#pragma GCC optimize("no-tree-loop-distribute-patterns")
#include <stddef.h>
namespace sim { extern bool g_active; extern int g_depth; void lib_access(const void*, size_t, bool, const void*); }
#define PC __builtin_return_address(0)
#define ON (__builtin_expect(sim::g_active, 0) && !sim::g_depth)
static inline void* up(void* d, const void* s, size_t n) { void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
static inline void down(void* d, const void* s, size_t n) { d = (char*)d + n - 1; s = (const char*)s + n - 1; __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory", "cc"); }
static inline size_t len(const char* s) { const char* p = s; while (*(const volatile char*)p) ++p; return (size_t)(p - s); }
extern "C" {
void* memcpy(void* d, const void* s, size_t n) { if (ON) { sim::lib_access(s, n, false, PC); sim::lib_access(d, n, true, PC); } return up(d, s, n); }
void* memmove(void* d, const void* s, size_t n) { if (ON) { sim::lib_access(s, n, false, PC); sim::lib_access(d, n, true, PC); } if ((char*)d <= (const char*)s || (char*)d >= (const char*)s + n) up(d, s, n); else if (n) down(d, s, n); return d; }
void* memset(void* d, int c, size_t n) { if (ON) sim::lib_access(d, n, true, PC); void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; size_t i = 0; int r = 0;
  while (i < n) { if (x[i] != y[i]) { r = x[i] < y[i] ? -1 : 1; ++i; break; } ++i; }
  if (ON) { sim::lib_access(a, i, false, PC); sim::lib_access(b, i, false, PC); } return r; }
void* memchr(const void* a, int c, size_t n) { const unsigned char* x = (const unsigned char*)a; size_t i = 0; void* r = nullptr; while (i < n) { if (x[i] == (unsigned char)c) { r = (void*)(x + i); ++i; break; } ++i; } if (ON) sim::lib_access(a, i, false, PC); return r; }
size_t strlen(const char* s) { size_t n = len(s); if (ON) sim::lib_access(s, n + 1, false, PC); return n; }
int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) ++i; if (ON) { sim::lib_access(a, i + 1, false, PC); sim::lib_access(b, i + 1, false, PC); } return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char* a, const char* b, size_t n) { size_t i = 0; int r = 0; while (i < n) { r = (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; ++i; if (r || !a[i - 1]) break; } if (ON) { sim::lib_access(a, i, false, PC); sim::lib_access(b, i, false, PC); } return r; }
char* strcpy(char* d, const char* s) { size_t n = len(s) + 1; if (ON) { sim::lib_access(s, n, false, PC); sim::lib_access(d, n, true, PC); } up(d, s, n); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; while (i < n && *(const volatile char*)(s + i)) ++i; if (ON) { sim::lib_access(s, i < n ? i + 1 : i, false, PC); sim::lib_access(d, n, true, PC); } up(d, s, i); for (; i < n; ++i) *(volatile char*)(d + i) = 0; return d; }
char* strcat(char* d, const char* s) { size_t k = len(d), n = len(s) + 1; if (ON) { sim::lib_access(d, k + 1, false, PC); sim::lib_access(s, n, false, PC); sim::lib_access(d + k, n, true, PC); } up(d + k, s, n); return d; }
char* strchr(const char* s, int c) { size_t i = 0; while (*(const volatile char*)(s + i) && s[i] != (char)c) ++i; if (ON) sim::lib_access(s, i + 1, false, PC); return s[i] == (char)c ? (char*)s + i : nullptr; }
char* strrchr(const char* s, int c) { size_t n = len(s); if (ON) sim::lib_access(s, n + 1, false, PC); for (size_t i = n + 1; i-- > 0;) if (*(const volatile char*)(s + i) == (char)c) return (char*)s + i; return nullptr; }
}
