// A fixed host for the code under test: what it asks the real machine for (names, interfaces, load, limits) must not
// change an execution, or a seed would mean something else on another machine.  The harness that studies these calls
// has definitions of its own, which override the weak ones here.
#include "core.h"
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <ifaddrs.h>
#include <netdb.h>
#include <sys/resource.h>
#include <sys/utsname.h>
#include <unistd.h>
using namespace sim;
#define WEAK __attribute__((weak))
#define SIM (g_active)
template <class T> static T real(const char* n, T) { return (T)dlsym(RTLD_NEXT, n); }
#define REAL(f) (real(#f, (decltype(&f))nullptr))
extern "C" {
WEAK int uname(struct utsname* u) {
  if (!SIM) return REAL(uname)(u);
  Scope s; memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "simhost"); strcpy(u->release, "5.15.0-1"); strcpy(u->version, "#1 SMP"); strcpy(u->machine, "x86_64"); return 0; }
WEAK int gethostname(char* b, size_t n) { if (!SIM) return REAL(gethostname)(b, n); if (n < 8) { errno = ENAMETOOLONG; return -1; } memcpy(b, "simhost", 8); return 0; }
WEAK int getifaddrs(struct ifaddrs** r) { if (!SIM) return REAL(getifaddrs)(r); *r = nullptr; return 0; }
WEAK void freeifaddrs(struct ifaddrs* r) { if (r) REAL(freeifaddrs)(r); }
WEAK int getloadavg(double* v, int n) { if (!SIM) return REAL(getloadavg)(v, n); for (int i = 0; i < n && i < 3; ++i) v[i] = 0.5; return n < 3 ? n : 3; }
WEAK int getrlimit(__rlimit_resource_t w, struct rlimit* r) { if (!SIM) return REAL(getrlimit)(w, r); r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; }
WEAK int getrlimit64(__rlimit_resource_t w, struct rlimit64* r) { if (!SIM) return REAL(getrlimit64)(w, r); r->rlim_cur = r->rlim_max = RLIM64_INFINITY; return 0; }
}
