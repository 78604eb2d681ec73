#include "dl.h"
#include "vfs.h"
#include <dlfcn.h>
#include <string.h>
namespace sim { namespace dl {
std::map<std::string, Lib> libs; uint32_t open_err = 0; int budget = 0; std::vector<std::string> failed; std::map<std::string, int> attempts; std::vector<std::string> order;
static std::string err; static bool has_err = false; static std::string last;
static std::map<void*, std::string> handles;
// libraries are known under the exact path or its lexically normal form
static std::string key(const std::string& p) {
  if (libs.count(p) || p.find('/') == std::string::npos) return p;
  std::string a = p[0] == '/' ? p : vfs::cwd + "/" + p, c, r; std::vector<std::string> st;
  for (size_t i = 0; i <= a.size(); ++i) { if (i == a.size() || a[i] == '/') { if (c == "..") { if (!st.empty()) st.pop_back(); } else if (!c.empty() && c != ".") st.push_back(c); c.clear(); } else c += a[i]; }
  for (auto& x : st) r += "/" + x; return r; }
bool loaded(const std::string& p) { auto it = libs.find(p); return it != libs.end() && it->second.opens > it->second.closes; }
void reset() { Scope s; libs.clear(); handles.clear(); failed.clear(); attempts.clear(); order.clear(); open_err = 0; budget = 0; has_err = false; }
}}
using namespace sim; using namespace sim::dl;
static bool on() { return g_active && g_depth == 0; }
extern "C" {
void* dlopen(const char* path, int flags) {
  if (!on()) { typedef void* (*F)(const char*, int); static F r; if (!r) r = (F)dlvsym(RTLD_NEXT, "dlopen", "GLIBC_2.34"); return r(path, flags); }
  yield("dlopen"); Scope sc; if (!path) return nullptr;
  ev("    dlopen(%s)", path); std::string k = key(path); attempts[k]++; order.push_back(k);
  auto it = libs.find(k);
  if (it == libs.end()) { err = std::string(path) + ": cannot open shared object file: No such file or directory"; has_err = true; return nullptr; }
  if (open_err && budget > 0 && chance(open_err)) { --budget; fault("dlopen_error"); failed.push_back(k); err = std::string(path) + ": cannot allocate memory"; has_err = true; return nullptr; }
  if (!it->second.broken.empty()) { fault("unloadable_library"); err = it->second.broken; has_err = true; return nullptr; }
  it->second.opens++; void* h = &it->second; handles[h] = k; return h;
}
void* dlsym(void* h, const char* name) {
  typedef void* (*F)(void*, const char*); static F r; if (!r) r = (F)dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5");
  if (!on()) return r(h, name);
  yield("dlsym"); Scope sc;
  auto it = handles.find(h); if (it == handles.end()) violation("bad-library-handle", "dlsym(%s) with a handle that is not open", name);
  Lib& l = libs[it->second]; if (l.opens <= l.closes) violation("use-after-dlclose", "dlsym(%s) on the closed library %s", name, it->second.c_str());
  auto s = l.syms.find(name); if (s == l.syms.end()) { err = it->second + ": undefined symbol: " + name; has_err = true; return nullptr; }
  return s->second;
}
int dlclose(void* h) {
  if (!on()) { typedef int (*F)(void*); static F r; if (!r) r = (F)dlvsym(RTLD_NEXT, "dlclose", "GLIBC_2.34"); return r(h); }
  yield("dlclose"); Scope sc; has_err = false;
  auto it = handles.find(h); if (it == handles.end()) violation("bad-library-handle", "dlclose with a handle that is not open");
  Lib& l = libs[it->second]; if (l.opens <= l.closes) violation("use-after-dlclose", "library %s closed twice", it->second.c_str());
  l.closes++; ev("    dlclose(%s)", it->second.c_str()); return 0;
}
char* dlerror() {
  if (!on()) { typedef char* (*F)(); static F r; if (!r) r = (F)dlvsym(RTLD_NEXT, "dlerror", "GLIBC_2.34"); return r(); }
  Scope sc; if (!has_err) return nullptr; has_err = false; last = err; return (char*)last.c_str();
}
}
