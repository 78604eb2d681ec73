// Run loop, choice stream, logging, replay, minimisation.
#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/syscall.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <set>
#include <map>
#include <unordered_set>
#include <algorithm>

namespace sim {

bool g_active = false;
int  g_depth = 1;
int64_t g_now_ns = 0, g_real_off_ns = 0, g_cpu_ns = 0;

static const size_t MAXC = 1 << 18, LOGCAP = 1 << 18, MAXCNT = 640;

struct Counter { char name[56]; uint64_t n; };
struct Shared {
  int status;                // 0 running/crashed, 1 ok, 2 violation
  uint64_t hash, steps, nfaults, nswitch, state, arena;
  int64_t simtime;
  int nontriv;
  char sig[96];
  char msg[4096];
  char where[512];
  uint32_t nch, overflow;
  uint32_t ch[MAXC];
  uint32_t loglen;
  char log[LOGCAP];
  uint32_t ncnt;
  Counter cnt[MAXCNT];
};
static Shared* S = nullptr;
static bool stats_on = true;
static bool g_verbose = false;

// ---- prng ------------------------------------------------------------------
static uint64_t rs[4];
static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void seed_rng(uint64_t s) { for (int i = 0; i < 4; ++i) rs[i] = splitmix(s); }
static uint64_t rnd() {
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
  rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45);
  return r;
}

static bool replay_mode = false;
static const uint32_t* rp = nullptr; static uint32_t rpn = 0, rpi = 0;

static uint32_t draw(uint32_t n, uint32_t rndval) {
  uint32_t v;
  if (S->nch >= MAXC) { S->overflow = 1; return 0; }
  if (replay_mode) v = rpi < rpn ? rp[rpi++] % n : 0;
  else v = rndval;
  S->ch[S->nch++] = v;
  return v;
}
uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t r = replay_mode ? 0 : (uint32_t)(rnd() % n);
  return draw(n, r);
}
bool chance(uint32_t num, uint32_t den) {
  if (num == 0) return false;
  uint32_t r = replay_mode ? 0 : (rnd() % den < num ? 1 : 0);
  return draw(2, r) != 0;
}
uint32_t weighted(std::initializer_list<uint32_t> w) {
  uint32_t tot = 0; for (auto x : w) tot += x;
  uint32_t idx = 0;
  if (!replay_mode) {
    uint32_t r = rnd() % tot; for (auto x : w) { if (r < x) break; r -= x; ++idx; }
  }
  return draw((uint32_t)w.size(), idx);
}

// ---- log -------------------------------------------------------------------
void note_hash(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p; uint64_t h = S->hash;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
  S->hash = h;
}
static void lograw(const char* s, size_t n) {
  note_hash(s, n);
  if (S->loglen + n + 2 < LOGCAP) { memcpy(S->log + S->loglen, s, n); S->loglen += n; S->log[S->loglen++] = '\n'; }
}
void ev(const char* fmt, ...) {
  Scope sc; char b[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n < 0) n = 0; if (n >= (int)sizeof b) n = sizeof b - 1; lograw(b, n);
}
void where(const char* fmt, ...) {
  Scope sc; va_list ap; va_start(ap, fmt); vsnprintf(S->where, sizeof S->where, fmt, ap); va_end(ap);
}
std::string strf(const char* fmt, ...) {
  Scope sc; char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
std::string quote(const std::string& s, size_t max) {
  Scope sc; std::string r = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    if (r.size() > max) { r += strf("..(%zu bytes)", s.size()); break; }
    unsigned char c = s[i];
    if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\";
    else if (c < 32 || c > 126) r += strf("\\x%02x", c); else r += (char)c;
  }
  return r + "\"";
}
void count(const char* name, uint64_t n) {
  if (!stats_on) return; Scope sc;
  uint64_t h = 1469598103934665603ull; for (const char* p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  for (uint32_t i = h % MAXCNT, k = 0; k < MAXCNT; ++k, i = (i + 1) % MAXCNT) {
    if (!S->cnt[i].name[0]) { strncpy(S->cnt[i].name, name, sizeof S->cnt[i].name - 1); S->ncnt++; }
    if (!strncmp(S->cnt[i].name, name, sizeof S->cnt[i].name - 1)) { S->cnt[i].n += n; return; }
  }
}
void fault(const char* kind) { Scope sc; char b[64]; snprintf(b, sizeof b, "fault.%s", kind); count(b); S->nfaults++; S->nontriv = 1; ev("  !fault %s", kind); }
void probe(const char* name) { Scope sc; char b[64]; snprintf(b, sizeof b, "probe.%s", name); count(b); }
void nontrivial() { S->nontriv = 1; }
uint64_t faults_fired() { return S->nfaults; }
void state_hash(uint64_t h) { S->state = S->state * 1099511628211ull ^ h; }
bool verbose() { return g_verbose; }

static void finish() __attribute__((noreturn));
static void finish() {
  S->simtime = g_now_ns; S->steps = g_steps; S->nswitch = switches(); S->arena = alloc_used();
  _exit(0);
}
void violation(const char* sig, const char* fmt, ...) {
  g_depth = 1000; g_active = false;
  strncpy(S->sig, sig, sizeof S->sig - 1);
  va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
  ev("VIOLATION %s: %s", S->sig, S->msg);
  S->status = 2; finish();
}
void end_run() { g_depth = 1000; g_active = false; S->status = 1; finish(); }

static std::vector<Property>& props() { static std::vector<Property> p; return p; }
void register_property(const char* id, RunFn fn) { props().push_back({id, fn}); }

// ---- executing one run in a forked child ------------------------------------
static void on_crash(int sig) {
  // leave a deterministic trace of what was executing, then die normally
  (void)sig; S->steps = g_steps; S->simtime = g_now_ns; S->nswitch = switches(); S->arena = alloc_used();
  signal(sig, SIG_DFL); raise(sig); _exit(99);
}
static char* altstk;
struct Outcome { int kind; std::string sig, msg; uint64_t hash; }; // kind 1 ok 2 violation 3 machinery error

// every run starts with the same stack contents, so that a read of an uninitialised local gives the same value each time
__attribute__((noinline, no_instrument_function)) static void scrub_stack() { char b[384 << 10]; memset(b, 0xCB, sizeof b); asm volatile("" : : "r"(b) : "memory"); }

static Outcome exec_run(RunFn fn, bool rep, const uint32_t* c, uint32_t n, uint64_t seed, bool stats) {
  S->status = 0; S->hash = 1469598103934665603ull; S->steps = S->nfaults = S->nswitch = S->state = 0; S->simtime = 0; S->nontriv = 0;
  S->sig[0] = S->msg[0] = S->where[0] = 0; S->nch = 0; S->overflow = 0; S->loglen = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) return {3, "fork", strerror(errno), 0};
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    stats_on = stats; replay_mode = rep; rp = c; rpn = n; rpi = 0; if (!rep) seed_rng(seed);
    stack_t ss; ss.ss_sp = altstk; ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    alarm(240);
    g_now_ns = 1000000000ll * 1000; g_real_off_ns = 1400000000ll * 1000000000ll; g_cpu_ns = 0;
    int dn = open("/dev/null", O_RDWR); if (dn >= 0 && !g_verbose) { dup2(dn, 1); dup2(dn, 2); }
    scrub_stack();
    g_active = true; g_depth = 0;
    fn();
    end_run();
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Outcome o; o.hash = S->hash;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->status == 1) { o.kind = 1; return o; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->status == 2) { o.kind = 2; o.sig = S->sig; o.msg = S->msg; return o; }
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGKILL || sg == SIGALRM) { o.kind = 3; o.sig = "watchdog"; o.msg = strf("run killed by signal %d during %s", sg, S->where); return o; }
    o.kind = 2; o.sig = strf("crash-%s", sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGBUS ? "SIGBUS" : sg == SIGFPE ? "SIGFPE" : "signal");
    o.msg = strf("process under test died from signal %d during: %s", sg, S->where);
    return o;
  }
  o.kind = 3; o.sig = "exit"; o.msg = strf("run ended with wait status %d during %s", st, S->where);
  return o;
}

static double nowf() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string jesc(const std::string& s) {
  std::string r; for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}

typedef std::vector<uint32_t> Ch;
static bool try_shrink(RunFn fn, Ch& cur, const Ch& cand, const std::string& sig, int& budget, double deadline) {
  if (budget <= 0 || nowf() > deadline) return false;
  --budget;
  Outcome o = exec_run(fn, true, cand.data(), cand.size(), 0, false);
  if (o.kind != 2 || o.sig != sig) return false;
  Ch got(S->ch, S->ch + S->nch);
  while (!got.empty() && got.back() == 0) got.pop_back();
  uint64_t sc = 0, sg = 0; for (auto v : cur) sc += v; for (auto v : got) sg += v;
  if (got.size() < cur.size() || (got.size() == cur.size() && sg < sc)) { cur = got; return true; }
  return false;
}
static void shrink(RunFn fn, Ch& cur, const std::string& sig, double secs) {
  int budget = 4000; double dl = nowf() + secs;
  while (!cur.empty() && cur.back() == 0) cur.pop_back();
  bool prog = true; int rounds = 0;
  while (prog && budget > 0 && nowf() < dl && rounds++ < 8) {
    prog = false;
    for (size_t len = cur.size() / 2; len >= 1; len /= 2) {           // delete chunks from the end
      for (size_t i = cur.size(); i >= len && i > 0;) {
        size_t b = i >= len ? i - len : 0; Ch c(cur); c.erase(c.begin() + b, c.begin() + std::min(i, c.size()));
        if (try_shrink(fn, cur, c, sig, budget, dl)) { prog = true; i = std::min(i, cur.size()); if (i > len) i -= 0; if (cur.size() < len) break; }
        else { if (b == 0) break; i = b; }
        if (budget <= 0 || nowf() > dl) break;
      }
      if (budget <= 0 || nowf() > dl) break;
    }
    for (size_t len = cur.size() / 2; len >= 1; len /= 2) {           // zero chunks
      for (size_t i = 0; i < cur.size(); i += len) {
        bool nz = false; for (size_t k = i; k < std::min(i + len, cur.size()); ++k) nz |= cur[k] != 0;
        if (!nz) continue;
        Ch c(cur); for (size_t k = i; k < std::min(i + len, c.size()); ++k) c[k] = 0;
        if (try_shrink(fn, cur, c, sig, budget, dl)) prog = true;
        if (budget <= 0 || nowf() > dl) break;
      }
      if (budget <= 0 || nowf() > dl) break;
    }
    for (size_t i = 0; i < cur.size() && budget > 0 && nowf() < dl; ++i) {   // lower values
      while (i < cur.size() && cur[i] > 0) { Ch c(cur); c[i] /= 2; if (!try_shrink(fn, cur, c, sig, budget, dl)) break; prog = true; }
      if (i < cur.size() && cur[i] > 1) { Ch c(cur); c[i] -= 1; if (try_shrink(fn, cur, c, sig, budget, dl)) prog = true; }
    }
  }
}

static int do_replay(const char* file) {
  FILE* f = fopen(file, "r"); if (!f) { perror(file); return 2; }
  char* line = nullptr; size_t cap = 0; std::string prop, sig; uint64_t hash = 0; Ch c;
  while (getline(&line, &cap, f) > 0) {
    std::string l(line); while (!l.empty() && l.back() == '\n') l.pop_back();
    if (l.compare(0, 9, "property ") == 0) prop = l.substr(9);
    else if (l.compare(0, 4, "sig ") == 0) sig = l.substr(4);
    else if (l.compare(0, 5, "hash ") == 0) hash = strtoull(l.c_str() + 5, nullptr, 16);
    else if (l.compare(0, 8, "choices ") == 0) { const char* p = l.c_str() + 8; char* e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; c.push_back(v); p = e; } }
    else if (l.compare(0, 3, "---") == 0) break;
  }
  fclose(f);
  for (auto& p : props()) if (prop == p.id) {
    Outcome o = exec_run(p.fn, true, c.data(), c.size(), 0, false);
    printf("%.*s\n", (int)S->loglen, S->log);
    printf("replay: kind=%d sig=%s hash=%016llx\n%s\n", o.kind, o.sig.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    if (o.kind == 2 && o.sig == sig && o.hash == hash) { printf("REPRODUCED\n"); return 1; }
    if (o.kind == 2 && o.sig == sig) { printf("REPRODUCED-CLASS-BUT-HASH-DIFFERS\n"); return 3; }
    printf("NOT-REPRODUCED\n"); return o.kind == 1 ? 0 : 3;
  }
  fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2;
}

} // namespace sim
using namespace sim;

int main(int argc, char** argv) {
  // the same addresses in every process, where the system allows it
  if (!getenv("VITAL_SIM_FIXED_ADDR")) { setenv("VITAL_SIM_FIXED_ADDR", "1", 1); int per = personality(0xffffffff); if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  std::string prop, out, replay, rdir = ".", hashes; uint64_t seed = 1; uint64_t runs = 1000; int wi = 0, wn = 1; double wall = 60, shr = 20; bool twice = false;
  long single = -1; std::set<std::string> known;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10);
    else if (a == "--worker") wi = atoi(nx().c_str()); else if (a == "--workers") wn = atoi(nx().c_str()); else if (a == "--out") out = nx();
    else if (a == "--wall") wall = atof(nx().c_str()); else if (a == "--shrink") shr = atof(nx().c_str()); else if (a == "--replay") replay = nx();
    else if (a == "--replay-out") rdir = nx(); else if (a == "--known") known.insert(nx()); else if (a == "--verbose") g_verbose = true;
    else if (a == "--run") single = atol(nx().c_str()); else if (a == "--hashes") hashes = nx(); else if (a == "--twice") twice = true;
    else if (a == "--list") { for (auto& p : props()) printf("%s\n", p.id); return 0; }
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  setenv("TZ", "UTC", 1); tzset();
  for (const char* v : {"VITAL_LOGGER_FACTORY", "VITAL_CONFIG_PATH", "VITAL_PLUGIN_PATH", "HOME", "LC_ALL"}) unsetenv(v);
  signal(SIGPIPE, SIG_IGN);
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  altstk = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (!replay.empty()) return do_replay(replay.c_str());
  RunFn fn = nullptr; for (auto& p : props()) if (prop == p.id) fn = p.fn;
  if (!fn) { fprintf(stderr, "no property %s\n", prop.c_str()); return 2; }

  // derive the per-run seeds from the one seed
  uint64_t base = seed * 0x9E3779B97F4A7C15ull; for (char ch : prop) base = (base ^ (unsigned char)ch) * 0x100000001b3ull;
  auto rseed = [&](uint64_t k) { uint64_t x = base + k * 0xD1342543DE82EF95ull; return splitmix(x); };

  double t0 = nowf(); uint64_t done = 0, nontriv = 0, ovf = 0, maxch = 0; uint64_t steps = 0, sw = 0; double simt = 0;
  std::unordered_set<uint64_t> seen, seent, states; std::map<std::string, uint64_t> knownhits; std::map<std::string, std::string> knownmsg; std::vector<std::string> samples;
  FILE* hf = hashes.empty() ? nullptr : fopen(hashes.c_str(), "w");
  int rc = 0; std::string vsig, vmsg, vpath; uint64_t vrun = 0; size_t vlen = 0;
  bool capped = false;
  for (uint64_t k = wi; k < runs; k += wn) {
    if (single >= 0) k = single;
    if (nowf() - t0 > wall && single < 0) { capped = true; break; }
    Outcome o = exec_run(fn, false, nullptr, 0, rseed(k), true);
    ++done; steps += S->steps; sw += S->nswitch; simt += (S->simtime - 1000000000ll * 1000) * 1e-9;
    if (S->overflow) ++ovf;
    maxch = std::max<uint64_t>(maxch, S->nch);
    if (S->nontriv) { ++nontriv; seent.insert(S->hash); if (samples.size() < 2 && S->loglen < 6000 && S->loglen > 60) samples.push_back(std::string(S->log, S->loglen)); }
    seen.insert(S->hash); if (S->state) states.insert(S->state);
    if (hf) fprintf(hf, "%llu %016llx %d %s\n", (unsigned long long)k, (unsigned long long)o.hash, o.kind, o.sig.c_str());
    if (twice) {
      uint64_t h1 = o.hash; std::string log1(S->log, S->loglen); Outcome o2 = exec_run(fn, false, nullptr, 0, rseed(k), false);
      if (o2.hash != h1 || o2.kind != o.kind) { if (g_verbose) { FILE* f = fopen("twice1.log", "w"); fwrite(log1.data(), 1, log1.size(), f); fclose(f); f = fopen("twice2.log", "w"); fwrite(S->log, 1, S->loglen, f); fclose(f); } fprintf(stderr, "NONDETERMINISTIC run %llu\n", (unsigned long long)k); rc = 3; break; }
    }
    if (single >= 0) { printf("%.*s\n", (int)S->loglen, S->log); printf("run %ld: kind=%d sig=%s msg=%s hash=%016llx choices=%u arena=%llu\n", single, o.kind, o.sig.c_str(), o.msg.c_str(), (unsigned long long)o.hash, S->nch, (unsigned long long)S->arena); if (o.kind == 1) return 0; }
    if (o.kind == 3) { fprintf(stderr, "MACHINERY %s: %s (run %llu)\n", o.sig.c_str(), o.msg.c_str(), (unsigned long long)k); rc = 3; break; }
    if (o.kind == 2) {
      if (known.count(o.sig)) { knownhits[o.sig]++; if (!knownmsg.count(o.sig)) knownmsg[o.sig] = o.msg; continue; }
      uint64_t h1 = o.hash; std::string sg = o.sig;
      Outcome o2 = exec_run(fn, false, nullptr, 0, rseed(k), false);
      if (o2.kind != 2 || o2.sig != sg || o2.hash != h1) {
        fprintf(stderr, "NONDETERMINISTIC violation %s / %s (run %llu) hashes %016llx %016llx\n", sg.c_str(), o2.sig.c_str(), (unsigned long long)k, (unsigned long long)h1, (unsigned long long)o2.hash); rc = 3; break; }
      Ch cur(S->ch, S->ch + S->nch), raw = cur; size_t n0 = cur.size();
      shrink(fn, cur, sg, shr);
      Outcome of = exec_run(fn, true, cur.data(), cur.size(), 0, false);
      if (of.kind != 2 || of.sig != sg) { cur = raw; of = exec_run(fn, true, cur.data(), cur.size(), 0, false); }
      if (of.kind != 2 || of.sig != sg) { fprintf(stderr, "SHRINK lost the violation\n"); rc = 3; break; }
      vsig = sg; vmsg = of.msg; vrun = k; vlen = cur.size();
      vpath = rdir + "/" + prop + "-s" + std::to_string(seed) + "-r" + std::to_string(k) + ".replay";
      FILE* f = fopen(vpath.c_str(), "w");
      if (!f) { perror(vpath.c_str()); rc = 3; break; }
      fprintf(f, "VITAL-SIM-REPLAY 1\nproperty %s\nsig %s\nhash %016llx\nseed %llu\nrun %llu\noriginal_choices %zu\nmsg %s\nchoices", prop.c_str(), sg.c_str(), (unsigned long long)of.hash, (unsigned long long)seed, (unsigned long long)k, n0, quote(of.msg, 4000).c_str());
      for (auto v : cur) fprintf(f, " %u", v);
      fprintf(f, "\n--- event log of the minimised run\n%.*s\n", (int)S->loglen, S->log); fclose(f);
      rc = 1; break;
    }
    if (single >= 0) break;
  }
  if (hf) fclose(hf);
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"rc\":%d,\"done\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"states\":%zu,\"steps\":%llu,\"switches\":%llu,\"simtime_s\":%.6f,\"wall\":%.3f,\"overflow\":%llu,\"max_choices\":%llu,\"capped\":%s,\n",
            rc, (unsigned long long)done, (unsigned long long)nontriv, seen.size(), seent.size(), states.size(), (unsigned long long)steps, (unsigned long long)sw, simt, nowf() - t0, (unsigned long long)ovf, (unsigned long long)maxch, capped ? "true" : "false");
    fprintf(f, "\"hashes\":["); bool first = true; size_t lim = 0; for (auto h : seent) { fprintf(f, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)h); first = false; if (++lim > 400000) break; } fprintf(f, "],\n");
    fprintf(f, "\"counters\":{"); first = true;
    for (uint32_t i = 0; i < MAXCNT; ++i) if (S->cnt[i].name[0]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", S->cnt[i].name, (unsigned long long)S->cnt[i].n); first = false; }
    fprintf(f, "},\n\"samples\":["); first = true; for (auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\n\"known\":{"); first = true; for (auto& kv : knownhits) { fprintf(f, "%s\"%s\":[%llu,\"%s\"]", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second, jesc(knownmsg[kv.first]).c_str()); first = false; }
    fprintf(f, "},\n\"violation\":{\"sig\":\"%s\",\"msg\":\"%s\",\"path\":\"%s\",\"run\":%llu,\"choices\":%zu}}\n", jesc(vsig).c_str(), jesc(vmsg).c_str(), jesc(vpath).c_str(), (unsigned long long)vrun, vlen);
    fclose(f);
  } else {
    printf("done %llu runs (%llu nontrivial, %zu distinct) in %.2fs rc=%d overflow=%llu maxch=%llu steps=%llu\n", (unsigned long long)done, (unsigned long long)nontriv, seen.size(), nowf() - t0, rc, (unsigned long long)ovf, (unsigned long long)maxch, (unsigned long long)steps);
    for (uint32_t i = 0; i < MAXCNT; ++i) if (S->cnt[i].name[0]) printf("  %-40s %llu\n", S->cnt[i].name, (unsigned long long)S->cnt[i].n);
    for (auto& kv : knownhits) printf("  known %s x%llu %s\n", kv.first.c_str(), (unsigned long long)kv.second, knownmsg[kv.first].c_str());
    if (rc == 1) printf("VIOLATION %s: %s\n  replay %s (%zu choices)\n", vsig.c_str(), vmsg.c_str(), vpath.c_str(), vlen);
  }
  return rc;
}
