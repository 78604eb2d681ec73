// Timers and the location of the running program.
#include "h.h"
#include <iostream>
#include <vital/util/wall_timer.h>
#include <vital/util/cpu_timer.h>
#include <vital/util/get_paths.h>
#include <stdexcept>
extern "C" { extern char __executable_start, etext; }
namespace {
using namespace h; namespace kv = kwiver::vital;
struct Capture : public std::streambuf {
  std::string out; std::streambuf* old;
  Capture() { old = std::cerr.rdbuf(this); }
  ~Capture() { std::cerr.rdbuf(old); }
  std::streamsize xsputn(const char* p, std::streamsize n) override { { Scope s; out.append(p, (size_t)n); } sim::yield("cerr"); return n; }
  int overflow(int c) override { if (c != EOF) { Scope s; out += (char)c; } return 0; }
};
// ------------------------------------------------------------------ C32
// one instant as seen from outside: the clock is read somewhere between a and b
struct At { int64_t a = 0, b = 0; };
void pass() {      // time passes: the thread sleeps, computes, or is suspended; clocks may be set
  Scope s; int64_t d = 0;
  switch (weighted({4, 3, 2, 2, 2})) {
    case 0: d = range(1, 1000) * 1000; break;
    case 1: d = (int64_t)range(1, 5000) * 1000000; break;
    case 2: d = (int64_t)range(1, 200000) * 1000000000; probe("long_interval"); break;
    case 3: d = range(1, 999); break;
    default: break; }
  g_now_ns += d; if (chance(600)) g_cpu_ns += chance(500) ? d : d / range(1, 50); else if (chance(200)) g_cpu_ns += d * range(2, 8);   // several threads burn more than the wall time
  if (chance(250)) { int64_t j = (int64_t)range(1, 4000) * pick(std::vector<int64_t>{1000, 1000000, 1000000000, 86400000000000ll}); if (chance(500)) j = -j; g_real_off_ns += j; fault(j < 0 ? "clock_set_back" : "clock_set_forward"); ev("clock set by %lld ns", (long long)j); }
  ev("now %lld cpu %lld", (long long)g_now_ns, (long long)g_cpu_ns);
}
int64_t read_clock(bool cpu) { return cpu ? g_cpu_ns : g_now_ns; }
template <class T> void use_timer(bool cpu, uint32_t id, uint32_t n) {
  const char* what = cpu ? "cpu timer" : "wall timer"; double slack = cpu ? 2.1e-6 : 2e-9;
  T t; bool started = false, running = false, frozen = false; At s, e; double held = 0;
  REQUIRE(t.timer_available(), "timer-not-available", "%s is not available", what); REQUIRE(!t.is_active(), "wrong-state", "a new %s is active", what);
  if (chance(300)) { double v = t.elapsed(); REQUIRE(v == 0, "wrong-interval", "%s that was never started has %g s", what, v); }
  for (uint32_t i = 0; i < n; ++i) {
    uint32_t op = weighted({4, 4, 3, 2}); if (op == 2 && !running) op = started && chance(400) ? 1 : 3;
    if (op == 0) pass();
    else if (op == 3) { At x; x.a = read_clock(cpu); where("%s start", what); t.start(); x.b = read_clock(cpu); s = x; if (running) probe("restarted"); started = running = true; frozen = false; Scope c; ev("%s %u started at %lld", what, id, (long long)s.a); }
    else if (op == 2) { At x; x.a = read_clock(cpu); where("%s stop", what); t.stop(); x.b = read_clock(cpu); e = x; running = frozen = false; Scope c; ev("%s %u stopped at %lld", what, id, (long long)e.a); }
    else if (started) {
      At x; x.a = read_clock(cpu); double v = t.elapsed(); x.b = read_clock(cpu); At q = running ? x : e;
      double lo = (q.a - s.b) / 1e9, hi = (q.b - s.a) / 1e9; double tol = slack + hi * 1e-12;
      REQUIRE(v >= lo - tol && v <= hi + tol, "wrong-interval", "%s %s reports %.9f s instead of %.9f to %.9f", running ? "running" : "stopped", what, v, lo, hi);
      REQUIRE(v >= 0, "negative-interval", "%s reports %g s", what, v);
      if (!running) { REQUIRE(!frozen || v == held, "interval-changes", "stopped %s changed from %.9f to %.9f s", what, held, v); frozen = true; held = v; }
      count("intervals_checked"); nontrivial(); }
    REQUIRE(t.is_active() == running, "wrong-state", "%s is_active is %d", what, (int)t.is_active());
  }
}
template <class T> void use_scoped(bool cpu, Capture& cap) {
  const char* what = cpu ? "scoped cpu timer" : "scoped wall timer"; At s, e; std::string title; { Scope c; if (chance(600)) title = pick(Strs{"load", "two words", "x: y - z", std::string(300, 't')}); cap.out.clear(); }
  bool thrown = chance(250);
  try {
    s.a = read_clock(cpu); where("%s", what);
    if (title.empty()) { T t; s.b = read_clock(cpu); pass(); if (chance(500)) pass(); e.a = read_clock(cpu); if (thrown) throw std::runtime_error("left by exception"); }
    else { T t(title); s.b = read_clock(cpu); pass(); if (chance(500)) pass(); e.a = read_clock(cpu); if (thrown) throw std::runtime_error("left by exception"); }
  } catch (std::runtime_error const&) { }
  e.b = read_clock(cpu); Scope c; std::string pre = (title.empty() ? "" : title + " - ") + "elapsed time: ", o = cap.out; ev("printed %s", quote(o).c_str());
  REQUIRE(o.compare(0, pre.size(), pre) == 0 && o.size() > pre.size() + 5 && o.substr(o.size() - 5) == " sec\n", "wrong-report", "%s printed %s", what, quote(o).c_str());
  double v = atof(o.c_str() + pre.size()), lo = (e.a - s.b) / 1e9, hi = (e.b - s.a) / 1e9, tol = (cpu ? 2.1e-6 : 2e-9) + hi * 1e-5;
  REQUIRE(v >= lo - tol && v <= hi + tol, "wrong-interval", "%s printed %s, the interval is %.9f to %.9f", what, quote(o).c_str(), lo, hi); count("scoped_reports"); nontrivial();
}
void run_c32() {
  vfs::reset(); g_now_ns = (int64_t)range(1, 100000) * 1000003; g_cpu_ns = (int64_t)range(0, 1000) * 1000000; g_real_off_ns = (int64_t)range(0, 2000000000) * 1000000000;
  if (chance(700)) {
    uint32_t nt = weighted({3, 2, 2}) + 1; if (nt > 1) { set_preempt(pick(std::vector<uint32_t>{5, 20, 100})); g_race_detect = true; }
    for (uint32_t t = 0; t < nt; ++t) { bool cpu = chance(400); uint32_t n = range(2, 12); if (nt == 1) { if (cpu) use_timer<kv::cpu_timer>(true, t, n); else use_timer<kv::wall_timer>(false, t, n); } else spawn([=]() { if (cpu) use_timer<kv::cpu_timer>(true, t, n); else use_timer<kv::wall_timer>(false, t, n); }); }
    if (nt > 1) run_all();
  } else { Capture cap; uint32_t n = range(1, 3); for (uint32_t i = 0; i < n; ++i) if (chance(400)) use_scoped<kv::scoped_cpu_timer>(true, cap); else use_scoped<kv::scoped_wall_timer>(false, cap); }
}
Reg r32("C32", run_c32);

// ------------------------------------------------------------------ C33
std::string a_dir() {
  static const Strs names = {"bin", "lib", "opt", "My Programs", "a b  c", "x", "v1.2-rc", "(deleted)", "\xc3\xa4", "r-xp", "0", "tab\there"};
  std::string d; uint32_t n = range(1, 4); for (uint32_t i = 0; i < n; ++i) d += "/" + (chance(30) ? std::string(range(60, 200), 'L') : pick(names)); if (chance(120)) { probe("long_directory"); uint32_t want = range(900, 3700); while (d.size() + 256 < want) d += "/" + std::string(range(20, 250), 'd') + (chance(300) ? " e" : ""); } return d; }
std::string line(uint64_t lo, uint64_t hi, const char* perms, uint64_t off, const char* dev, uint64_t ino, const std::string& path) {
  std::string l = strf("%08llx-%08llx %s %08llx %s %llu ", (unsigned long long)lo, (unsigned long long)hi, perms, (unsigned long long)off, dev, (unsigned long long)ino);
  if (!path.empty()) { if (l.size() < 73) l.resize(73, ' '); l += path; } return l + "\n"; }
void run_c33() {
  vfs::reset(); Scope s0; std::string dir = a_dir(), name = pick(Strs{"prog", "my prog", "libvital.so.1", "x (deleted)"}), exe = dir + "/" + name, named = exe; vfs::put(exe, "ELF", 0755);
  if (chance(300)) { vfs::mkdirs("/links"); vfs::put_link("/links/current", dir); named = "/links/current/" + name; probe("through_link"); }
  vfs::mkdirs("/proc/self"); vfs::put_link("/proc/self/exe", named);
  uint64_t lo = (uint64_t)(uintptr_t)&__executable_start & ~0xfffull, hi = ((uint64_t)(uintptr_t)&etext + 0xfff) & ~0xfffull; std::string maps; std::string mod = exe;
  if (chance(500)) { mod = a_dir() + "/libvital_util.so.1"; vfs::put(mod, "ELF", 0755); }   // the module can be another file than the program
  uint32_t before = choose(8), after = choose(8); uint64_t a = 0x10000; Strs others = {"", "[heap]", "/usr/lib/libc.so.6", "/usr/lib/lib with space.so", "/dev/zero (deleted)", "anon_inode:[perf_event]", "/" + std::string(range(1, 2000), 'p')};
  for (uint32_t i = 0; i < before; ++i) { uint64_t e = a + 0x1000 * range(1, 16); if (e > lo) break; maps += line(a, e, pick(Strs{"r--p", "r-xp", "rw-p", "---p", "rw-s"}).c_str(), 0x1000 * choose(9), "fd:01", choose(3) ? range(1, 99999) : 0, pick(others)); a = e + 0x1000 * choose(4); if (a > lo) break; }
  maps += line(lo, hi, "r-xp", 0x1000 * choose(20), chance(500) ? "08:01" : "103:1a", chance(100) ? 0xf0000001ull : range(1, 9999999), mod); a = hi;
  for (uint32_t i = 0; i < after; ++i) { uint64_t e = a + 0x1000 * range(1, 16); bool same = i < 2; maps += line(a, e, same ? (i ? "rw-p" : "r--p") : "rw-p", 0, "fd:01", 77, same ? mod : pick(others)); a = e + 0x1000 * choose(4); }
  maps += line(0x7ffc00000000ull, 0x7ffc00021000ull, "rw-p", 0, "00:00", 0, "[stack]"); if (chance(800)) maps += line(0xffffffffff600000ull, 0xffffffffff601000ull, "--xp", 0, "00:00", 0, "[vsyscall]");
  bool gone_exe = false, gone_mod = false;   // files removed or replaced since they were loaded: the system names them with a mark that no file carries
  if (chance(150)) { auto mark = [&](const std::string& f) { size_t at; for (at = 0; (at = maps.find(f + "\n", at)) != std::string::npos; at += f.size() + 10) maps.insert(at + f.size(), " (deleted)"); };
    bool rep = chance(500); bool both = mod == exe, m = both || chance(500); const std::string f = m ? mod : exe; vfs::remove_all(f); if (rep) vfs::put(f, "NEW", 0755); fault(rep ? "program_replaced" : "program_removed");
    if (m) { mark(mod); gone_mod = true; } if (!m || both) { vfs::remove_all("/proc/self/exe"); vfs::put_link("/proc/self/exe", exe + " (deleted)"); gone_exe = true; } }
  vfs::put("/proc/self/maps", maps); std::string want_exe = dirname_of(exe), want_mod = dirname_of(mod); vfs::cwd = chance(500) ? "/" : dir; ev("program %s module %s", quote(exe).c_str(), quote(mod).c_str());
  if (want_mod.find(' ') != std::string::npos) probe("module_directory_with_space");
  bool faulty = chance(400); if (faulty) vfs::swarm(true, false, true); else if (chance(400)) { vfs::F.read_short = 500; vfs::F.budget = 100; }
  uint32_t nt = chance(500) ? range(2, 3) : 1; if (nt > 1) { set_preempt(pick(std::vector<uint32_t>{5, 20, 100})); g_race_detect = true; }
  uint64_t live = alloc_live(); (void)live;
  auto body = [&](uint32_t n) { for (uint32_t i = 0; i < n; ++i) {
      bool m = chance(500); std::string got; bool threw = false; where(m ? "get_module_path" : "get_executable_path"); bool oom = false; { Scope s; oom = nt == 1 && chance(60); }
      if (oom) alloc_arm(1 + choose(2)); try { Unscope u; std::string r = m ? kv::get_module_path() : kv::get_executable_path(); Scope s; got = r; } catch (std::bad_alloc const&) { threw = true; } if (oom) { if (alloc_fired()) fault("alloc"); alloc_disarm(); }
      Scope s; const std::string& want = m ? want_mod : want_exe; ev("%s: %s", m ? "module" : "program", threw ? "bad_alloc" : quote(got).c_str());
      REQUIRE(!threw || oom, "unexpected-exception", "bad_alloc without an allocation failure"); if (threw) continue;
      REQUIRE(got == want || (got.empty() && (vfs::hard || (m ? gone_mod : gone_exe))), got.empty() ? "path-not-found" : "wrong-path", "%s path is %s instead of %s", m ? "module" : "executable", quote(got).c_str(), quote(want).c_str());
      REQUIRE(nt > 1 || vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open", vfs::open_fds()); if (!got.empty()) nontrivial(); else probe("lookup_failed"); count("lookups"); } };
  if (nt == 1) body(range(1, 4)); else { for (uint32_t t = 0; t < nt; ++t) { uint32_t n = range(1, 3); spawn([=, &body]() { Scope s; body(n); }); } Unscope u; run_all(); }
  vfs::faults_off();
  for (int m = 0; m < 2; ++m) { std::string got; { Unscope u; std::string r = m ? kv::get_module_path() : kv::get_executable_path(); Scope s; got = r; }   // a failure is not remembered
    REQUIRE(got == (m ? want_mod : want_exe) || (got.empty() && (m ? gone_mod : gone_exe)), "failure-remembered", "%s path is %s instead of %s once lookups work", m ? "module" : "executable", quote(got).c_str(), quote(m ? want_mod : want_exe).c_str()); }
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open", vfs::open_fds()); alloc_check_all();
}
Reg r33("C33", run_c33);
}
