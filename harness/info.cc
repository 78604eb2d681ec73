// System information: /proc files, uname, host name, interfaces, resource limits and load under faults.
#include "h.h"
#include <kwiversys/SystemInformation.hxx>
#include <sys/utsname.h>
#include <sys/resource.h>
#include <ifaddrs.h>
#include <netdb.h>
#include <netinet/in.h>
#include <cmath>
#include <vital/config/token_expander.h>
#include <vital/config/token_type_symtab.h>
#include <vital/config/token_type_env.h>
#include <vital/config/token_type_sysenv.h>
#include <vital/config/token_type_config.h>
#include <vital/config/config_block.h>
#include <vital/logger/logger.h>
#include <memory>
#include <signal.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <unistd.h>
#include <iostream>
namespace {
using namespace h; typedef kwiversys::SystemInformation SI; typedef long long LL;
// ------------------------------------------------------------------ the simulated kernel
struct Host { std::string sysname, node, release, version, machine; bool uname_fails = false, name_fails = false, ifs_fail = false; struct If { int fam; std::string host; }; std::vector<If> ifs; int lists = 0; rlim_t data = RLIM_INFINITY, as = RLIM_INFINITY; bool data_fails = false, as_fails = false; double load[3]; int nload = 3; } W;
struct IfNode { ifaddrs a; sockaddr_in6 sa; IfNode* next; }; IfNode* ifnodes;
}
#define IN_SIM (sim::g_active)
extern "C" {
int uname(struct utsname* u) { sim::Scope s; if (W.uname_fails) { fault("uname"); errno = EFAULT; return -1; } memset(u, 0, sizeof *u); strncpy(u->sysname, W.sysname.c_str(), 64); strncpy(u->nodename, W.node.c_str(), 64); strncpy(u->release, W.release.c_str(), 64); strncpy(u->version, W.version.c_str(), 64); strncpy(u->machine, W.machine.c_str(), 64); return 0; }
int gethostname(char* b, size_t n) { sim::Scope s; if (W.name_fails) { fault("gethostname"); errno = EPERM; return -1; } if (W.node.size() >= n) { errno = ENAMETOOLONG; return -1; } memcpy(b, W.node.c_str(), W.node.size() + 1); return 0; }
int getifaddrs(struct ifaddrs** r) { sim::Scope s; if (W.ifs_fail) { fault("getifaddrs"); errno = ENOBUFS; return -1; } ++W.lists; *r = nullptr; ifaddrs** at = r;
  for (size_t i = 0; i < W.ifs.size(); ++i) { IfNode* n = new IfNode(); memset(n, 0, sizeof *n); if (W.ifs[i].fam) { n->sa.sin6_family = (sa_family_t)W.ifs[i].fam; n->sa.sin6_port = htons((uint16_t)i); n->a.ifa_addr = (sockaddr*)&n->sa; } n->next = ifnodes; ifnodes = n; *at = &n->a; at = &n->a.ifa_next; } return 0; }
void freeifaddrs(struct ifaddrs* p) { sim::Scope s; (void)p; --W.lists; }
int getnameinfo(const struct sockaddr* sa, socklen_t len, char* host, socklen_t hl, char*, socklen_t, int) { sim::Scope s; const sockaddr_in6* a = (const sockaddr_in6*)sa; REQUIRE(len == (a->sin6_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "wrong-address-length", "address of family %d passed with length %u", a->sin6_family, (unsigned)len); std::string const& n = W.ifs.at(ntohs(a->sin6_port)).host; if (n.empty()) return EAI_NONAME; if (n.size() >= hl) return EAI_OVERFLOW; memcpy(host, n.c_str(), n.size() + 1); return 0; }
int getrlimit64(__rlimit_resource_t r, struct rlimit64* l) { sim::Scope s; bool f = r == RLIMIT_DATA ? W.data_fails : r == RLIMIT_AS ? W.as_fails : false; if (f) { fault("getrlimit"); errno = EINVAL; return -1; } l->rlim_cur = r == RLIMIT_DATA ? W.data : r == RLIMIT_AS ? W.as : RLIM64_INFINITY; l->rlim_max = RLIM64_INFINITY; return 0; }
int getloadavg(double* d, int n) { sim::Scope s; if (W.nload < 0) { fault("getloadavg"); return -1; } int k = std::min(n, W.nload); for (int i = 0; i < k; ++i) d[i] = W.load[i]; return k; }
}
namespace {
// ------------------------------------------------------------------ reference of the files
struct Cpu { int style = 0; bool has_ids, has_cores, has_mhz; uint32_t dcache = 0;  uint32_t sockets, cores, ht, family, model, stepping, cache; double mhz; std::string vendor, name; std::set<std::string> flags; std::string text; } cpu;
struct Mem { LL v[6]; std::string text; bool old = false, complete = true; } mem;   // MemTotal MemFree Buffers Cached SwapTotal SwapFree
LL rss; bool rss_there;
const Strs FLAGS{"fpu", "tsc", "mmx", "sse", "sse2", "apic", "cmov", "mtrr", "acpi", "3dnow"}, NOISE{"vme", "de", "ssse3", "sse4_1", "mmxext", "3dnowext", "x2apic", "tsc_known_freq", "fxsr_opt", "lahf_lm", "nonstop_tsc", "constant_tsc"};
// the classical name of a processor, for the identifications whose names are specified (others: null)
const char* classical(const Cpu& c) {
  struct T { const char* v; uint32_t f, m; const char* n; }; static const T TAB[] = {{"GenuineIntel", 6, 1, "P6"}, {"GenuineIntel", 6, 8, "Pentium III (0.18 micron) With 256 KB On-Die L2 Cache "}, {"GenuineIntel", 6, 85, "Unknown P6 family"}, {"GenuineIntel", 5, 4, "P55C"}, {"GenuineIntel", 4, 3, "i80486DX2"}, {"GenuineIntel", 15, 2, "Pentium IV (0.13 micron)"}, {"GenuineIntel", 25, 2, "Unknown Intel family"}, {"AuthenticAMD", 5, 8, "K6-2"}, {"AuthenticAMD", 6, 4, "Athlon- (Thunderbird core)"}, {"AuthenticAMD", 6, 8, "Athlon - XP (Thoroughbred core)"}, {"AMD ISBETTER", 4, 7, "80486DX2 WriteBack"}, {"AuthenticAMD", 23, 49, "Unknown AMD family"}, {"GenuineTMx86", 5, 4, "Crusoe TM3x00 and TM5x00"}, {"RiseRiseRise", 5, 2, "mP6 (0.18 micron)"}, {"UMC UMC UMC ", 4, 1, "U5D"}, {"CentaurHauls", 5, 9, "C3"}, {"CentaurHauls", 6, 6, "VIA Cyrix III - Samuel"}, {"CyrixInstead", 6, 5, "Cyrix M2 Core"}, {"NexGenDriven", 5, 0, "Nx586 or Nx586FPU"}, {"Geode By NSC", 5, 4, "Cx486SLC \\ DLC \\ Cx486S A-Step"}, {"HygonGenuine", 24, 0, "Unknown family"}};
  if (c.style == 1) return "Unknown family"; for (auto& t : TAB) if (c.vendor == t.v && c.family == t.f && c.model == t.m) return t.n; return nullptr;
}
const std::pair<const char*, std::pair<uint32_t, uint32_t>> KNOWN[] = {{"GenuineIntel", {6, 1}}, {"GenuineIntel", {6, 8}}, {"GenuineIntel", {6, 85}}, {"GenuineIntel", {5, 4}}, {"GenuineIntel", {4, 3}}, {"GenuineIntel", {15, 2}}, {"GenuineIntel", {25, 2}}, {"AuthenticAMD", {5, 8}}, {"AuthenticAMD", {6, 4}}, {"AuthenticAMD", {6, 8}}, {"AMD ISBETTER", {4, 7}}, {"AuthenticAMD", {23, 49}}, {"GenuineTMx86", {5, 4}}, {"RiseRiseRise", {5, 2}}, {"UMC UMC UMC ", {4, 1}}, {"CentaurHauls", {5, 9}}, {"CentaurHauls", {6, 6}}, {"CyrixInstead", {6, 5}}, {"NexGenDriven", {5, 0}}, {"Geode By NSC", {5, 4}}, {"HygonGenuine", {24, 0}}};
void gen_cpu() {
  cpu = Cpu(); cpu.style = chance(850) ? 0 : 1 + (int)choose(3); cpu.sockets = 1 + choose(4); cpu.cores = 1 + choose(4); cpu.ht = 1 + choose(2); if (chance(12)) { cpu.sockets = 9 + choose(4); cpu.cores = 1; probe("many_sockets"); } else if (chance(12)) { cpu.sockets = 1; cpu.cores = 8 + choose(12); probe("many_cores"); } cpu.has_ids = chance(850); cpu.has_cores = cpu.has_ids && chance(900); cpu.has_mhz = chance(900); cpu.family = pick(std::vector<uint32_t>{6, 15, 23, 5, 4, 25}); cpu.model = choose(160); cpu.stepping = choose(12); cpu.cache = chance(900) ? 256 << choose(8) : 0; cpu.mhz = 400 + choose(4000) + choose(1000) / 1000.0;
  cpu.vendor = chance(600) ? pick(Strs{"GenuineIntel", "AuthenticAMD", "CentaurHauls", "HygonGenuine", "GenuineTMx86"}) : pick(Strs{"UMC UMC UMC ", "AMD ISBETTER", "CyrixInstead", "NexGenDriven", "RiseRiseRise", "TransmetaCPU", "Geode By NSC", "Vortex86 SoC", "Shanghai", "genuineintel", "GenuineIntel2"}); if (chance(250)) { auto& k = KNOWN[choose(sizeof KNOWN / sizeof *KNOWN)]; cpu.vendor = k.first; cpu.family = k.second.first; cpu.model = k.second.second; } cpu.name = chance(120) ? "" : pick(Strs{"Intel(R) Core(TM) i7   CPU     K 875", "Intel(R) Xeon(R) CPU E5-2680 v4 @ 2.40GHz", "AMD EPYC 7B13", "QEMU Virtual CPU version 2.5+", "Common KVM processor", "model name : odd"}); for (auto& f : FLAGS) if (chance(600)) cpu.flags.insert(f);
  Strs all(cpu.flags.begin(), cpu.flags.end()); for (auto& f : NOISE) if (chance(400)) all.push_back(f); for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[choose((uint32_t)i)]); std::string fl = join(all, " ");
  uint32_t n = cpu.sockets * cpu.cores * cpu.ht; bool interleave = chance(500); cpu.text.clear();
  if (cpu.style) { cpu.has_ids = cpu.has_cores = false; cpu.flags.clear(); probe("other_architectures"); }
  if (cpu.style == 1) { n = cpu.sockets; cpu.cores = cpu.ht = 1; cpu.has_mhz = false; cpu.cache = 0; cpu.vendor.clear(); cpu.name.clear(); cpu.family = 7 + choose(2); cpu.model = 0; for (uint32_t i = 0; i < n; ++i) cpu.text += strf("processor\t: %u\nBogoMIPS\t: 50.00\nFeatures\t: fp asimd mmx sse\nCPU implementer\t: 0x41\nCPU architecture: %u\nCPU variant\t: 0x3\nCPU part\t: 0xd0c\nCPU revision\t: %u\n\n", i, cpu.family, cpu.stepping); return; }
  if (cpu.style == 2) { n = cpu.sockets; cpu.cores = cpu.ht = 1; cpu.has_mhz = true; cpu.vendor.clear(); cpu.stepping = 0; cpu.cache = 64 << choose(6); cpu.dcache = 64 << choose(6); cpu.family = chance(500) ? 0x200 : 0x11a; cpu.name = ""; cpu.model = 0; for (uint32_t i = 0; i < n; ++i) cpu.text += strf("processor\t: %u\ncpu family\t: PA-RISC %s\ncpu\t\t: PA8%u00 (PCX-W2)\ncpu MHz\t\t: %.6f\nmodel\t\t: 9000/785/J7000\nmodel name\t: Forte W 2-way\nhversion\t: 0x00005d00\nI-cache\t\t: %u KB\nD-cache\t\t: %u KB (WB, direct mapped)\nbogomips\t: 1094.5\n\n", i, cpu.family == 0x200 ? "2.0" : "1.1a", i ? 7 : 5, i ? 100.0 : cpu.mhz, cpu.cache, cpu.dcache); cpu.name = "Forte W 2-way"; cpu.model = 9000; return; }
  if (cpu.style == 3) { cpu.cores = cpu.ht = 1; cpu.has_mhz = true; cpu.vendor.clear(); cpu.name.clear(); cpu.family = cpu.model = cpu.stepping = cpu.cache = 0; uint64_t hz = (uint64_t)(cpu.mhz * 1000000); cpu.text = strf("cpu\t\t: TI UltraSparc III (Cheetah)\nfpu\t\t: UltraSparc III integrated FPU\nprom\t\t: OBP 4.5\ntype\t\t: sun4u\nncpus probed\t: %u\nncpus active\t: %u\nD$ parity tl1\t: 0\nI$ parity tl1\t: 0\n", cpu.sockets + 1, cpu.sockets); for (uint32_t i = 0; i < cpu.sockets; ++i) cpu.text += strf("Cpu%uClkTck\t: %016llx\n", i, (unsigned long long)(i ? 1000 : hz)); cpu.text += "MMU Type\t: Cheetah\n"; return; }
  for (uint32_t i = 0; i < n; ++i) { uint32_t s = interleave ? i % cpu.sockets : i / (cpu.cores * cpu.ht), c = interleave ? (i / cpu.sockets) % cpu.cores : i % cpu.cores; double mhz = i ? 800 + choose(3000) : cpu.mhz;
    cpu.text += strf("processor\t: %u\nvendor_id\t: %s\ncpu family\t: %u\nmodel\t\t: %u\n%sstepping\t: %u\nmicrocode\t: 0xb000040\n", i, cpu.vendor.c_str(), cpu.family, cpu.model, cpu.name.empty() ? "" : ("model name\t: " + cpu.name + "\n").c_str(), cpu.stepping); if (cpu.has_mhz) cpu.text += strf("cpu MHz\t\t: %.3f\n", mhz); if (cpu.cache) cpu.text += strf("cache size\t: %u KB\n", cpu.cache);
    if (cpu.has_ids) cpu.text += strf("physical id\t: %u\nsiblings\t: %u\ncore id\t\t: %u\n", s, cpu.cores * cpu.ht, c); if (cpu.has_cores) cpu.text += strf("cpu cores\t: %u\n", cpu.cores); cpu.text += strf("apicid\t\t: %u\nfpu\t\t: yes\nfpu_exception\t: yes\ncpuid level\t: 20\nwp\t\t: yes\nflags\t\t: %s\nbugs\t\t: spectre_v1\nbogomips\t: 4800.00\nclflush size\t: 64\ncache_alignment\t: 64\naddress sizes\t: 46 bits physical, 48 bits virtual\npower management:\n\n", i, fl.c_str()); } }
void gen_mem(bool old) {
  mem = Mem(); mem.old = old; LL t = 1024 + choose(64000000); mem.v[0] = t; mem.v[1] = (LL)(t * choose(1000) / 1000); mem.v[2] = (t - mem.v[1]) / (1 + choose(20)); mem.v[3] = (t - mem.v[1] - mem.v[2]) / (1 + choose(6)); mem.v[4] = chance(800) ? choose(16000000) : 0; mem.v[5] = mem.v[4] * choose(1000) / 1000; static const char* N[6] = {"MemTotal", "MemFree", "Buffers", "Cached", "SwapTotal", "SwapFree"};
  if (old) mem.text = strf("        total:    used:    free:  shared: buffers:  cached:\nMem:  %lld %lld %lld %lld %lld %lld\nSwap: %lld %lld %lld\n", mem.v[0] * 1024, (mem.v[0] - mem.v[1]) * 1024, mem.v[1] * 1024, 0ll, mem.v[2] * 1024, mem.v[3] * 1024, mem.v[4] * 1024, (mem.v[4] - mem.v[5]) * 1024, mem.v[5] * 1024);
  int drop = chance(60) ? (int)choose(6) : -1; for (int i = 0; i < 6; ++i) { if (i == drop && !old) { mem.complete = false; mem.v[i] = -1; continue; } mem.text += strf("%-16s%8lld kB\n", (std::string(N[i]) + ":").c_str(), mem.v[i]); if (i == 1 && !old) mem.text += strf("MemAvailable:   %8lld kB\n", (LL)choose(10000)); if (i == 3) mem.text += strf("SwapCached:     %8u kB\nActive:         %8u kB\nInactive:       %8u kB\n", choose(100000), choose(1000000), choose(100000)); } mem.text += "VmallocTotal:   34359738367 kB\nHugePages_Total:       0\nHugepagesize:       2048 kB\n"; }
void gen_status() { rss = 1 + choose(4000000); rss_there = chance(900); std::string t = strf("Name:\t%s\nUmask:\t0022\nState:\tR (running)\nPid:\t%u\n", pick(Strs{"prog", "my prog", "VmRSS: 7 kB", "VmRSS:99"}).c_str(), 1 + choose(30000)); t += "Groups:\t"; uint32_t g = chance(200) ? 400 : 3; for (uint32_t i = 0; i < g; ++i) t += strf("%u ", 1000 + i); t += "\nVmPeak:\t 9999999 kB\nVmHWM:\t  888888 kB\n"; if (rss_there) t += strf("VmRSS:\t%8lld kB\n", rss); t += "RssAnon:\t  1111 kB\nVmStk:\t 132 kB\nThreads:\t1\n"; vfs::put("/proc/self/status", t); }
void gen_host() {
  W = Host(); W.sysname = "Linux"; W.node = pick(Strs{"node7", "h", "localhost", "node7.cluster.example.org", "a-very-long-host-name-of-more-than-fifty-characters-in-it"}); W.release = pick(Strs{"5.15.0-91-generic", "2.6.32-754.el6.x86_64", "3.10.0-1160", "4.4.0", "6.1.0-13-amd64", "2.4.21-sgi", "2.6", "10.2.1"}); W.version = "#1 SMP Tue Jan 1"; W.machine = pick(Strs{"x86_64", "aarch64"}); W.uname_fails = chance(50); W.name_fails = chance(80); W.ifs_fail = chance(80);
  uint32_t n = choose(5); for (uint32_t i = 0; i < n; ++i) W.ifs.push_back({pick(std::vector<int>{AF_INET, AF_INET6, 0, 17, AF_INET}), pick(Strs{"localhost", "node7", "node7.example.com", "h.example.net", "", "gw.other.org", "node7.second.org", W.node + ".dom"})});
  if (chance(300)) W.data = (rlim_t)choose(2000000) * 1000; if (chance(300)) W.as = chance(100) ? (rlim_t)1 << 62 : (rlim_t)choose(2000000) * 3000; W.data_fails = chance(60); W.as_fails = chance(60); for (auto& l : W.load) l = choose(4000) / 100.0; W.nload = chance(80) ? -1 : chance(50) ? 0 : 3; }
LL env_limit(const char* n) { const char* v = getenv(n); return v ? strtoll(v, nullptr, 10) : 0; }
bool faulted(size_t since, const char* path) { for (size_t i = since; i < vfs::fired.size(); ++i) if (vfs::fired[i].path.find(path) != std::string::npos && vfs::fired[i].kind.find("short") == std::string::npos) return true; return false; }
bool g_threads; bool bad_release() { return W.uname_fails; }
void query(SI& si, int op, bool first) {
  size_t f0 = vfs::fired.size(); where("system information query %d", op);
  switch (op) {
    case 0: { { Unscope u; si.RunCPUCheck(); } bool flt = faulted(f0, "/proc/cpuinfo"); unsigned ph, lo, lp; std::string fam, mod, ste, mn, ve, vid; int cs; float mhz; { Unscope u; ph = si.GetNumberOfPhysicalCPU(); lo = si.GetNumberOfLogicalCPU(); lp = si.GetLogicalProcessorsPerPhysical(); std::string t = si.GetFamilyID(); { Scope s; fam.assign(t.data(), t.size()); } t = si.GetModelID(); { Scope s; mod.assign(t.data(), t.size()); } t = si.GetSteppingCode(); { Scope s; ste.assign(t.data(), t.size()); } t = si.GetModelName(); { Scope s; mn.assign(t.data(), t.size()); } const char* c = si.GetVendorString(); { Scope s; ve = c; } c = si.GetVendorID(); { Scope s; vid = c; } cs = si.GetProcessorCacheSize(); mhz = si.GetProcessorClockFrequency(); std::string d = si.GetCPUDescription(); Scope s; const char* pn; { Unscope u; pn = si.GetExtendedProcessorName(); } std::string pname(pn); if (!flt) { const char* cn = classical(cpu); if (cpu.style == 2) cn = "PA8500 (PCX-W2)"; if (cpu.style == 3) cn = "TI UltraSparc III (Cheetah)"; if (cn) { probe("processor_names"); REQUIRE(pname == cn, "wrong-processor-name", "processor name of %s family %u model %u is %s instead of %s", cpu.vendor.c_str(), cpu.family, cpu.model, quote(pname).c_str(), quote(cn).c_str()); } std::string w = mn; if (mn.empty()) { w = strf("%g MHz %s ", (double)mhz, ve.c_str()) + pname; } size_t p; while ((p = w.find("  ")) != std::string::npos) w.erase(p, 1); REQUIRE(std::string(d.data(), d.size()) == strf("%u core ", ph) + w, "wrong-description", "CPU description is %s", quote(std::string(d.data(), d.size())).c_str()); } }
      ev("cpu: %u physical %u logical%s", ph, lo, flt ? " (fault)" : ""); uint32_t n = cpu.sockets * cpu.cores * cpu.ht, wp = cpu.style == 3 ? cpu.sockets : !cpu.has_ids ? 1 : cpu.sockets * (cpu.has_cores ? cpu.cores : 1);
      if (cpu.style == 3) n = 0; bool none = ph == 0 && lo == 0, exact = ph == wp && lo == n; REQUIRE(flt ? none || exact : exact, "wrong-cpu-count", "%u physical and %u logical CPUs instead of %u and %u (%u sockets, %u cores, %u threads)%s", ph, lo, wp, n, cpu.sockets, cpu.cores, cpu.ht, flt ? " after a fault" : ""); if (none) { probe("cpu_unknown"); if (first) REQUIRE(fam == "0" && mn.empty() && ve.empty() && mhz == 0, "partly-reported", "part of the CPU information is reported after a failure"); break; }
      REQUIRE(lp == n / wp, "wrong-cpu-count", "%u logical CPUs per physical one instead of %u", lp, n / wp); REQUIRE(fam == strf("%u", cpu.family) && mod == strf("%u", cpu.model) && ste == strf("%u", cpu.stepping), "wrong-cpu-id", "family %s model %s stepping %s instead of %u %u %u", fam.c_str(), mod.c_str(), ste.c_str(), cpu.family, cpu.model, cpu.stepping); REQUIRE(mn == cpu.name, "wrong-cpu-name", "model name is %s instead of %s", quote(mn).c_str(), quote(cpu.name).c_str()); REQUIRE(ve == cpu.vendor, "wrong-cpu-vendor", "vendor is %s instead of %s", quote(ve).c_str(), quote(cpu.vendor).c_str());
      std::string wv = cpu.vendor == "GenuineIntel" ? "Intel Corporation" : cpu.vendor == "AuthenticAMD" ? "Advanced Micro Devices" : cpu.vendor == "CentaurHauls" ? "IDT\\Centaur, Via Inc." : cpu.vendor == "GenuineTMx86" || cpu.vendor == "TransmetaCPU" ? "Transmeta" : cpu.vendor == "AMD ISBETTER" ? "Advanced Micro Devices" : cpu.vendor == "UMC UMC UMC " ? "United Microelectronics Corp." : cpu.vendor == "CyrixInstead" ? "Cyrix Corp., VIA Inc." : cpu.vendor == "NexGenDriven" ? "NexGen Inc., Advanced Micro Devices" : cpu.vendor == "RiseRiseRise" ? "Rise" : cpu.vendor == "Geode By NSC" ? "National Semiconductor" : cpu.style == 2 ? "Hewlett-Packard" : "Unknown Manufacturer"; REQUIRE(vid == wv, "wrong-cpu-vendor", "vendor id is %s instead of %s", quote(vid).c_str(), quote(wv).c_str());
      REQUIRE(cs == (int)(cpu.cache + cpu.dcache), "wrong-cache-size", "cache size is %d instead of %u", cs, cpu.cache); REQUIRE(cpu.has_mhz ? std::fabs(mhz - cpu.mhz) < 0.01 : mhz == 0, "wrong-clock", "clock is %g MHz instead of %.3f", mhz, cpu.mhz);
      if (first) { static const std::pair<long, const char*> B[] = {{1, "mmx"}, {4, "sse"}, {8, "sse2"}, {0x10, "3dnow"}, {0x400, "apic"}, {0x2000, "cmov"}, {0x4000, "mtrr"}, {0x40000, "acpi"}}; for (auto& b : B) { bool g; { Unscope u; g = si.DoesCPUSupportFeature(b.first); } REQUIRE(g == (cpu.flags.count(b.second) != 0), "wrong-cpu-feature", "feature %s is reported %d", b.second, (int)g); } } nontrivial(); break; }
    case 1: { { Unscope u; si.RunMemoryCheck(); } LL g[4]; { Unscope u; g[0] = (LL)si.GetTotalPhysicalMemory(); g[1] = (LL)si.GetAvailablePhysicalMemory(); g[2] = (LL)si.GetTotalVirtualMemory(); g[3] = (LL)si.GetAvailableVirtualMemory(); } bool flt = faulted(f0, "/proc/meminfo") || W.uname_fails; LL w[4] = {mem.v[0] / 1024, (mem.v[1] + mem.v[2] + mem.v[3]) / 1024, mem.v[4] / 1024, mem.v[5] / 1024}; bool exact = !memcmp(g, w, sizeof g), none = !g[0] && !g[1] && !g[2] && !g[3]; ev("memory: %lld %lld %lld %lld%s", g[0], g[1], g[2], g[3], flt ? " (fault)" : "");
      if (!first) { if (!flt && mem.complete) REQUIRE(exact, "wrong-memory", "memory is reported as %lld/%lld/%lld/%lld MB instead of %lld/%lld/%lld/%lld", g[0], g[1], g[2], g[3], w[0], w[1], w[2], w[3]); break; }
      REQUIRE(flt || !mem.complete ? none || (exact && mem.complete) : exact, "wrong-memory", "memory is reported as %lld/%lld/%lld/%lld MB instead of %lld/%lld/%lld/%lld (release %s)%s", g[0], g[1], g[2], g[3], w[0], w[1], w[2], w[3], W.release.c_str(), flt ? " after a fault" : ""); if (none) probe("memory_unknown"); nontrivial(); break; }
    case 2: { LL t, a, p, us, pr; std::string d; size_t f1; { Unscope u; t = si.GetHostMemoryTotal(); } f1 = vfs::fired.size(); bool flt = faulted(f0, "meminfo"); REQUIRE(t == mem.v[0] || (t == -1 && (flt || mem.v[0] < 0)), "wrong-memory", "host memory is %lld KiB instead of %lld%s", t, mem.v[0], flt ? " after a fault" : "");
      { Unscope u; a = si.GetHostMemoryAvailable("SIM_HOST"); } flt = faulted(f1, "meminfo"); f1 = vfs::fired.size(); LL wa = mem.v[0], hl = env_limit("SIM_HOST"); if (wa >= 0 && hl > 0) wa = std::min(wa, hl); REQUIRE(a == wa || (a == -1 && flt), "wrong-memory", "memory available on the host is %lld KiB instead of %lld", a, wa);
      { Unscope u; p = si.GetProcMemoryAvailable("SIM_HOST", "SIM_PROC"); } flt = faulted(f1, "meminfo"); f1 = vfs::fired.size(); LL wq = wa, pl = env_limit("SIM_PROC"); if (wq >= 0) { if (pl > 0) wq = std::min(wq, pl); if (!W.data_fails && W.data != RLIM_INFINITY) wq = std::min(wq, (LL)(W.data / 1024)); if (!W.as_fails && W.as != RLIM_INFINITY) wq = std::min(wq, (LL)(W.as / 1024)); } REQUIRE(p == wq || (p == -1 && flt), "wrong-memory", "memory available to the process is %lld KiB instead of %lld", p, wq);
      { Unscope u; us = si.GetHostMemoryUsed(); } flt = faulted(f1, "meminfo"); f1 = vfs::fired.size(); REQUIRE(mem.v[0] >= 0 && mem.v[1] >= 0 ? us == mem.v[0] - mem.v[1] || (us < 0 && flt) : us < 0, "wrong-memory", "memory used on the host is %lld KiB instead of %lld", us, mem.v[0] - mem.v[1]);
      { Unscope u; pr = si.GetProcMemoryUsed(); } flt = faulted(f1, "status"); REQUIRE(rss_there ? pr == rss || (pr == -1 && flt) : pr == -1, "wrong-memory", "memory used by the process is %lld KiB instead of %lld", pr, rss_there ? rss : -1);
      if (vfs::fired.size() == f0) { Unscope u; std::string x = si.GetMemoryDescription("SIM_HOST", "SIM_PROC"); Scope s; if (vfs::fired.size() == f0) { d = strf("Host Total: %lld KiB, Host Available: %lld KiB, Process Available: %lld KiB", t, a, p); REQUIRE(std::string(x.data(), x.size()) == d, "wrong-description", "memory description is %s instead of %s", quote(std::string(x.data(), x.size())).c_str(), quote(d).c_str()); } } ev("host %lld available %lld process %lld used %lld rss %lld", t, a, p, us, pr); nontrivial(); break; }
    case 3: { { Unscope u; si.RunOSCheck(); } std::string n, r, v, m, hn, ds; { Unscope u; const char* c = si.GetOSName(); { Scope s; n = c; } c = si.GetOSRelease(); { Scope s; r = c; } c = si.GetOSVersion(); { Scope s; v = c; } c = si.GetOSPlatform(); { Scope s; m = c; } c = si.GetHostname(); { Scope s; hn = c; } std::string x = si.GetOSDescription(); Scope s; ds.assign(x.data(), x.size()); } ev("os %s %s host %s", n.c_str(), r.c_str(), hn.c_str());
      if (W.uname_fails) { if (first) REQUIRE(n.empty() && r.empty() && v.empty() && m.empty() && hn == "localhost", "wrong-os", "operating system reported although uname failed"); } else { REQUIRE(n == W.sysname && r == W.release && v == W.version && m == W.machine, "wrong-os", "operating system is %s %s %s %s", n.c_str(), r.c_str(), v.c_str(), m.c_str()); REQUIRE(hn == W.node, "wrong-host", "host name is %s instead of %s", quote(hn).c_str(), quote(W.node).c_str()); REQUIRE(ds == n + " " + r + " " + v, "wrong-description", "OS description is %s", quote(ds).c_str()); } nontrivial(); break; }
    case 4: { std::string f; { Unscope u; std::string x = si.GetFullyQualifiedDomainName(); Scope s; f.assign(x.data(), x.size()); } std::string want = W.name_fails ? "localhost" : W.node; if (!W.name_fails && !W.ifs_fail) for (auto& i : W.ifs) if ((i.fam == AF_INET || i.fam == AF_INET6) && i.host.size() > W.node.size() && i.host.find(W.node) != std::string::npos) { want = i.host; probe("domain_name_found"); break; } ev("domain name %s", f.c_str()); REQUIRE(f == want, "wrong-host", "domain name is %s instead of %s", quote(f).c_str(), quote(want).c_str()); if (!g_threads) REQUIRE(W.lists == 0, "interface-list-leak", "%d interface lists not freed", W.lists); nontrivial(); break; }
    default: { double l; { Unscope u; l = si.GetLoadAverage(); } double want = W.nload > 0 ? W.load[0] : 0; REQUIRE(l == want, "wrong-load", "load average is %g instead of %g", l, want); nontrivial(); } }
  if (!g_threads) REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open by query %d", vfs::open_fds(), op); }
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
void run() { Scope s0; vfs::reset(); static NullBuf nb; std::streambuf* old = std::cout.rdbuf(&nb); vfs::mkdirs("/proc/self"); gen_host(); gen_cpu(); bool old24 = W.release.compare(0, 3, "2.4") == 0; gen_mem(old24); gen_status(); if (chance(950)) vfs::put("/proc/cpuinfo", cpu.text); else { vfs::put("/proc/cpuinfo", cpu.text); vfs::F.open_err = 900; vfs::F.budget = 2; } vfs::put("/proc/meminfo", mem.text);
  unsetenv("SIM_HOST"); unsetenv("SIM_PROC"); if (chance(400)) setenv("SIM_HOST", pick(Strs{"1000", "500000", "", "junk", "-5", "99999999999"}).c_str(), 1); if (chance(400)) setenv("SIM_PROC", pick(Strs{"2000", "300000", "0", "12x"}).c_str(), 1);
  if (chance(400)) vfs::swarm(true, false, false); bool threads = chance(200); uint32_t n = 1 + choose(6);
  ev("%u sockets %u cores %u threads ids %d release %s node %s", cpu.sockets, cpu.cores, cpu.ht, (int)cpu.has_ids, W.release.c_str(), W.node.c_str());
  auto body = [&](bool change) { SI* si; { Unscope u; si = new SI(); } bool c1 = true, m1 = true, o1 = true; for (uint32_t i = 0; i < n; ++i) { int op = (int)choose(6); query(*si, op, op == 0 ? c1 : op == 1 ? m1 : o1); if (op == 0) c1 = false; if (op == 1) m1 = false; if (op == 3) o1 = false;
      if (change && chance(300)) { if (chance(500)) { gen_cpu(); vfs::put("/proc/cpuinfo", cpu.text); ev("processors change: %u sockets %u cores %u threads", cpu.sockets, cpu.cores, cpu.ht); } else { gen_mem(old24); vfs::put("/proc/meminfo", mem.text); } probe("kernel_changes"); } } Unscope u; delete si; };
  g_threads = threads; if (!threads) body(true); else { vfs::faults_off(); g_race_detect = true; set_preempt(20 + choose(2000)); for (int t = 0; t < 2; ++t) spawn([&]() { Scope s; body(false); }); { Unscope u; run_all(); } REQUIRE(vfs::open_fds() == 0 && W.lists == 0, "descriptor-leak", "%d descriptors and %d interface lists left open", vfs::open_fds(), W.lists); } std::cout.rdbuf(old); }
Reg r39("C39", run);
// ------------------------------------------------------------------ C40: text expansion
namespace kv = kwiver::vital;
const Strs ENVN{"SIM_A", "SIM_B", "SIM_C.D", "SIM_"}, KEYN{"k", "a:b", "a:b:c", "x.y_1", "9", "k0", "k.", "K", "a", "a:", "a.rather_long.name:with_parts.of.every_kind:0123456789:and.more", "kk"};
struct Providers { std::map<std::string, std::string> sym, env, cfg, sys; };
std::string gen_value() { if (chance(20)) { probe("long_value"); return "long " + std::string(300 + choose(2000), 'v') + " end"; } return chance(150) ? "" : chance(250) ? "value " + std::string(10 + choose(60), (char)('a' + choose(26))) : chance(300) ? pick(Strs{"$SYMTAB{k}", "a b  c", "$", "${}", "{", "}", "\n", "\\1", "&", "\xc3\xa9", "$ENV{SIM_A}", "$X"}) : text(8, "ab$ {}\t"); }
std::string gen_name() { return chance(200) ? pick(ENVN) : chance(400) ? pick(KEYN) : chance(300) ? pick(Strs{"numproc", "hostname", "cwd", "islinux", "osname", "totalphysicalmemory", "bogus"}) : chance(200) ? "" : text(5, "kab:._9"); }
std::string gen_text(const Strs& types) { std::string r; uint32_t n = choose(7); if (chance(25)) { n = 20 + choose(80); probe("many_tokens"); } for (uint32_t i = 0; i < n; ++i) switch (choose(8)) { case 0: r += text(6, "ab$ {}._:"); break; case 1: r += pick(Strs{"$", "$$", "${", "$SYMTAB", "$SYMTAB{", "$SYMTAB{k", "$SYMTAB{k k}", "$SYMTAB{k-1}", "$1{k}", "$_S{k}", "}", "$SYMTAB {k}", "$SYMTAB$SYMTAB{k}", "$ {k}", "\\$SYMTAB{k}"}); break; case 2: r += "$" + pick(Strs{"sym", "Nope", "E", "ENV2", "SYM_TAB", "a9"}) + "{" + gen_name() + "}"; break; default: r += "$" + pick(types) + "{" + gen_name() + "}"; } return r; }
bool is_alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool is_digit(char c) { return c >= '0' && c <= '9'; }
// the reference expander
std::string ref_expand(const std::string& t, const std::map<std::string, const std::map<std::string, std::string>*>& prov, uint32_t* hits, bool* missing) { std::string r; size_t i = 0; while (i < t.size()) { if (t[i] == '$' && i + 1 < t.size() && is_alpha(t[i + 1])) { size_t j = i + 1; while (j < t.size() && (is_alpha(t[j]) || is_digit(t[j]) || t[j] == '_')) ++j; if (j < t.size() && t[j] == '{') { size_t k = j + 1; while (k < t.size() && (is_alpha(t[k]) || is_digit(t[k]) || t[k] == '.' || t[k] == '_' || t[k] == ':')) ++k; if (k < t.size() && t[k] == '}') { auto p = prov.find(t.substr(i + 1, j - i - 1)); if (p == prov.end()) r += t.substr(i, k + 1 - i); else { ++*hits; auto v = p->second->find(t.substr(j + 1, k - j - 1)); if (v != p->second->end()) r += v->second; else *missing = true; } i = k + 1; continue; } } } r += t[i++]; } return r; }
struct Exp { kv::token_expander* ex = nullptr; std::map<std::string, kv::token_type_symtab*> syms; kv::token_type* other[3]; kv::config_block_sptr cfg; std::map<std::string, std::map<std::string, std::string>> symv; };
void sys_values(std::map<std::string, std::string>& m) { auto u = [](LL v) { return strf("%lld", v); }; m["cwd"] = vfs::cwd; m["numproc"] = u(cpu.style == 3 ? 0 : cpu.sockets * cpu.cores * cpu.ht); LL k = mem.complete ? 1 : 0; m["totalphysicalmemory"] = u(k * mem.v[0] / 1024); m["availablephysicalmemory"] = u(k * (mem.v[1] + mem.v[2] + mem.v[3]) / 1024); m["totalvirtualmemory"] = u(k * mem.v[4] / 1024); m["availablevirtualmemory"] = u(k * mem.v[5] / 1024); m["hostname"] = W.node;
  std::string want = W.name_fails ? "localhost" : W.node; if (!W.name_fails && !W.ifs_fail) for (auto& i : W.ifs) if ((i.fam == AF_INET || i.fam == AF_INET6) && i.host.size() > W.node.size() && i.host.find(W.node) != std::string::npos) { want = i.host; break; } m["domainname"] = want; m["osname"] = W.sysname; m["osdescription"] = W.sysname + " " + W.release + " " + W.version; m["osplatform"] = W.machine; m["osversion"] = W.version; m["is64bits"] = "TRUE"; m["iswindows"] = "FALSE"; m["isapple"] = "FALSE"; m["islinux"] = "TRUE"; }
const Strs SYSN{"cwd", "numproc", "totalphysicalmemory", "availablephysicalmemory", "totalvirtualmemory", "availablevirtualmemory", "hostname", "domainname", "osname", "osdescription", "osplatform", "osversion", "is64bits", "iswindows", "isapple", "islinux"};
void body40(bool single, uint32_t steps) {
  Exp e; Providers p; int64_t live0 = 0; if (single) live0 = alloc_live();
  { Unscope u; e.ex = new kv::token_expander(); e.cfg = kv::config_block::empty_config("c"); }
  for (auto& k : KEYN) if (chance(700)) { std::string v = gen_value(); p.cfg[k] = trim(v); Unscope u; e.cfg->set_value(k, std::string(v.data(), v.size())); }
  if (single) for (auto& n : ENVN) { unsetenv(n.c_str()); if (chance(700)) { std::string v = gen_value(); p.env[n] = v; setenv(n.c_str(), v.c_str(), 1); } } else for (auto& n : ENVN) if (const char* v = getenv(n.c_str())) p.env[n] = v;
  sys_values(p.sys); bool have[3] = {false, false, false}, ask_cwd = false; Strs types;
  for (uint32_t st = 0; st < steps; ++st) { std::map<std::string, const std::map<std::string, std::string>*> prov; for (auto& s : e.symv) prov[s.first] = &s.second; static const char* TN[3] = {"ENV", "SYSENV", "CONFIG"}; const std::map<std::string, std::string>* PV[3] = {&p.env, &p.sys, &p.cfg}; for (int i = 0; i < 3; ++i) if (have[i]) prov[TN[i]] = PV[i];
    switch (choose(10)) {
      case 9: if (single && chance(300)) { vfs::cwd = pick(Strs{"/work", "/work/dir", "/"}); p.sys["cwd"] = vfs::cwd; ev("directory %s", vfs::cwd.c_str()); probe("directory_changes"); ask_cwd = true; } else { std::string n = pick(KEYN); if (chance(300)) { if (p.cfg.count(n)) { Unscope u; e.cfg->unset_value(n); } p.cfg.erase(n); } else { std::string v = gen_value(); { Unscope u; e.cfg->set_value(n, std::string(v.data(), v.size())); } p.cfg[n] = trim(v); } ev("configuration %s changes", n.c_str()); probe("configuration_changes"); } break;
      case 0: case 1: { int k = (int)choose(5); if (k < 3) { kv::token_type* t = nullptr; bool r; { Unscope u; t = k == 0 ? (kv::token_type*)new kv::token_type_env() : k == 1 ? (kv::token_type*)new kv::token_type_sysenv() : (kv::token_type*)new kv::token_type_config(e.cfg.get()); r = e.ex->add_token_type(t); } REQUIRE(r, "not-added", "token type %s was not added", TN[k]); if (k == 1) sys_values(p.sys); have[k] = true; e.other[k] = t; e.symv.erase(TN[k]); e.syms.erase(TN[k]); ev("add %s", TN[k]); if (single && k == 2 && false) probe("x"); }
          else { std::string n = pick(Strs{"SYMTAB", "SYMTAB", "S2", "a_9", "ENV", "CONFIG"}); kv::token_type_symtab* t; { Unscope u; t = n == "SYMTAB" ? new kv::token_type_symtab() : new kv::token_type_symtab(std::string(n.c_str())); e.ex->add_token_type(t); } if (e.syms.count(n)) probe("type_replaced"); e.syms[n] = t; e.symv[n].clear(); for (int i = 0; i < 3; ++i) if (n == TN[i]) have[i] = false; ev("add symbol table %s", n.c_str()); } break; }
      case 2: if (e.syms.empty()) break; { auto it = e.syms.begin(); std::advance(it, choose((uint32_t)e.syms.size())); std::string n = pick(KEYN), v = gen_value(); { Unscope u; it->second->add_entry(std::string(n.c_str()), std::string(v.data(), v.size())); } e.symv[it->first][n] = v; ev("%s{%s} = %s", it->first.c_str(), n.c_str(), quote(v).c_str()); } break;
      case 3: if (e.syms.empty()) break; { auto it = e.syms.begin(); std::advance(it, choose((uint32_t)e.syms.size())); std::string n = pick(KEYN); { Unscope u; it->second->remove_entry(std::string(n.c_str())); } e.symv[it->first].erase(n); ev("remove %s{%s}", it->first.c_str(), n.c_str()); } break;
      case 4: if (!single) break; { std::string n = pick(ENVN), v = gen_value(); if (chance(300)) { unsetenv(n.c_str()); p.env.erase(n); } else { setenv(n.c_str(), v.c_str(), 1); p.env[n] = v; } ev("environment %s changes", n.c_str()); } break;
      case 5: if (!prov.empty()) { auto it = prov.begin(); std::advance(it, choose((uint32_t)prov.size())); kv::token_type* t = e.syms.count(it->first) ? e.syms[it->first] : e.other[it->first == "ENV" ? 0 : it->first == "SYSENV" ? 1 : 2]; std::string n = chance(300) ? gen_name() : it->first == "SYSENV" ? pick(SYSN) : pick(KEYN), got, tn; bool r; { Unscope u; std::string x = "left over"; r = t->lookup_entry(std::string(n.c_str()), x); std::string const& y = t->token_type_name(); Scope s; got.assign(x.data(), x.size()); tn.assign(y.data(), y.size()); } auto v = it->second->find(n); bool w = v != it->second->end(); ev("lookup %s{%s}: %d", it->first.c_str(), n.c_str(), (int)r); REQUIRE(tn == it->first, "wrong-type-name", "token type %s is named %s", it->first.c_str(), quote(tn).c_str()); REQUIRE(r == w, "wrong-lookup", "looking up %s{%s} returned %d", it->first.c_str(), n.c_str(), (int)r); if (w) REQUIRE(got == v->second, "wrong-lookup", "%s{%s} is %s instead of %s", it->first.c_str(), n.c_str(), quote(got).c_str(), quote(v->second).c_str()); } break;
      default: { types.clear(); for (auto& q : prov) types.push_back(q.first); if (types.empty() || chance(100)) types.push_back("SYMTAB"); std::string t = gen_text(types); if (have[1] && (ask_cwd || chance(50))) { t += "$SYSENV{cwd}"; ask_cwd = false; } if (have[2] && !p.cfg.empty() && single && chance(300)) { auto it = p.cfg.begin(); std::advance(it, choose((uint32_t)p.cfg.size())); t = pick(Strs{"", "x ", "$CONFIG"}) + "$CONFIG{" + it->first + "}"; } uint32_t hits = 0; bool missing = false; std::string want = ref_expand(t, prov, &hits, &missing), got; bool oom = single && !missing && chance(350), ok = true; where("expanding %s", quote(t).c_str()); if (oom) alloc_arm(1 + choose(chance(500) ? 6 : 40)); { Unscope u; try { std::string a; { Scope s; } a.assign(t.data(), t.size()); std::string x = e.ex->expand_token(a); Scope s; got.assign(x.data(), x.size()); } catch (std::bad_alloc const&) { ok = false; } } bool f = oom && alloc_fired(); if (oom) alloc_disarm(); if (f) fault("alloc"); REQUIRE(ok || f, "unexpected-exception", "expanding %s raised", quote(t).c_str()); ev("expand %s: %s", quote(t).c_str(), ok ? quote(got).c_str() : "out of memory"); if (ok) REQUIRE(got == want, "wrong-expansion", "%s expands to %s instead of %s%s", quote(t).c_str(), quote(got).c_str(), quote(want).c_str(), f ? " after a failed allocation" : ""); if (hits) nontrivial(); } } }
  { Unscope u; delete e.ex; e.cfg.reset(); } { Exp x; std::swap(x, e); }
  if (single) REQUIRE(alloc_live() == live0, "memory-leak", "%lld blocks left after the expander was destroyed", (LL)(alloc_live() - live0)); }
void run40() { Scope s0; vfs::reset(); clearenv(); static NullBuf nb; std::streambuf* old = std::cout.rdbuf(&nb); vfs::mkdirs("/proc/self"); vfs::mkdirs("/work/dir"); vfs::cwd = pick(Strs{"/work", "/work/dir", "/"}); gen_host(); W.uname_fails = false; gen_cpu(); gen_mem(W.release.compare(0, 3, "2.4") == 0); gen_status(); vfs::put("/proc/cpuinfo", cpu.text); vfs::put("/proc/meminfo", mem.text); { Unscope u; kv::get_logger("warm"); std::unique_ptr<kv::token_expander> w(new kv::token_expander()); w->expand_token("$A{b}"); std::unique_ptr<kv::token_type_sysenv> y(new kv::token_type_sysenv()); std::string r; y->lookup_entry("numproc", r); y->lookup_entry("domainname", r); }
  bool threads = chance(250); if (!threads) body40(true, 3 + choose(25)); else { for (auto& n : ENVN) { unsetenv(n.c_str()); if (chance(700)) setenv(n.c_str(), gen_value().c_str(), 1); } g_race_detect = true; set_preempt(20 + choose(2000)); uint32_t k = 2 + choose(2); for (uint32_t t = 0; t < k; ++t) { uint32_t st = 3 + choose(12); spawn([=]() { Scope s; body40(false, st); }); } { Unscope u; run_all(); } REQUIRE(vfs::open_fds() == 0 && W.lists == 0, "descriptor-leak", "descriptors left open"); } std::cout.rdbuf(old); }
Reg r40("C40", run40);
// ------------------------------------------------------------------ C42: crash reports
struct Act { void* fn; int flags; uint64_t mask; bool operator==(Act const& o) const { return fn == o.fn && flags == o.flags && mask == o.mask; } };
Act acts[65]; const int SIGS[7] = {SIGABRT, SIGSEGV, SIGTERM, SIGINT, SIGILL, SIGBUS, SIGFPE};
struct Frame { void* addr; bool known, named; std::string file, sym, text; }; std::vector<Frame> frames;
bool g42, reporting, enabled; std::map<int, Act> saved42; std::string exe_path; bool exe_fails; struct ErrBuf : std::streambuf { std::string out; std::streamsize xsputn(const char* p, std::streamsize n) override { Scope s; out.append(p, n); return n; } int overflow(int c) override { if (c != EOF) { Scope s; out += (char)c; } return 0; } } *err42;
std::string want_report; int deliver_in = 0, calls42 = 0; void deliver(int sig);
uint64_t mask_of(const sigset_t& m) { uint64_t r = 0; for (int i = 1; i < 65; ++i) if (sigismember(&m, i) == 1) r |= 1ull << (i - 1); return r; }
void tick42() { if (deliver_in && !reporting && --deliver_in == 0) { int sig = SIGS[choose(7)]; if (acts[sig].flags & SA_SIGINFO) deliver(sig); } }
void after_abort() { ev("abort"); REQUIRE(reporting, "unexpected-abort", "the program was aborted without a signal"); std::string const& o = err42->out; REQUIRE(o == want_report, "wrong-report", "the report is %s instead of %s", quote(o, 900).c_str(), quote(want_report, 900).c_str());
  for (int s : SIGS) { Act w = saved42.at(s); REQUIRE(acts[s] == w, "handlers-not-restored", "the action of signal %d before the abort is not the one before reports were enabled", s); } nontrivial(); end_run(); }
}
extern "C" {
int sigaction(int sig, const struct sigaction* n, struct sigaction* o) { if (!(g42 && IN_SIM)) { static int (*real)(int, const struct sigaction*, struct sigaction*) = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction"); return real(sig, n, o); } { sim::Scope s; REQUIRE(sig > 0 && sig < 65, "bad-signal", "sigaction of signal %d", sig); if (o) { memset(o, 0, sizeof *o); o->sa_sigaction = (void (*)(int, siginfo_t*, void*))acts[sig].fn; o->sa_flags = acts[sig].flags; sigemptyset(&o->sa_mask); for (int i = 1; i < 65; ++i) if (acts[sig].mask >> (i - 1) & 1) sigaddset(&o->sa_mask, i); } if (n) { REQUIRE(sig != SIGKILL && sig != SIGSTOP, "bad-signal", "an action for signal %d", sig); acts[sig].fn = (void*)n->sa_sigaction; acts[sig].flags = n->sa_flags; acts[sig].mask = mask_of(n->sa_mask); } ++calls42; tick42(); } return 0; }
int backtrace(void** b, int n) { sim::Scope s; int k = std::min(n, (int)frames.size()); for (int i = 0; i < k; ++i) b[i] = frames[i].addr; return k; }
int dladdr(const void* a, Dl_info* i) { if (!(g42 && IN_SIM)) { static int (*real)(const void*, Dl_info*) = (int (*)(const void*, Dl_info*))dlsym(RTLD_NEXT, "dladdr"); return real(a, i); } sim::Scope s; memset(i, 0, sizeof *i); for (auto& f : frames) if (f.addr == a) { if (!f.known) { fault("dladdr"); return 0; } i->dli_fname = f.file.c_str(); i->dli_fbase = (void*)0x1000; if (f.named) { i->dli_sname = f.sym.c_str(); i->dli_saddr = f.addr; } return 1; } return 0; }
}
extern "C" void abort() { if (g42 && sim::g_active) { sim::Scope s; after_abort(); } static void (*real)() = (void (*)())dlsym(RTLD_NEXT, "abort"); real(); _exit(134); }
namespace {
std::string base_name(std::string const& p, bool whole) { size_t a = p.rfind('/'); return whole || a == std::string::npos ? p : p.substr(a + 1); }
std::string stack_text(int first, bool whole) { std::string r; for (size_t i = (size_t)first; i < std::min(frames.size(), (size_t)256); ++i) { Frame& f = frames[i]; bool n = f.known && f.named; std::string file = !n ? "???" : f.file == "/proc/self/exe" ? (exe_fails ? "/proc/self/exe" : exe_path) : f.file; r += strf("%p : ", f.addr) + (n ? f.text : std::string("???")) + " [(" + base_name(file, whole) + ") ???:-1]\n"; } return r; }
struct Cause { int sig, code; const char* text; }; const Cause CAUSES[] = {{SIGFPE, FPE_INTDIV, "integer division by zero"}, {SIGFPE, FPE_INTOVF, "integer overflow"}, {SIGFPE, FPE_FLTDIV, "floating point divide by zero"}, {SIGFPE, FPE_FLTOVF, "floating point overflow"}, {SIGFPE, FPE_FLTUND, "floating point underflow"}, {SIGFPE, FPE_FLTRES, "floating point inexact result"}, {SIGFPE, FPE_FLTINV, "floating point invalid operation"}, {SIGFPE, FPE_FLTSUB, "floating point subscript out of range"}, {SIGSEGV, SEGV_MAPERR, "address not mapped to object"}, {SIGSEGV, SEGV_ACCERR, "invalid permission for mapped object"}, {SIGBUS, BUS_ADRALN, "invalid address alignment"}, {SIGBUS, BUS_ADRERR, "nonexistent physical address"}, {SIGBUS, BUS_OBJERR, "object-specific hardware error"}, {SIGILL, ILL_ILLOPC, "illegal opcode"}, {SIGILL, ILL_ILLOPN, "illegal operand"}, {SIGILL, ILL_ILLADR, "illegal addressing mode."}, {SIGILL, ILL_ILLTRP, "illegal trap"}, {SIGILL, ILL_PRVOPC, "privileged opcode"}, {SIGILL, ILL_PRVREG, "privileged register"}, {SIGILL, ILL_COPROC, "co-processor error"}, {SIGILL, ILL_BADSTK, "internal stack error"}};
// a signal arrives: the report is due
void deliver(int sig) {
  siginfo_t* si = (siginfo_t*)calloc(1, sizeof *si); si->si_signo = sig; si->si_code = (int)choose(12); if (chance(100)) si->si_code = SI_USER - (int)choose(3); si->si_addr = chance(200) ? nullptr : (void*)(uintptr_t)(0x1000 + choose(1u << 30)); reporting = true; ev("signal %d code %d", sig, si->si_code); probe("signal_reported"); if (calls42 % 7) probe("signal_during_switch");
  std::string line; const char* nm = sig == SIGINT ? "SIGINT" : sig == SIGTERM ? "SIGTERM" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : "SIGILL"; line = strf("Caught %s", nm);
  if (sig != SIGINT && sig != SIGTERM && sig != SIGABRT) { std::string why = strf("code %d", si->si_code); for (auto& c : CAUSES) if (c.sig == sig && c.code == si->si_code) why = c.text; if (sig == SIGBUS && si->si_code == 4) why = "Hardware memory error consumed on a machine check; action required."; if (sig == SIGBUS && si->si_code == 5) why = "Hardware memory error detected in process but not consumed; action optional."; line += strf(" at 0x%llx %s", (unsigned long long)(uintptr_t)si->si_addr, why.c_str()); }
  const char* bar = "=========================================================\n"; want_report = strf("\n%sProcess id %d %s\nProgram Stack:\n", bar, (int)getpid(), line.c_str()) + stack_text(2, false) + bar + "\n";
  auto fn = (void (*)(int, siginfo_t*, void*))acts[sig].fn; if (acts[sig].flags & SA_RESETHAND) { acts[sig].fn = nullptr; acts[sig].flags &= ~SA_SIGINFO; } { Unscope u; fn(sig, si, nullptr); } violation("handler-returned", "the handler of signal %d returned", sig); }
void hook42() { Scope s; g_hook_at = ~0ull; if (reporting) return; int sig = SIGS[choose(7)]; if (acts[sig].flags & SA_SIGINFO) deliver(sig); }
void run42() { Scope s0; vfs::reset(); vfs::mkdirs("/proc/self"); reporting = enabled = false; calls42 = 0; deliver_in = 0; static ErrBuf eb; eb.out.clear(); err42 = &eb; std::cerr.rdbuf(&eb);
  exe_fails = chance(150); { uint32_t n = chance(300) ? 100 + choose(3000) : choose(40); exe_path = "/opt"; while (exe_path.size() < n) { exe_path += "/"; uint32_t k = 1 + choose(200); if (chance(50)) k = 1023 > exe_path.size() ? 1024 - (uint32_t)exe_path.size() : k; exe_path += std::string(std::min(k, 250u), 'd'); } exe_path += "/prog"; if (chance(200)) { exe_path.resize(std::min(exe_path.size(), (size_t)1024)); while (exe_path.size() < 1024) exe_path += exe_path.size() % 100 ? "x" : "/"; if (exe_path.back() == '/') exe_path.back() = 'x'; } if (!exe_fails) vfs::put_link("/proc/self/exe", exe_path); else fault("no_exe_link"); }
  frames.clear(); uint32_t nf = chance(30) ? 240 + choose(40) : choose(9); for (uint32_t i = 0; i < nf; ++i) { Frame f; f.addr = (void*)(uintptr_t)(0x400000 + i * 64 + choose(16)); f.known = !chance(120); f.named = !chance(150); f.file = pick(Strs{"/usr/lib/libfoo.so.1", "prog", "/proc/self/exe", "/proc/self/exe", "./bin/prog"}); switch (choose(5)) { case 0: f.sym = f.text = "main"; break; case 1: f.sym = "_ZN3foo3barEi"; f.text = "foo::bar(int)"; break; case 2: f.sym = f.text = "_Zqq"; break; case 3: { uint32_t n = chance(400) ? choose(60) : choose(3); std::string part(1 + choose(chance(300) ? 600 : 20), 'p'); f.sym = strf("_Z3foo%zu", part.size()) + part; f.text = "foo(" + part; for (uint32_t k = 0; k < n; ++k) { f.sym += "S_"; f.text += ", " + part; } f.text += ")"; if (f.text.size() > 1023) probe("long_name"); break; } default: f.sym = "_ZNSt6vectorIiSaIiEE9push_backERKi"; f.text = "std::vector<int, std::allocator<int> >::push_back(int const&)"; } frames.push_back(f); }
  for (auto& a : acts) a = Act{nullptr, 0, 0}; g42 = true; uint32_t n = 1 + choose(9); deliver_in = chance(500) ? 1 + (int)choose(40) : 0; bool hooked = chance(200); if (hooked) { g_hook = hook42; g_hook_at = g_steps + choose(1500); }
  std::map<int, Act> mine; uint64_t live0 = alloc_live();
  for (uint32_t i = 0; i < n; ++i) { switch (choose(4)) {
      case 0: { int sig = SIGS[choose(7)]; Act a{(void*)(uintptr_t)(choose(4) < 2 ? choose(2) : 0x5000 + choose(100)), (int)(choose(2) ? SA_RESTART : 0), choose(1u << 20)}; acts[sig] = a; ev("the program sets its action of signal %d", sig); break; }
      case 1: { ev("enable"); std::map<int, Act> before; for (int s : SIGS) before[s] = acts[s]; if (!enabled) saved42 = before; { Unscope u; SI::SetStackTraceOnError(1 + (int)(i % 2)); } if (!enabled) for (int s : SIGS) REQUIRE(acts[s].flags & SA_SIGINFO && acts[s].fn, "not-enabled", "signal %d is not reported", s); else for (int s : SIGS) REQUIRE(acts[s] == before[s], "enabled-twice", "enabling again changed the action of signal %d", s); enabled = true; nontrivial(); break; }
      case 2: { ev("disable"); std::map<int, Act> before; for (int s : SIGS) before[s] = acts[s]; { Unscope u; SI::SetStackTraceOnError(0); } for (int s : SIGS) REQUIRE(acts[s] == (enabled ? saved42[s] : before[s]), "handlers-not-restored", "disabling did not restore the action of signal %d", s); enabled = false; nontrivial(); break; }
      default: { int first = (int)choose((uint32_t)frames.size() + 2), whole = (int)choose(2); std::string t; { Unscope u; std::string x = SI::GetProgramStack(first, whole); Scope s; t.assign(x.data(), x.size()); } std::string w = stack_text(first, whole != 0); ev("stack from %d", first); if (t != w) { size_t d = 0, l = 0; while (d < t.size() && d < w.size() && t[d] == w[d]) { if (t[d] == '\n') l = d + 1; ++d; } violation("wrong-stack", "the stack from %d has %s in place of %s", first, quote(t.substr(l, t.find('\n', l) - l), 300).c_str(), quote(w.substr(std::min(l, w.size()), w.find('\n', l) - l), 300).c_str()); } nontrivial(); } }
    for (int s = 1; s < 65; ++s) if (std::find(SIGS, SIGS + 7, s) == SIGS + 7) REQUIRE(!acts[s].fn && !acts[s].flags, "other-signal-changed", "the action of signal %d was changed", s);
    REQUIRE(alloc_live() == live0, "memory-leak", "%lld blocks left", (LL)(alloc_live() - live0)); }
  g_hook_at = ~0ull; if (enabled && chance(700)) { int sig = SIGS[choose(7)]; if (acts[sig].flags & SA_SIGINFO) deliver(sig); } }
Reg r42("C42", run42);
}
