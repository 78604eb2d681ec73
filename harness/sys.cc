// File metadata, times and links; path functions; environment.
#include "h.h"
#include <kwiversys/SystemTools.hxx>
#include <sys/stat.h>
using namespace h;
namespace ks = kwiversys; typedef ks::SystemTools ST; using vfs::Snap; using vfs::Ent;
namespace {
#define CALL(...) ({ Unscope u_; uint64_t l_ = alloc_live(), q_ = alloc_seq(); auto r_ = __VA_ARGS__; Scope s_; if (!threads) REQUIRE(alloc_live() == l_, "memory-leak", "%s left %lld heap blocks: %s", #__VA_ARGS__, (long long)(alloc_live() - l_), alloc_list(q_).c_str()); r_; })
#define STR(...) ({ std::string o_; { Unscope u_; std::string t_ = __VA_ARGS__; Scope s_; o_ = isolate(t_); } o_; })
bool threads = false;
int64_t wall() { return g_now_ns + g_real_off_ns; }
void clock_moves() {
  g_now_ns += pick(std::vector<int64_t>{0, 1, 999, 1000000, 1500000000, 3600000000000ll});
  if (chance(200)) { int64_t j = pick(std::vector<int64_t>{1, 999999999, 1000000000, 86400000000000ll}); if (chance(500)) j = -j; if (wall() + j > 0) { g_real_off_ns += j; fault(j < 0 ? "clock_set_back" : "clock_set_forward"); } } }
bool under(const std::string& p, const std::string& top) { return p == top || (p.size() > top.size() && p.compare(0, top.size(), top) == 0 && p[top.size()] == '/'); }
bool same(const Ent& a, const Ent& b, bool times) { return a.type == b.type && a.mode == b.mode && a.data == b.data && a.ino == b.ino && (!times || a.mtime == b.mtime); }
std::string diff(const Snap& a, const Snap& b, const std::set<std::string>& ex) {
  for (auto& e : a) if (!ex.count(e.first)) { auto i = b.find(e.first); if (i == b.end()) return e.first + " disappeared"; if (!same(e.second, i->second, e.second.type != vfs::DIR_)) return e.first + " changed"; }
  for (auto& e : b) if (!ex.count(e.first) && !a.count(e.first)) return e.first + " appeared"; return ""; }
Snap snapshot(const std::string& t) { bool r = vfs::as_root; vfs::as_root = true; Snap s = vfs::snap(t); vfs::as_root = r; return s; }
bool can(const vfs::Node& n, unsigned m) { return n && (vfs::as_root ? !(m == 0100 && n->type == vfs::FILE_ && !(n->mode & 0111)) : (n->mode & m) == m); }

// ------------------------------------------------------------------ C36
struct World36 { std::string top; uint32_t ops; bool faulty; };
std::string name36(const std::string& top) {
  std::string n = pick(Strs{"a", "b", "d/x", "d", "l", "dang", "ld", "ld/x", "new", "d/new", "none/x", "loop", "a/x", "long", "d/..", "d/", "e f"});
  if (chance(60)) return ""; return (threads || chance(700) ? top + "/" : std::string()) + n; }
std::string content36() {
  std::string s; uint32_t n = pick(std::vector<uint32_t>{0, 1, 4, 10, 255, 256, 257, 1000}); uint32_t bin = pick(std::vector<uint32_t>{0, 0, 30, 200, 1000}); for (uint32_t i = 0; i < n; ++i) s += chance(bin) ? pick(std::vector<char>{0, 1, 0x1f, (char)0x80, (char)0xff, 8}) : pick(std::vector<char>{'a', 'b', ' ', '\n', '\t', '\r', '~', 0x7f, ' '}); return s; }
void populate36(const std::string& top) {
  vfs::mkdirs(top + "/d"); for (auto n : {"a", "b", "d/x", "long", "e f"}) if (chance(800)) { clock_moves(); vfs::put(top + "/" + n, content36(), pick(std::vector<unsigned>{0644, 0600, 0755, 0444, 0200, 0000, 0111, 04755})); auto nd = vfs::lookup(top + "/" + n); if (chance(300)) nd->mtime = pick(std::vector<int64_t>{0, 1, 999999999, 1000000000, -1, -1500000000, wall() + 5000000000}); nd->atime = 12345678900ll; }
  vfs::put_link(top + "/l", pick(Strs{"a", top + "/a", "d/x", "l2"})); vfs::put_link(top + "/l2", "b"); vfs::put_link(top + "/dang", pick(Strs{"missing", "none/missing", top + "/made"})); vfs::put_link(top + "/ld", "d"); vfs::put_link(top + "/loop", "loop"); if (!vfs::as_root && chance(200)) vfs::lookup(top + "/d")->mode = pick(std::vector<unsigned>{0555, 0644, 0300}); }
void body36(const std::string top, uint32_t ops, bool faulty) {
  for (uint32_t k = 0; k < ops; ++k) {
    if (!threads) clock_moves(); std::string p = name36(top); vfs::Node n = vfs::lookup(p); size_t f0 = vfs::fired.size(); if (p.empty()) probe("empty_name"); Snap before = snapshot(top); auto faulted = [&]() { return vfs::fired.size() > f0; };
    uint32_t op = weighted({5, 4, 3, 3, 2, 2, 3, 2, 2, 2, 3, 3}); std::set<std::string> ex; where("operation %u on %s", op, p.c_str());
    switch (op) {
      case 0: { bool create = chance(500); int64_t t0 = wall(); int64_t at = n ? n->atime : 0; std::string ph = vfs::phys(p, true); bool r = CALL(ST::Touch(p, create)); int64_t t1 = wall(); vfs::Node m = vfs::lookup(p); ev("touch %s create=%d -> %d", p.c_str(), create, r);
          bool acc = false; for (size_t i = 0; i < vfs::fired.size(); ++i) if (vfs::fired[i].kind == "access_error") acc = true;
          if (r && n) { ex.insert(ph); REQUIRE(m == n && ((m->mtime >= t0 && m->mtime <= t1) || (acc && faulty)), "touch-did-not-touch", "touching %s reported success but its time is %lld, now is %lld", p.c_str(), (long long)(m ? m->mtime : 0), (long long)t0); REQUIRE(m->atime == at, "touch-changed-access-time", "touching %s changed its access time", p.c_str());
            auto s = snapshot(top); auto i = s.find(ph); if (i != s.end()) REQUIRE(same(before[ph], i->second, false), "touch-changed-the-file", "touching %s changed its contents or mode: %zu bytes, mode %o, now %zu bytes, mode %o", p.c_str(), before[ph].data.size(), before[ph].mode, i->second.data.size(), i->second.mode); probe("touched"); }
          else if (r && create) { REQUIRE(m && m->type == vfs::FILE_ && m->data.empty(), "touch-did-not-create", "touching %s reported success but there is no empty file", p.c_str()); ex.insert(ph); probe("created"); }
          else if (!r) { REQUIRE(faulted() || create || n, "touch-failed-for-no-reason", "touching %s failed", p.c_str());
            if (!faulted()) { std::string par = dirname_of(ph); vfs::Node pn = ph.empty() ? nullptr : vfs::lookup(par); bool possible = n ? true : create && pn && pn->type == vfs::DIR_ && (vfs::as_root || (pn->mode & 0300) == 0300) && p.back() != '/'; REQUIRE(!possible, "touch-failed-for-no-reason", "touching %s failed without a fault", p.c_str()); }
            if (faulted() && create && !n && m) ex.insert(ph); } 
          nontrivial(); break; }
      case 1: { std::string q = name36(top); vfs::Node o = vfs::lookup(q); int res = 77; bool r = CALL(ST::FileTimeCompare(p, q, &res)); ev("compare %s %s -> %d %d", p.c_str(), q.c_str(), r, res); REQUIRE(!r || (n && o), "compared-missing-file", "comparing the times of %s and %s succeeded", p.c_str(), q.c_str()); REQUIRE(r || faulted() || !n || !o, "compare-failed", "comparing the times of %s and %s failed", p.c_str(), q.c_str());
          if (r) { int want = n->mtime < o->mtime ? -1 : n->mtime > o->mtime; REQUIRE(res == want, "wrong-time-order", "%s (%lld) compares %d to %s (%lld)", p.c_str(), (long long)n->mtime, res, q.c_str(), (long long)o->mtime); nontrivial(); } else REQUIRE(res == 0, "wrong-time-order", "a failed comparison gave %d", res); break; }
      case 2: { long t = CALL(ST::ModifiedTime(p)); int64_t m = n ? n->mtime : 0; int64_t want = m / 1000000000; REQUIRE((n && t == want) || (t == 0 && (!n || faulted())), "wrong-time", "modification time of %s is %ld instead of %lld", p.c_str(), t, (long long)want); t = CALL(ST::CreationTime(p)); want = std::max<int64_t>(0, want + 1000); REQUIRE((n && t == want) || (t == 0 && (!n || faulted())), "wrong-time", "creation time of %s is %ld instead of %lld", p.c_str(), t, (long long)want); count("time_queries"); break; }
      case 3: { unsigned long l = CALL(ST::FileLength(p)); unsigned long want = n ? (n->type == vfs::DIR_ ? 4096 : n->data.size()) : 0; REQUIRE(l == want || (l == 0 && faulted()), "wrong-length", "%s is %lu bytes instead of %lu", p.c_str(), l, want); break; }
      case 4: { bool isf = chance(500); bool r = CALL(chance(500) ? ST::FileExists(p, isf) : ST::FileExists(p.c_str(), isf)); bool want = n && can(n, 0400) && (!isf || n->type != vfs::DIR_); REQUIRE(r == want || faulted(), "wrong-existence", "FileExists(%s,%d) is %d", p.c_str(), isf, r); break; }
      case 5: { bool r = CALL(ST::FileIsDirectory(p)); std::string q = p; if (q.size() > 1 && q.back() == '/') q.pop_back(); vfs::Node m = vfs::lookup(q); bool want = m && m->type == vfs::DIR_; REQUIRE(r == want || (!r && faulted()), "wrong-type", "FileIsDirectory(%s) is %d", p.c_str(), r); bool s = CALL(ST::FileIsSymlink(p)); vfs::Node l = vfs::lookup(p, false); bool ws = l && l->type == vfs::LINK_; REQUIRE(s == ws || (!s && faulted()), "wrong-type", "FileIsSymlink(%s) is %d", p.c_str(), s); break; }
      case 6: { bool set = chance(600); mode_t m = 0; if (!set) { bool r = CALL(ST::GetPermissions(p, m)); REQUIRE(r ? n && (m & 07777) == (n->mode & 07777) && S_ISDIR(m) == (n->type == vfs::DIR_) : !n || faulted(), "wrong-permissions", "permissions of %s: %d %o instead of %o", p.c_str(), r, m, n ? n->mode : 0); break; }
          m = pick(std::vector<mode_t>{0644, 0600, 0444, 0777, 0000, 02755}); bool um = !threads && chance(500); mode_t mask = pick(std::vector<mode_t>{022, 077, 0, 027}); if (um) umask(mask); std::string ph = vfs::phys(p, true); unsigned old = n ? n->mode : 0; bool r = CALL(ST::SetPermissions(p, m, um)); if (um) { mode_t left = umask(022); REQUIRE(left == mask, "umask-changed", "the file creation mask was %o and is %o", mask, left); }
          unsigned want = um ? m & ~mask : m; ev("chmod %s %o -> %d", p.c_str(), want, r); if (r) { REQUIRE(n && (n->mode & 07777) == want, "wrong-permissions", "setting %o on %s gave %o", want, p.c_str(), n ? n->mode : 0); ex.insert(ph); nontrivial(); } else { REQUIRE(!n || faulted(), "chmod-failed-for-no-reason", "setting permissions of %s failed", p.c_str()); REQUIRE(!n || n->mode == old, "failed-chmod-changed-mode", "a failed change of permissions changed %s", p.c_str()); } break; }
      case 7: { int pm = pick(std::vector<int>{0, 1, 2, 4, 3, 5, 6, 7}); bool r = CALL(ST::TestFileAccess(p, (ks::TestFilePermissions)pm)); unsigned need = (pm & 4 ? 0400 : 0) | (pm & 2 ? 0200 : 0) | (pm & 1 ? 0100 : 0); bool want = n && (vfs::as_root ? !((pm & 1) && n->type == vfs::FILE_ && !(n->mode & 0111)) : (n->mode & need) == need); REQUIRE(r == want || (!r && faulted()), "wrong-access", "access %d to %s is %d", pm, p.c_str(), r); break; }
      case 8: case 9: { std::string q = name36(top), target = pick(Strs{"a", "d/x", "x", "/t", "with space", std::string(range(250, 4000), 'q'), "../..", "..."}); if (op == 8 && chance(300)) target = pick(Strs{"a", "b"}); bool there = !q.empty() && vfs::lookup(q, false); std::string ph = q.empty() ? "" : vfs::phys(q, false); vfs::Node par = ph.empty() ? nullptr : vfs::lookup(dirname_of(ph)); 
          bool r = CALL(ST::CreateSymlink(target, q)); ev("symlink %s -> %s: %d", q.c_str(), quote(target, 30).c_str(), r); vfs::Node l = vfs::lookup(q, false); if (r) { REQUIRE(!there && l && l->type == vfs::LINK_ && l->data == target, "wrong-link", "link %s is not %s", q.c_str(), quote(target, 40).c_str()); ex.insert(ph); nontrivial(); } else REQUIRE(there || !par || faulted() || q.back() == '/' || (!vfs::as_root && (par->mode & 0300) != 0300), "link-failed-for-no-reason", "making the link %s failed", q.c_str());
          if (l) { std::string got = "untouched"; bool rr; { Unscope u; std::string g = "untouched"; rr = ST::ReadSymlink(q, g); Scope s; got = isolate(g); } if (rr) REQUIRE(l->type == vfs::LINK_ && got == l->data, "wrong-link", "link %s reads as %s instead of %s", q.c_str(), quote(got, 40).c_str(), quote(l->data, 40).c_str()); else REQUIRE(got == "untouched" && (l->type != vfs::LINK_ || faulted() || q.back() == '/'), "wrong-link", "reading the link %s failed", q.c_str()); } break; }
      case 10: { std::string d; bool have = vfs::get(p, &d) && can(n, 0400); uint32_t off = pick(std::vector<uint32_t>{0, 0, 1, 3, 9, 255, 5000}); std::string sig = have && off <= d.size() && chance(600) ? d.substr(off, choose(12)) : text(6, "ab ~"); auto z = sig.find('\0'); if (z != std::string::npos) sig.resize(z); if (chance(200) && !sig.empty()) sig[choose((uint32_t)sig.size())] ^= 1; z = sig.find('\0'); if (z != std::string::npos) sig.resize(z);
          bool r = CALL(ST::FileHasSignature(p.c_str(), sig.c_str(), (long)off)); bool want = have && (off <= d.size() || sig.empty()) && (sig.empty() || d.compare(off, sig.size(), sig) == 0); ev("signature %s at %u of %s -> %d", quote(sig).c_str(), off, p.c_str(), r); if (n && n->type == vfs::DIR_) want = r && sig.empty(); REQUIRE(r == want || (!r && faulted()), "wrong-signature", "%s has %s at %u: %d", p.c_str(), quote(sig).c_str(), off, r); if (want) nontrivial(); break; }
      default: { std::string d; bool have = vfs::get(p, &d) && can(n, 0400); unsigned long len = pick(std::vector<unsigned long>{256, 1, 10, 1000, 0}); double pb = pick(std::vector<double>{0.05, 0, 0.5, 1.0, -1}); int r = CALL((int)ST::DetectFileType(p.c_str(), len, pb)); int want = ST::FileTypeUnknown; d.resize(std::min<size_t>(d.size(), len)); if (have && !d.empty() && pb >= 0) { size_t txt = 0; for (unsigned char c : d) if ((c >= 0x20 && c <= 0x7f) || c == '\n' || c == '\r' || c == '\t') ++txt; want = (double)(d.size() - txt) / (double)d.size() >= pb ? ST::FileTypeBinary : ST::FileTypeText; }
          REQUIRE(r == want || faulted(), "wrong-file-type", "the type of %s is %d instead of %d", p.c_str(), r, want); if (want) nontrivial(); break; } }
    std::string df = diff(before, snapshot(top), ex); REQUIRE(df.empty(), "changed-something-else", "operation %u on %s: %s", op, p.c_str(), df.c_str()); REQUIRE(threads || vfs::open_fds() == 0, "descriptor-leak", "operation %u on %s left %d descriptors", op, p.c_str(), vfs::open_fds()); count("operations"); } }
void run_c36() { Scope s0; vfs::reset(); vfs::as_root = chance(500); g_now_ns = 1000000000ll * range(1, 1000) + 123456789; g_real_off_ns = (int64_t)range(0, 1700000000) * 1000000000;
  threads = chance(250); bool faulty = !threads && chance(400); uint32_t nt = threads ? 2 : 1; for (uint32_t i = 0; i < nt; ++i) populate36(strf("/t%u", i)); vfs::cwd = "/t0"; vfs::fired.clear(); vfs::hard = 0; if (faulty) vfs::swarm(true, true, true);
  if (!threads) body36("/t0", range(2, 12), faulty); else { set_preempt(pick(std::vector<uint32_t>{5, 20, 100})); g_race_detect = true; for (uint32_t i = 0; i < nt; ++i) { uint32_t ops = range(2, 6); spawn([=]() { Scope s; body36(strf("/t%u", i), ops, false); }); } { Unscope u; run_all(); } REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open", vfs::open_fds()); }
  threads = false; alloc_check_all(); }
Reg r36("C36", run_c36);

// ------------------------------------------------------------------ C37
std::string home; bool have_home = false;
std::string last_of(const std::string& p) { auto q = p.rfind('/'); return q == std::string::npos ? p : p.substr(q + 1); }
std::string apath(bool full) {
  static const Strs comp = {"a", "b", "c", "..", ".", "", "sub", "link", "a b", "x.tar.gz", ".hid", "...", "~", "b.c"};
  std::string p; uint32_t n = choose(6); if (chance(80)) p = "~"; else if (full || chance(500)) p = chance(60) ? "//" : "/"; else if (!n) return "";
  for (uint32_t i = 0; i < n; ++i) { if (!p.empty() && p.back() != '/') p += "/"; if (p.empty()) { std::string c; do c = pick(comp); while (c.empty() || c == "~"); p += c; } else { std::string c = chance(10) ? std::string(range(100, 255), 'n') : pick(comp); if (c.empty()) { if (p != "/" ) p += "/"; } else p += c; } } if (chance(150) && !p.empty()) p += "/"; return p; }
struct Split { std::string root; Strs comp; };
Split split_model(const std::string& p, bool expand) {
  Split r; std::string rest = p; if (p.compare(0, 2, "//") == 0) { r.root = "//"; rest = p.substr(2); } else if (p[0] == '/') { r.root = "/"; rest = p.substr(1); }
  else if (p[0] == '~') { auto q = p.find('/'); std::string who = p.substr(0, q); rest = q == std::string::npos ? "" : p.substr(q + 1); if (expand) { std::string hd = who == "~" && have_home ? home : ""; if (!hd.empty() && hd.back() == '/') hd.pop_back(); Split s = split_model(hd, false); r = s; } else r.root = who + "/"; }
  if (!rest.empty()) { std::string c; for (char ch : rest) if (ch == '/') { r.comp.push_back(c); c.clear(); } else c += ch; r.comp.push_back(c); } return r; }
// absolute path without dots, doubled and trailing slashes
std::string collapse_model(const std::string& p, const std::string& base, Split* base_split = nullptr) {
  Split s = split_model(p, true); std::string root = s.root; Strs out; auto add = [&](const Strs& v) { for (auto& c : v) if (c == "..") { if (!out.empty()) out.pop_back(); } else if (!c.empty() && c != ".") out.push_back(c); };
  if (root.empty()) { Split b = split_model(base, true); root = b.root; add(b.comp); } add(s.comp); std::string r = root; for (size_t i = 0; i < out.size(); ++i) r += (i ? "/" : "") + out[i]; return r; }
std::string slashes_model(std::string p) {   // doubled slashes halved once, ~ expanded, one trailing slash removed
  bool dbl = p.size() > 1 && p.find("//", 1) != std::string::npos; if (dbl) { std::string r; for (size_t i = 0; i < p.size(); ++i) { if (p[i] == '/' && i + 1 < p.size() && p[i + 1] == '/') ++i; r += p[i]; } p = r; }
  if (p[0] == '~' && (p.size() == 1 || p[1] == '/') && have_home) p = home + p.substr(1); if (p.size() > 1 && p.back() == '/' && !(p.size() == 3 && p[1] == ':')) p.pop_back(); return p; }
std::string fpath_model(const std::string& p) { std::string f = slashes_model(p); auto q = f.rfind('/'); return q == std::string::npos ? "" : q == 0 ? "/" : f.substr(0, q); }
struct Trans { std::string from, to; };
void body37(uint32_t ops, bool faulty, const std::vector<Trans>& tr) {
  for (uint32_t k = 0; k < ops; ++k) {
    uint32_t f0 = (uint32_t)vfs::hard; auto faulted = [&]() { return (uint32_t)vfs::hard > f0; };
    auto translated = [&](std::string p) { if (p.size() < 2) return p; for (auto& t : tr) if (under(p, t.from)) return t.to + p.substr(t.from.size()); return p; };
    uint32_t op = weighted({6, 3, 4, 4, 2, 2, 3, 2, 2, 2}); std::string p = apath(false); where("path operation %u on %s", op, p.c_str());
    switch (op) {
      case 0: { std::string base = chance(300) ? apath(true) : ""; uint32_t how = base.empty() ? 0 : 1 + choose(2); std::string got = how == 0 ? STR(ST::CollapseFullPath(p)) : how == 1 ? STR(ST::CollapseFullPath(p, base.c_str())) : STR(ST::CollapseFullPath(p, base)); std::string want = translated(collapse_model(p, how ? base : vfs::cwd)); ev("collapse %s base %s cwd %s -> %s", p.c_str(), base.c_str(), vfs::cwd.c_str(), quote(got).c_str());
          if (got != want && faulted() && !how) { want = collapse_model(p, ""); probe("no_working_directory"); } REQUIRE(got == want, "wrong-collapsed-path", "%s from %s is %s instead of %s", quote(p).c_str(), how ? base.c_str() : vfs::cwd.c_str(), quote(got).c_str(), quote(want).c_str());
          if (!how && tr.empty() && p[0] != '~' && !faulted() && p.find("link") == std::string::npos && vfs::cwd.find("link") == std::string::npos && !p.empty() && p.compare(0, 2, "//") ) { vfs::Node a = vfs::lookup(p), b = vfs::lookup(got); if (a) REQUIRE(a == b, "collapsed-to-other-file", "%s and %s are different files", p.c_str(), got.c_str()); } nontrivial(); break; }
      case 1: { std::string err = "none"; bool we = chance(500); std::string got; { Unscope u; std::string e = "none"; std::string g = ST::GetRealPath(p, we ? &e : nullptr); Scope s; got = isolate(g); err = isolate(e); } vfs::Node n = vfs::lookup(p); std::string want = n ? vfs::phys(p, true) : we ? "" : p; if (got != want && faulted()) want = we ? "" : p; ev("real path of %s -> %s", p.c_str(), quote(got).c_str()); REQUIRE(got == want, "wrong-real-path", "%s is really %s, not %s", quote(p).c_str(), quote(want).c_str(), quote(got).c_str()); REQUIRE(!we || (err == "none") == !want.empty(), "wrong-error", "real path of %s gave the error %s", p.c_str(), err.c_str()); if (n) nontrivial(); break; }
      case 2: { std::string l = apath(true), r = apath(true); if (chance(300)) r = l + "/" + apath(false); while (l.compare(0, 2, "//") == 0) l = l.substr(1); while (r.compare(0, 2, "//") == 0) r = r.substr(1); if (l[0] != '/' || r[0] != '/') { std::string bad = chance(500) ? "a/b" : ""; if (have_home && l[0] == '~') bad = l; std::string got = STR(ST::RelativePath(bad.empty() || bad[0] != '~' ? bad : "x", r)); REQUIRE(got.empty(), "wrong-relative-path", "a relative start gave %s", quote(got).c_str()); break; }
          std::string cl = translated(collapse_model(l, "/")), cr = translated(collapse_model(r, "/")), got = STR(ST::RelativePath(l, r)); ev("relative %s %s -> %s", l.c_str(), r.c_str(), quote(got).c_str()); REQUIRE(got.empty() ? normal(cl) == normal(cr) : got[0] != '/', "wrong-relative-path", "from %s to %s is %s", l.c_str(), r.c_str(), quote(got).c_str()); REQUIRE(normal(cl + "/" + got) == normal(cr), "wrong-relative-path", "from %s by %s is not %s", l.c_str(), quote(got).c_str(), r.c_str());
          { Strs x, y; size_t i; for (auto& c : split_model(normal(cl), false).comp) x.push_back(c); for (auto& c : split_model(normal(cr), false).comp) y.push_back(c); for (i = 0; i < x.size() && i < y.size() && x[i] == y[i]; ++i) ; size_t ups = 0; for (size_t q = 0; got.compare(q, 3, "../") == 0; q += 3) ++ups; if (cl.compare(0, 2, "//") && cr.compare(0, 2, "//")) REQUIRE(ups == x.size() - i, "relative-path-not-shortest", "from %s to %s is %s", l.c_str(), r.c_str(), quote(got).c_str()); } nontrivial(); break; }
      case 3: { bool ex = chance(500); Strs got; std::string root, rest; { Unscope u; std::vector<std::string> c; c.push_back("stale"); ST::SplitPath(p, c, ex); std::string rt; const char* rs = ST::SplitPathRootComponent(p, &rt); std::string rest2 = rs; std::string j = ST::JoinPath(c); Scope s; for (auto& x : c) got.push_back(isolate(x)); root = isolate(rt); rest = isolate(rest2); std::string joined = isolate(j); Split m = split_model(p, ex); Strs want{m.root}; want.insert(want.end(), m.comp.begin(), m.comp.end());
            REQUIRE(got == want, "wrong-components", "%s splits into [%s] instead of [%s]", quote(p).c_str(), join(got, "|").c_str(), join(want, "|").c_str()); std::string w = m.root; for (size_t i = 0; i < m.comp.size(); ++i) w += (i ? "/" : "") + m.comp[i]; REQUIRE(joined == w && (p[0] == '~' || joined == p), "split-and-join-differ", "%s joins to %s", quote(p).c_str(), quote(joined).c_str()); Split m0 = split_model(p, false); REQUIRE(root == m0.root, "wrong-root", "the root of %s is %s", quote(p).c_str(), quote(root).c_str()); } nontrivial(); break; }
      case 4: { std::string got = STR(ST::GetFilenamePath(p)), nm = STR(ST::GetFilenameName(p)), e = STR(ST::GetFilenameExtension(p)), le = STR(ST::GetFilenameLastExtension(p)), we = STR(ST::GetFilenameWithoutExtension(p)), wl = STR(ST::GetFilenameWithoutLastExtension(p)); REQUIRE(got == fpath_model(p), "wrong-directory-part", "the directory of %s is %s", quote(p).c_str(), quote(got).c_str()); REQUIRE(nm == last_of(p), "wrong-name-part", "the name of %s is %s", quote(p).c_str(), quote(nm).c_str());
          REQUIRE(we + e == nm && wl + le == nm, "extension-lost", "%s is not %s + %s and %s + %s", nm.c_str(), we.c_str(), e.c_str(), wl.c_str(), le.c_str()); REQUIRE(we.find('.') == std::string::npos && (le.empty() || le.rfind('.') == 0) && (e.empty() || e[0] == '.'), "wrong-extension", "extensions of %s: %s %s", nm.c_str(), e.c_str(), le.c_str()); break; }
      case 5: { std::string q = chance(600) ? p + "/" + apath(false) : apath(false); bool got = CALL(ST::IsSubDirectory(q, p)); std::string s = slashes_model(q), d = slashes_model(p); bool want = !p.empty() && s.size() > d.size() && s[d.size()] == '/' && s.compare(0, d.size(), d) == 0; REQUIRE(got == want, "wrong-subdirectory", "%s below %s: %d", q.c_str(), p.c_str(), got); break; }
      case 6: { std::string f = chance(300) ? "a" : apath(false), d = chance(500) ? pick(Strs{"/r", "/r/a", "/r/link", "/r/a/b", ".", "/r/", "/r/f"}) : apath(false); int tr2 = chance(600); std::string got; bool r; { Unscope u; std::string g = "untouched"; r = ST::LocateFileInDir(f.c_str(), d.c_str(), g, tr2); Scope s; got = isolate(g); } ev("locate %s in %s (%d) -> %d %s", f.c_str(), d.c_str(), tr2, r, quote(got).c_str());
          // reference: the directory, then deeper and deeper parts of the file's own path below it
          std::string name = last_of(f); auto isdir = [](const std::string& x) { std::string y = x; if (y.size() > 1 && y.back() == '/') y.pop_back(); vfs::Node n = vfs::lookup(y); return n && n->type == vfs::DIR_; }; std::string dir = isdir(d) ? d : fpath_model(d); Strs cand; if (!name.empty()) { auto cat = [](const std::string& a, const std::string& b) { return a + (!a.empty() && a.back() != '/' ? "/" : "") + b; }; cand.push_back(cat(dir, name));
            if (tr2) { std::string fd = f, below; for (int i = 0; i < 20; ++i) { fd = fpath_model(fd); std::string b = last_of(fd); if (b.empty()) break; below = b + "/" + below; std::string t = cat(dir, below); cand.push_back(cat(isdir(t) ? t : fpath_model(t), name)); } } }
          std::string want; for (auto& c : cand) { vfs::Node n = vfs::lookup(c); if (n && can(n, 0400)) { want = c; break; } }
          if (r) { vfs::Node n = vfs::lookup(got); REQUIRE(n && last_of(got) == name, "located-missing-file", "%s in %s was found as %s", f.c_str(), d.c_str(), quote(got).c_str()); } else REQUIRE(got == "untouched", "result-touched", "a failed search set the result to %s", quote(got).c_str()); REQUIRE(faulted() || (r ? got == want : want.empty()), "wrong-file-located", "%s in %s is %s instead of %s", f.c_str(), d.c_str(), quote(r ? got : "").c_str(), quote(want).c_str()); if (r) nontrivial(); break; }
      case 7: if (!threads) { std::string old = vfs::cwd; int r = CALL(ST::ChangeDirectory(p)); vfs::Node n = p.empty() ? nullptr : vfs::lookup(p[0] == '/' ? p : old + "/" + p); ev("cd %s -> %d now %s", p.c_str(), r, vfs::cwd.c_str()); if (r == 0) REQUIRE(n && n->type == vfs::DIR_, "changed-to-missing-directory", "changing to %s succeeded", p.c_str()); else REQUIRE(vfs::cwd == old && (faulted() || !n || n->type != vfs::DIR_ || !vfs::as_root), "change-failed", "changing to %s failed", p.c_str()); break; } // fall through
      case 8: { bool col = chance(500); std::string got = STR(ST::GetCurrentWorkingDirectory(col)); std::string want = col ? translated(vfs::cwd) : vfs::cwd; REQUIRE(got == want || faulted(), "wrong-working-directory", "the working directory is %s, not %s", want.c_str(), quote(got).c_str()); break; }
      default: { std::string v; Strs want; uint32_t n = choose(5); for (uint32_t i = 0; i < n; ++i) { std::string e = apath(false); if (chance(150)) e = ""; v += (i ? ":" : "") + e; } if (!threads) setenv("SIM_PATH", v.c_str(), 1); else { const char* o = getenv("SIM_PATH"); v = o ? o : ""; } { std::string c; std::string w = v; if (!w.empty() && w.back() != ':') w += ':'; for (char ch : w) if (ch == ':') { want.push_back(slashes_model(c)); c.clear(); } else c += ch; } Strs got; bool pre = chance(400); { Unscope u; std::vector<std::string> g; if (pre) g.push_back("first//"); ST::GetPath(g, "SIM_PATH"); Scope s; for (auto& x : g) got.push_back(isolate(x)); } if (pre) want.insert(want.begin(), "first//"); REQUIRE(got == want, "wrong-path-list", "%s splits into [%s] instead of [%s]", quote(v).c_str(), join(got, "|").c_str(), join(want, "|").c_str()); break; } }
    REQUIRE(threads || vfs::open_fds() == 0, "descriptor-leak", "operation %u left %d descriptors", op, vfs::open_fds()); count("operations"); } }
void run_c37() { Scope s0; vfs::reset(); vfs::as_root = chance(800); threads = chance(250); have_home = chance(800); home = pick(Strs{"/home/u", "/r/a", "/h/", "/home/u v"}); if (have_home) setenv("HOME", home.c_str(), 1); else unsetenv("HOME"); setenv("SIM_PATH", "/a:/b//c:~/d", 1);
  for (auto d : {"/r/a/b/c", "/r/a/sub", "/a/b/c", "/r/a b", "/home/u", "/q/real/sub/deep"}) vfs::mkdirs(d); for (auto f : {"/r/f", "/r/a/x.tar.gz", "/r/a/b/a", "/a/b/.hid", "/r/a/b/c/b.c", "/q/real/sub/a", "/r/link2"}) if (chance(700)) vfs::put(f, "x", pick(std::vector<unsigned>{0644, 0644, 0200})); vfs::put_link("/r/link", pick(Strs{"a", "/a", "a/b", "nowhere", ".."})); vfs::put_link("/a/link", "/r/a"); vfs::put_link("/logical", "/q/real"); vfs::cwd = pick(Strs{"/", "/r", "/r/a/b", "/a", "/r/a b", "/q/real/sub"}); if (chance(30)) { std::string lp = "/long"; while (lp.size() < 2100) lp += "/" + std::string(range(50, 200), 'w'); vfs::mkdirs(lp); vfs::cwd = lp; probe("long_working_directory"); }
  std::vector<Trans> tr;
  if (chance(300)) {   // translations: below a directory the name the user knows is kept
    uint32_t how = choose(3); std::string from, to; where("translation"); if (how == 0) { to = chance(500) ? "/logical" : "/logical/"; Unscope u; ST::AddKeepPath(to); from = "/q/real"; } else { from = pick(Strs{"/r", "/r/", "/r/a", "/none", "/r/f"}); to = pick(Strs{"/seen", "/seen/as/", "relative", "/x/../y", "/r"}); Unscope u; ST::AddTranslationPath(from, to); }
    auto chop = [](std::string x) { if (x.size() > 1 && x.back() == '/') x.pop_back(); return x; }; from = chop(from); to = chop(to); vfs::Node n = vfs::lookup(from); if (n && n->type == vfs::DIR_ && to[0] == '/' && to.find("..") == std::string::npos && from != to) { tr.push_back({from, to}); probe("translation"); if (chance(300)) { Unscope u; ST::AddTranslationPath(from, "/second"); } } if (chance(400)) for (auto& d : {"/r", "/a", "/home", "/q"}) if (!under(from, d) && !under(d, from) && !under(to, d) && !under(d, to) && chance(500)) { { Unscope u; ST::AddTranslationPath(d, std::string("/tr") + d); } tr.push_back({d, std::string("/tr") + d}); probe("several_translations"); } }
  bool faulty = !threads && chance(300); vfs::fired.clear(); vfs::hard = 0; if (faulty) vfs::swarm(false, false, true);
  if (!threads) body37(range(2, 12), faulty, tr); else { set_preempt(pick(std::vector<uint32_t>{5, 20, 100})); g_race_detect = true; for (uint32_t i = 0; i < 2; ++i) { uint32_t ops = range(2, 6); spawn([=, &tr]() { Scope s; body37(ops, false, tr); }); } Unscope u; run_all(); }
  threads = false; alloc_check_all(); }
Reg r37("C37", run_c37);
}
