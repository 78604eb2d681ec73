// File-system utilities of kwiversys: copy, remove, create, compare, list, search.
#include "h.h"
#include <kwiversys/SystemTools.hxx>
#include <kwiversys/Directory.hxx>
#include <kwiversys/Glob.hxx>
#include <fstream>
#include <sstream>
using namespace h;
namespace ks = kwiversys;
typedef ks::SystemTools ST;
using vfs::Snap; using vfs::Ent;
namespace {
#define CALL(...) ({ Unscope u_; uint64_t l_ = alloc_live(), q_ = alloc_seq(); auto r_ = __VA_ARGS__; Scope s_; REQUIRE(alloc_live() == l_, "memory-leak", "%s left %lld heap blocks: %s", #__VA_ARGS__, (long long)(alloc_live() - l_), alloc_list(q_).c_str()); r_; })
struct LeakCheck { uint64_t live, seq; LeakCheck() : live(alloc_live()), seq(alloc_seq()) {} void done(const char* what) { REQUIRE(alloc_live() == live, "memory-leak", "%s left %lld heap blocks: %s", what, (long long)(alloc_live() - live), alloc_list(seq).c_str()); REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%s left %d files open", what, vfs::open_fds()); REQUIRE(vfs::open_dirs() == 0, "descriptor-leak", "%s left %d directories open", what, vfs::open_dirs()); } };
bool under(const std::string& p, const std::string& top) { return p == top || top == "/" || (p.size() > top.size() && p.compare(0, top.size(), top) == 0 && p[top.size()] == '/'); }
bool same(const Ent& a, const Ent& b) { return a.type == b.type && a.mode == b.mode && a.data == b.data; }
std::string show_ent(const Ent& e) { return strf("%s mode %o %s", e.type == vfs::DIR_ ? "directory" : e.type == vfs::LINK_ ? "link" : "file", e.mode, e.type == vfs::DIR_ ? "" : quote(e.data, 40).c_str()); }
// first difference between two snapshots outside the excluded paths (excluded: exactly these names, or below them with a trailing "/")
std::string diff(const Snap& a, const Snap& b, const std::set<std::string>& except) {
  auto skip = [&](const std::string& p) { for (auto& x : except) { if (x == p) return true; if (!x.empty() && x.back() == '/' && under(p, x.substr(0, x.size() - 1))) return true; } return false; };
  for (auto& e : a) if (!skip(e.first)) { auto i = b.find(e.first); if (i == b.end()) return e.first + " disappeared (" + show_ent(e.second) + ")"; if (!same(e.second, i->second)) return e.first + " changed from " + show_ent(e.second) + " to " + show_ent(i->second); }
  for (auto& e : b) if (!skip(e.first) && !a.count(e.first)) return e.first + " appeared (" + show_ent(e.second) + ")";
  return ""; }
std::string content(bool big = false) {
  static const std::vector<uint32_t> sz = {0, 1, 5, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288};
  uint32_t n = pick(sz); if (big && chance(60)) { n = pick(std::vector<uint32_t>{65535, 65536, 65537, 69632, 131072, 262145, 400000, 1048577}); probe("large_file"); } std::string s(n, 'a'); uint32_t k = choose(26); for (uint32_t i = 0; i < n; ++i) s[i] = (char)('a' + (i * 7 + i / 4096 + k) % 26); if (n && chance(300)) s[choose(n)] = (char)choose(256); return s; }
unsigned fmode() { return pick(std::vector<unsigned>{0644, 0600, 0755, 0444, 0400, 0664, 0777, 04755, 02644, 01644}); }
const Strs names = {"a", "b", "c", "sub", "e f", ".h", "data.txt", "x.y.z", "longer_name_here", "..d", "...", "-n", "t ", "a\nb"};
// a random tree below an existing directory
void tree(const std::string& top, int depth, bool links, bool modes) {
  uint32_t n = choose(5); for (uint32_t i = 0; i < n; ++i) {
    std::string p = top + "/" + pick(names); if (vfs::exists(p)) continue;
    switch (weighted({5, 3, links ? 2u : 0u})) {
      case 0: if (links && chance(80)) { vfs::put_hard(p, pick(Strs{"/o/f", "/o/ro", "/o/d/x"})); break; } vfs::put(p, content(), fmode()); break;
      case 1: vfs::mkdirs(p); if (depth > 0) tree(p, depth - 1, links, modes); if (modes && chance(200)) vfs::lookup(p)->mode = pick(std::vector<unsigned>{0555, 0700, 0777, 0500}); break;
      default: vfs::put_link(p, pick(Strs{"/o/f", "/o/d", "/o", "a", "sub", "..", "nowhere", "/o/ro", "../b", "."})); } } }
// more than a handful: a directory of very many entries, and a chain of directories many levels deep with long names
void crowd(const std::string& top, bool links) {
  if (chance(600)) { std::string d = top + (chance(500) ? "" : "/crowd"); vfs::mkdirs(d); uint32_t n = chance(120) ? range(1010, 1200) : range(20, 160); for (uint32_t i = 0; i < n; ++i) { std::string p = strf("%s/%s%u", d.c_str(), i % 7 == 3 ? ".h" : i % 5 == 2 ? "e f" : "n", i); if (links && i % 11 == 5) vfs::put_link(p, pick(Strs{"/o/f", "/o/d", "nowhere"})); else if (i % 13 == 6) { vfs::mkdirs(p); if (chance(300)) vfs::put(p + "/in", "in"); } else vfs::put(p, strf("c%u", i), fmode()); } probe("crowded_directory"); }
  if (chance(600)) { std::string d = top + "/deep"; uint32_t n = range(8, 30); bool lng = chance(500); if (lng) n = range(5, 12); for (uint32_t i = 0; i < n; ++i) { d += lng ? "/" + std::string(range(100, 255), (char)('a' + i)) : strf("/l%u", i); vfs::mkdirs(d); if (chance(300)) vfs::put(d + "/f.txt", "deep", fmode()); if (links && chance(100)) vfs::put_link(d + "/ln", "/o/d"); } vfs::put(d + "/last", "last"); probe("deep_directory"); } }
void world(bool root) {
  vfs::reset(); vfs::as_root = root; setenv("PATH", "/bin:/usr/bin", 1); vfs::mkdirs("/t"); vfs::mkdirs("/o/d/deep"); vfs::mkdirs("/bin"); vfs::mkdirs("/usr/bin");
  vfs::put("/o/f", "outside file"); vfs::put("/o/d/x", "outside x"); vfs::put("/o/d/deep/y", std::string(5000, 'y')); vfs::put("/o/d/a", "outside a", 0600); vfs::put("/o/ro", "read only outside", 0444); vfs::cwd = "/t"; }
int hard_of(const char* kind) { int n = 0; for (auto& f : vfs::fired) if (f.kind == kind) ++n; return n; }
void faults(bool reads, bool writes) { vfs::swarm(reads, writes, true); if (chance(400)) vfs::F.budget = 1; }
std::string fired_list() { std::string r; for (auto& f : vfs::fired) r += f.kind + " " + f.path + "; "; return r; }

// ------------------------------------------------------------------ C18 copying a file
// the file a copy to `dest` must produce: physical name, or "" if there is no way
std::string effective(const std::string& src, const std::string& dest, bool& isdir) {
  vfs::Node n = vfs::lookup(dest); isdir = n && n->type == vfs::DIR_; std::string base = src.substr(src.rfind('/') + 1);
  return isdir ? vfs::phys(dest + "/" + base, false) : vfs::phys(dest, false); }
void run_c18() { Scope scope_;
  bool root = chance(650); world(root); bool faulty = chance(550); LeakCheck lk;
  std::string body = content(true); unsigned mode = fmode(); vfs::mkdirs("/t/s"); vfs::mkdirs("/t/full"); vfs::put("/t/s/file", body, mode); vfs::put("/t/s/other", "other");
  std::string src = pick(Strs{"/t/s/file", "s/file", "/t/s/../s/file", "/t/s/link", "/t/missing", "/t/s"}), target = "/t/s/file"; if (src == "/t/s/link") vfs::put_link("/t/s/link", pick(Strs{"file", "/t/s/file"})); bool srcdir = src == "/t/s"; bool missing = src == "/t/missing";
  std::string old = chance(500) ? body : content(); if (old.size() == body.size() && !old.empty() && chance(400)) old[choose((uint32_t)old.size())] ^= 1; if (chance(200) && body.size() > 1) old = body.substr(0, body.size() - 1); if (body.size() > 65536 && chance(150)) old = body.substr(0, body.size() - 65536);
  std::string dest; bool self = false; uint32_t kind = choose(12); std::string base = src.substr(src.rfind('/') + 1);
  switch (kind) {
    case 0: dest = "/t/new"; break;
    case 1: dest = "/t/n1/n2/out"; break;
    case 2: dest = "/t/old"; if (chance(250)) { vfs::mkdirs("/m"); vfs::lookup("/m")->dev = 8; dest = "/m/old"; probe("other_device"); } vfs::put(dest, old, fmode()); if (vfs::lookup(dest)->dev == 8 && vfs::lookup(src) && chance(700)) vfs::lookup(dest)->ino = vfs::lookup(src)->ino; break;
    case 3: dest = pick(Strs{"/t/full", "/t/full/", "full"}); if (chance(600)) vfs::put("/t/full/" + base, old, fmode()); else if (chance(300)) vfs::mkdirs("/t/full/" + base); break;
    case 4: dest = "/t/l"; vfs::put_link(dest, pick(Strs{"/o/f", "/o/d", "/t/nowhere", "s/other"})); break;
    case 5: dest = pick(Strs{"/t/s/file", "/t/./s/file", "s/file", "/t/self"}); if (dest == "/t/self") { if (chance(400)) { vfs::put_hard(dest, "/t/s/file"); probe("hard_link_to_source"); } else vfs::put_link(dest, "/t/s/file"); } self = true; break;
    case 6: dest = pick(Strs{"/t/s", "s", "/t/s/"}); self = !srcdir; break;
    case 7: dest = "/t/s/other/below"; break;
    case 8: dest = "rel/out"; break;
    case 9: dest = "out2"; if (chance(500)) vfs::put("/t/out2", old, fmode()); break;
    case 10: dest = "/t/nd"; vfs::mkdirs("/t/nd"); if (!root && chance(300)) { vfs::lookup("/t/nd")->mode = 0555; if (chance(600)) vfs::put("/t/nd/" + base, old, pick(std::vector<unsigned>{0644, 0444})); } break;
    default: dest = "/t/ro"; vfs::put(dest, old, pick(std::vector<unsigned>{0444, 0400, 0644})); }
  if (srcdir && (kind == 5 || kind == 6)) { srcdir = false; src = "/t/s/file"; self = true; }   // never a directory into itself
  bool isdir; std::string eff = effective(src, dest, isdir); int how = choose(3); if (srcdir) how = 1; bool always = how == 1 || (how == 0 && chance(500));
  // could it be done, judged on the tree as it is?
  bool can = !missing && !eff.empty(); { std::string par = dirname_of(eff.empty() ? "/" : eff); vfs::Node pn = vfs::lookup(par), en = eff.empty() ? nullptr : vfs::lookup(eff, false), sn = vfs::lookup(src);
    if (srcdir) can = isdir || (!vfs::lookup(dest) && !vfs::exists(dest) && kind != 7); else {
    if (kind == 1 || kind == 8) { can = !missing; eff = kind == 1 ? "/t/n1/n2/out" : "/t/rel/out"; } if (kind == 7) can = false; if (en && en->type == vfs::DIR_) can = false; if (!root && sn && !(sn->mode & 0400)) can = false;
    if (!root && pn && !(pn->mode & 0200)) { if (!en || !(en->mode & 0200)) can = false; } } }
  bool equal_before = false; { std::string d; if (!eff.empty() && vfs::get(eff, &d) && d == body) equal_before = true; }
  Snap before = vfs::snap("/"); ev("copy(%d) %s -> %s effective %s kind %u always=%d root=%d can=%d", how, src.c_str(), dest.c_str(), eff.c_str(), kind, always, root, can);
  if (faulty) { faults(true, true); if (self) vfs::F.stat_err = vfs::F.access_err = 0; }
  where("copy %s to %s", src.c_str(), dest.c_str()); vfs::fired.clear(); vfs::hard = 0; bool r = CALL(how == 0 ? ST::CopyAFile(src, dest, always) : always ? ST::CopyFileAlways(src, dest) : ST::CopyFileIfDifferent(src, dest)); int hard = vfs::hard; bool statf = hard_of("stat_error") + hard_of("access_error") > 0; vfs::faults_off();
  Snap after = vfs::snap("/"); ev("-> %d hard=%d", r, hard); std::set<std::string> ex;
  if (!self) { ex.insert(eff); if (statf && !normal(dest, "/t").empty()) ex.insert(vfs::phys(dest, false)); if (hard_of("unlink_error") && before.count(eff) && before[eff].type == vfs::LINK_) ex.insert(vfs::phys(eff, true)); for (std::string p = dirname_of(eff); p.size() > 1; p = dirname_of(p)) if (!before.count(p)) ex.insert(p); if (srcdir && isdir) ex.insert(vfs::phys(dest, true)); if (srcdir) { ex.insert(vfs::phys(dest, true)); std::string d0 = normal(dest, "/t"); ex.insert(d0); for (std::string p = dirname_of(d0); p.size() > 1; p = dirname_of(p)) if (!before.count(p)) ex.insert(p); } }
  if (kind == 7 && !before.count("/t/s/other/below")) ex.erase("/t/s/other");
  REQUIRE(self || diff(before, after, ex).empty(), "copy-touched-something-else", "copying %s to %s (%s): %s", src.c_str(), dest.c_str(), r ? "success" : "failure", diff(before, after, ex).c_str());
  if (self) { std::string d = diff(before, after, ex); REQUIRE(d.empty(), "copy-onto-itself-changed-it", "copying %s onto itself as %s (%s; %s): %s", src.c_str(), dest.c_str(), r ? "success" : "failure", fired_list().c_str(), d.c_str()); }
  if (!r) { REQUIRE(hard || !can, "copy-failed-for-no-reason", "copying %s to %s failed without a fault", src.c_str(), dest.c_str()); probe("copy_failed"); }
  else { REQUIRE(!missing, "copied-missing-file", "copying the missing file %s reported success", src.c_str());
    if (srcdir) { vfs::Node n = vfs::lookup(dest); REQUIRE(n && n->type == vfs::DIR_, "copy-reported-success-wrongly", "copying directory %s to %s reported success but there is no directory", src.c_str(), dest.c_str()); }
    else if (!self) { std::string d; vfs::Node n = vfs::lookup(eff, true); if (statf) { std::string alt = vfs::phys(dest, false); vfs::Node an = alt.empty() ? nullptr : vfs::lookup(alt, false); if (an && an->type == vfs::FILE_ && an->data == body) n = an; }
      REQUIRE(n && n->type == vfs::FILE_ && n->data == body, "copy-content-differs", "copying %s to %s reported success but %s holds %zu bytes that differ from the %zu of the source (%s)", src.c_str(), dest.c_str(), eff.c_str(), n ? n->data.size() : 0, body.size(), fired_list().c_str());
      if (!statf && (always || !equal_before)) REQUIRE((n->mode & 07777) == (mode & 07777), "copy-permissions-differ", "copying %s to %s: mode %o instead of %o (%s)", src.c_str(), dest.c_str(), n->mode, mode, fired_list().c_str());
      if (!always && equal_before && !hard && before.count(eff) && after.count(eff)) REQUIRE(after[eff].ino == before[eff].ino && same(before[eff], after[eff]), "unchanged-file-rewritten", "copy-if-different rewrote %s although it was equal", eff.c_str()); }
    REQUIRE(can || self || srcdir || (!always && equal_before), "impossible-copy-succeeded", "copying %s to %s reported success", src.c_str(), dest.c_str()); }
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "copy left %d descriptors open", vfs::open_fds()); nontrivial(); }

// ------------------------------------------------------------------ C19 removing
void run_c19() { Scope scope_;
  bool root = chance(500); world(root); LeakCheck lk; std::string top = pick(Strs{"/t/top", "top", "/t/./top", "/t/s/../top", "/t/top/"}); vfs::mkdirs("/t/top"); vfs::mkdirs("/t/s"); vfs::put("/t/top2", "neighbour"); vfs::put("/t/s/z", "neighbour");
  tree("/t/top", 3, true, true); if (chance(60)) crowd("/t/top", true); if (chance(150)) vfs::lookup("/t/top")->mode = pick(std::vector<unsigned>{0555, 0500, 0400, 0000, 0311});
  bool file = chance(250); std::string path = top; if (file) { path = pick(Strs{"/t/top/one", "top/one", "/t/top/ln", "/t/top/dir", "/t/top/none", "/t/none/none", ""}); vfs::remove_all("/t/top/one"); vfs::remove_all("/t/top/ln"); vfs::remove_all("/t/top/dir"); vfs::remove_all("/t/top/none"); vfs::put("/t/top/one", "1", fmode()); vfs::put_link("/t/top/ln", pick(Strs{"/o/f", "/o/d", "nowhere", "/t/top2"})); vfs::mkdirs("/t/top/dir"); }
  else if (chance(100)) { path = pick(Strs{"/t/top2", "/t/none", "", "/t/top2/x"}); }
  Snap before = vfs::snap("/"); std::string ph = path.empty() ? "" : vfs::phys(path, false); bool isdir = before.count(ph) && before[ph].type == vfs::DIR_; bool links = false, closed = false; for (auto& e : before) if (!ph.empty() && under(e.first, ph)) { if (e.second.type == vfs::LINK_) links = true; if (e.second.type == vfs::DIR_ && ((e.second.mode & 0500) != 0500)) closed = true; }
  bool parent_ro = !root && !ph.empty() && vfs::lookup(dirname_of(ph)) && !(vfs::lookup(dirname_of(ph))->mode & 0200);
  bool faulty = chance(600); if (faulty) faults(false, false); ev("remove %s %s root=%d", file ? "file" : "directory", path.c_str(), root);
  where("remove %s", path.c_str()); vfs::fired.clear(); vfs::hard = 0; bool r = CALL(file ? ST::RemoveFile(path) : ST::RemoveADirectory(path)); int hard = vfs::hard; vfs::faults_off(); Snap after = vfs::snap("/"); ev("-> %d hard=%d", r, hard);
  std::set<std::string> ex; if (!ph.empty()) ex.insert(file ? ph : ph + "/"); if (file && isdir) ex.clear();
  // a failed removal may leave part of the tree, but only of what was there
  std::string d = diff(before, after, ex); REQUIRE(d.empty(), "removed-something-else", "removing %s (%s, %s): %s", path.c_str(), r ? "success" : "failure", fired_list().c_str(), d.c_str());
  if (!ph.empty()) for (auto& e : after) if (under(e.first, ph)) { REQUIRE(before.count(e.first) && before[e.first].type == e.second.type && before[e.first].data == e.second.data, "removal-created-something", "removing %s: %s", path.c_str(), e.first.c_str()); }
  if (r) REQUIRE(ph.empty() || !after.count(ph), "removal-reported-success-wrongly", "removing %s reported success but it is still there", path.c_str());
  if (!r && before.count(ph) && isdir != file && !hard && (root || (!closed && !parent_ro))) violation("removal-failed-for-no-reason", "removing %s failed without a fault", path.c_str());
  if (!r && file && !before.count(ph) && !hard && path == "/t/top/none" && root) violation("removal-failed-for-no-reason", "removing the missing file %s failed without a fault", path.c_str());
  if (r && !file) REQUIRE(isdir, "removal-reported-success-wrongly", "removing %s as a directory reported success", path.c_str());
  lk.done("removal"); if (links) probe("tree_with_links"); if (!r && hard) probe("removal_failed"); nontrivial(); }

// ------------------------------------------------------------------ C20 creating directories
void run_c20() { Scope scope_;
  bool root = chance(600); world(root); vfs::mkdirs("/t/have"); vfs::put("/t/file", "f"); vfs::put_link("/t/ld", "have"); vfs::put_link("/t/dangling", "nowhere/x"); vfs::mkdirs("/t/closed", 0555); if (chance(100)) vfs::lookup("/t/have")->mode = 0311;
  static const Strs paths = {"/t/a", "/t/a/b", "/t/a/b/c/d", "a/b", "/t/a//b/", "/t/have", "/t/have/n", "/t/file", "/t/file/x", "/t/ld/n", "/t/dangling", "/t/closed/n", "/t/a/b/", "./a/x", "a/../a/y", "/t/dangling/z", "/t/file/", "/t/ld"}; std::string far = "/t/far", lng = "/t/lng"; for (uint32_t i = 0; i < 45; ++i) far += strf("/d%u", i); for (uint32_t i = 0; i < 9; ++i) lng += "/" + std::string(150 + 11 * i, (char)('a' + i));
  uint32_t nt = chance(500) ? 1 : 2 + choose(3); if (nt > 1) { g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{100, 30, 1000})); } bool faulty = chance(450); LeakCheck lk;
  std::vector<Strs> plan(nt); bool hotspot = chance(500); for (auto& p : plan) { uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; ++i) p.push_back(hotspot ? pick(Strs{"/t/a/b/c/d", "/t/a/b", "/t/a/b/c/e", "a/b/f"}) : chance(40) ? pick(Strs{far, far + "/x", lng, lng + "/"}) : pick(paths)); }
  Snap before = vfs::snap("/"); if (faulty) faults(false, false); vfs::hard = 0; vfs::fired.clear(); std::set<std::string> made;
  auto body = [&](uint32_t t) { Scope sb; for (auto& p : plan[t]) { int h0 = vfs::hard; where("MakeDirectory(%s)", p.c_str()); bool r; if (nt == 1) r = CALL(ST::MakeDirectory(p)); else { Unscope u; r = ST::MakeDirectory(p); } vfs::Node n = vfs::lookup(p); bool is = n && n->type == vfs::DIR_; ev("t%u mkdir %s -> %d", t, p.c_str(), r);
      // with a failing stat in the middle an existing directory may go unrecognised; success may never be claimed wrongly
      REQUIRE(!r || is, "directory-not-created", "MakeDirectory(%s) reported success but there is no directory (%s)", p.c_str(), fired_list().c_str());
      bool bad = p.compare(0, 7, "/t/file") == 0 || p.find("dangling") != std::string::npos || (!root && p == "/t/closed/n") || (!root && before["/t/have"].mode == 0311 && p.find("/t/") == 0 && false);
      REQUIRE(r || bad || vfs::hard > h0 || (nt > 1 && vfs::hard), "make-directory-failed", "MakeDirectory(%s) failed without a fault (directory %s, %u threads)", p.c_str(), is ? "exists" : "does not exist", nt); made.insert(normal(p, "/t")); if (!r) probe("mkdir_failed"); } };
  if (nt == 1) body(0); else { for (uint32_t t = 0; t < nt; ++t) spawn([=]() { body(t); }); run_all(); }
  vfs::faults_off(); Snap after = vfs::snap("/"); std::set<std::string> ex; for (auto& e : after) if (!before.count(e.first)) { bool ok = e.second.type == vfs::DIR_; if (ok) { ok = false; std::string q = e.first; for (auto& m : made) if (under(m, q)) ok = true; if (!ok) for (auto& m : made) if (m.compare(0, 5, "/t/ld") == 0 && under("/t/have" + m.substr(5), q)) ok = true; if (!ok && q.compare(0, 10, "/t/nowhere") == 0) ok = false; } REQUIRE(ok, "made-something-else", "creating directories also made %s", e.first.c_str()); ex.insert(e.first); }
  std::string d = diff(before, after, ex); REQUIRE(d.empty(), "make-directory-changed-something", "%s", d.c_str()); if (nt > 1) { probe("concurrent_mkdir"); } else lk.done("MakeDirectory"); nontrivial(); }

// ------------------------------------------------------------------ C21 copying a tree
// what copying src (physical dir) must produce; false if impossible
bool expect_copy(const std::string& src, const std::string& dst, std::map<std::string, Ent>& out, int depth = 0) {
  if (depth > 50) return false; vfs::Node s = vfs::lookup(src); if (!s || s->type != vfs::DIR_) return false; out[dst] = Ent{vfs::DIR_, 0, "", 0, 0}; vfs::Node e = vfs::lookup(dst); if (e && e->type != vfs::DIR_) return false; if (!e && vfs::exists(dst)) return false;
  for (auto& k : s->kids) { vfs::Node n = vfs::lookup(src + "/" + k.first); if (!n) return false; if (n->type == vfs::DIR_) { if (!expect_copy(src + "/" + k.first, dst + "/" + k.first, out, depth + 1)) return false; } else { vfs::Node o = vfs::lookup(dst + "/" + k.first, false); if (o && o->type == vfs::DIR_) return false; out[dst + "/" + k.first] = Ent{vfs::FILE_, n->mode, n->data, 0, 0}; } }
  return true; }
bool cyclic(const std::string& p, int depth = 0) { if (depth > 8) return true; vfs::Node n = vfs::lookup(p); if (!n || n->type != vfs::DIR_) return false; for (auto& k : n->kids) if (cyclic(p + "/" + k.first, depth + 1)) return true; return false; }
void run_c21() { Scope scope_;
  world(true); vfs::mkdirs("/t/src"); tree("/t/src", 3, chance(300), false); { Scope s; if (cyclic("/t/src")) { count("cyclic_source_skipped"); return; } if (chance(60)) crowd("/t/src", false); }
  std::string dst = pick(Strs{"/t/dst", "dst", "/t/n/dst", "/t/dst", "/t/file/x", "/t/file"}); if (dst.find("file") != std::string::npos) vfs::put("/t/file", "f"); bool always = chance(500);
  if (dst.find("dst") != std::string::npos && dst[1] != 'n' && chance(500)) { vfs::mkdirs("/t/dst"); tree("/t/dst", 2, false, false); if (chance(500)) { Snap s = vfs::snap("/t/src"); for (auto& e : s) if (e.second.type == vfs::FILE_ && chance(400)) { std::string q = "/t/dst" + e.first.substr(6); if (!vfs::exists(q)) vfs::put(q, e.second.data, 0644); } } }
  std::string src = pick(Strs{"/t/src", "src", "/t/src", "/t/missing"}); if (chance(60) && src != "/t/missing") { dst = src; }
  std::string pd = normal(dst, "/t"); std::map<std::string, Ent> want; bool can; { Scope s; can = src == "/t/missing" ? false : expect_copy(normal(src, "/t"), pd, want); if (pd.compare(0, 7, "/t/file") == 0) can = false; }
  bool empty_ok = src == "/t/missing"; (void)empty_ok; Snap before = vfs::snap("/"); bool faulty = chance(550); if (faulty) { faults(true, true); if (normal(src, "/t") == pd) vfs::F.stat_err = vfs::F.access_err = 0; } LeakCheck lk;
  ev("copy tree %s -> %s always=%d can=%d (%zu entries)", src.c_str(), dst.c_str(), always, can, want.size()); vfs::hard = 0; vfs::fired.clear(); where("CopyADirectory"); bool r = CALL(ST::CopyADirectory(src, dst, always)); int hard = vfs::hard; bool statf = hard_of("stat_error") + hard_of("access_error") > 0; vfs::faults_off(); Snap after = vfs::snap("/"); ev("-> %d hard=%d", r, hard);
  bool self = normal(src, "/t") == pd; std::set<std::string> ex; if (!self) { ex.insert(pd); for (auto& w : want) ex.insert(w.first); for (std::string p = dirname_of(pd); p.size() > 1; p = dirname_of(p)) if (!before.count(p)) ex.insert(p); }
  // after a failed stat a directory may be taken for something else: then only the destination may be affected
  if (!r || statf) { ex.insert(pd + "/"); if (self) ex.clear(); } std::string d = diff(before, after, ex); REQUIRE(d.empty(), "copy-touched-something-else", "copying tree %s to %s (%s; %s): %s", src.c_str(), dst.c_str(), r ? "success" : "failure", fired_list().c_str(), d.c_str());
  if (r && !self && !statf) for (auto& w : want) { auto i = after.find(w.first); REQUIRE(i != after.end() && i->second.type == w.second.type && i->second.data == w.second.data, "tree-copy-incomplete", "copying %s to %s reported success but %s is %s (%s)", src.c_str(), dst.c_str(), w.first.c_str(), i == after.end() ? "missing" : "different", fired_list().c_str());
      if (w.second.type == vfs::FILE_ && !statf) { auto b = before.find(w.first); bool eq = b != before.end() && b->second.data == w.second.data; if (always || !eq) REQUIRE((i->second.mode & 07777) == (w.second.mode & 07777), "copy-permissions-differ", "%s: mode %o instead of %o", w.first.c_str(), i->second.mode, w.second.mode); else if (!hard) REQUIRE(b->second.ino == i->second.ino, "unchanged-file-rewritten", "copy-if-different rewrote %s", w.first.c_str()); } }
  REQUIRE(!r || can || statf, "impossible-copy-succeeded", "copying tree %s to %s reported success", src.c_str(), dst.c_str()); REQUIRE(r || hard || !can, "copy-failed-for-no-reason", "copying tree %s to %s failed without a fault", src.c_str(), dst.c_str());
  if (!r) probe("tree_copy_failed"); if (self) probe("tree_onto_itself"); lk.done("CopyADirectory"); if (want.size() > 1) nontrivial(); }

// ------------------------------------------------------------------ C22 comparing files
void run_c22() { Scope scope_;
  bool root = chance(700); world(root); std::string a = content(true), b = chance(500) ? a : content(); if (!b.empty() && chance(400)) b[pick(std::vector<uint32_t>{0u, (uint32_t)b.size() - 1, (uint32_t)b.size() / 2})] ^= 1 + choose(255); if (chance(100)) b += "x"; if (a.size() > 65536 && chance(300)) { b = a.substr(0, a.size() - 65536); if (chance(500)) std::swap(a, b); } bool stale = chance(120);
  // blocks of one letter: a block that could not be read must not pass for the one before it
  if (stale) { char c0 = (char)('a' + choose(26)), c1 = (char)('a' + choose(26)); uint32_t nb = range(2, 4), at = 1 + choose(nb - 1); a = std::string(nb * 4096 - choose(3), c0); b = a; for (uint32_t i = at * 4096 - choose(2); i < b.size(); ++i) b[i] = c1; if (chance(500)) std::swap(a, b); }
  vfs::put("/t/a", a, root ? 0644 : fmode()); vfs::put("/t/b", b, pick(std::vector<unsigned>{0644, 0200})); vfs::put_link("/t/la", "a"); vfs::mkdirs("/t/d"); static const Strs ps = {"/t/a", "/t/b", "b", "./a", "/t/la", "/t/d", "/t/none", "/t/ha", "/m/a"}; vfs::put_hard("/t/ha", "/t/a"); vfs::mkdirs("/m"); vfs::lookup("/m")->dev = 8; vfs::put("/m/a", chance(500) ? std::string(a.size(), 'm') : a); vfs::lookup("/m/a")->ino = vfs::lookup("/t/a")->ino;
  std::string x = chance(600) ? "/t/a" : pick(ps), y = chance(600) ? "/t/b" : pick(ps); auto data = [&](const std::string& p, std::string& d) { vfs::Node n = vfs::lookup(p); if (!n || n->type != vfs::FILE_) return false; d = n->data; return true; };
  std::string dx, dy; bool hx = data(x, dx), hy = data(y, dy), rd = root || ((!vfs::lookup(x) || (vfs::lookup(x)->mode & 0400)) && (!vfs::lookup(y) || (vfs::lookup(y)->mode & 0400))); Snap before = vfs::snap("/"); LeakCheck lk; bool faulty = chance(500); if (faulty) { faults(true, false); if (stale) { vfs::F = vfs::Faults(); vfs::F.read_err = pick(std::vector<int>{100, 300, 500}); vfs::F.budget = 1 + choose(2); probe("error_in_later_block"); } }
  vfs::hard = 0; vfs::fired.clear(); where("FilesDiffer"); bool r = CALL(ST::FilesDiffer(x, y)); int hard = vfs::hard; ev("differ %s (%zu) %s (%zu) -> %d hard=%d", x.c_str(), dx.size(), y.c_str(), dy.size(), r, hard);
  if (!r) REQUIRE(hx && hy && dx == dy, "different-files-reported-equal", "FilesDiffer(%s, %s) is false for %zu and %zu bytes (%s)", x.c_str(), y.c_str(), dx.size(), dy.size(), fired_list().c_str());
  if (r && !hard && rd) REQUIRE(!hx || !hy || dx != dy, "equal-files-reported-different", "FilesDiffer(%s, %s) is true for equal files of %zu bytes (%s)", x.c_str(), y.c_str(), dx.size(), fired_list().c_str());
  vfs::hard = 0; bool sf = CALL(ST::SameFile(x, y)); bool want = vfs::lookup(x) && vfs::lookup(x) == vfs::lookup(y); REQUIRE(sf ? want : (!want || vfs::hard), "same-file-wrong", "SameFile(%s, %s) is %d", x.c_str(), y.c_str(), sf);
  // signature and type
  std::string sig = a.substr(0, std::min<size_t>(a.size(), 1 + choose(40))); long off = 0; if (a.size() > 50 && chance(500)) { off = choose((uint32_t)a.size() - 45); sig = a.substr(off, 1 + choose(40)); } if (!sig.empty() && chance(400)) sig[choose((uint32_t)sig.size())] ^= 1; if (chance(100)) sig += "tail-that-is-not-there"; std::string csig; for (char c : sig) { if (!c) break; csig += c; }
  if (!csig.empty()) { vfs::hard = 0; vfs::fired.clear(); bool h = CALL(ST::FileHasSignature("/t/a", csig.c_str(), off)); bool w = a.size() >= off + csig.size() && a.compare(off, csig.size(), csig) == 0; bool readable = root || (vfs::lookup("/t/a")->mode & 0400); bool zero = false; if (w) for (char c : csig) if (!c) zero = true; REQUIRE(h ? w : (!w || vfs::hard || !vfs::fired.empty() || !readable || zero), "signature-wrong", "FileHasSignature(%zu bytes at %ld of %zu) is %d", csig.size(), off, a.size(), h); }
  vfs::faults_off(); std::string d = diff(before, vfs::snap("/"), {}); REQUIRE(d.empty(), "comparison-changed-something", "%s", d.c_str()); lk.done("comparison"); nontrivial(); }

// ------------------------------------------------------------------ C23 listing a directory
void run_c23() { Scope scope_;
  bool root = chance(600); world(root); vfs::mkdirs("/t/d"); uint32_t n = choose(3) ? choose(8) : chance(30) ? range(3000, 5000) : choose(200); auto entry = [&](uint32_t i) { std::string nm = strf("%s%u", pick(names).c_str(), i); if (chance(60)) nm += std::string(pick(std::vector<uint32_t>{60, 115, 126, 127, 128, 200, 240}), (char)('p' + i % 3)); return "/t/d/" + nm; }; for (uint32_t i = 0; i < n; ++i) { std::string p = entry(i); if (chance(200)) vfs::mkdirs(p); else if (chance(200)) vfs::put_link(p, "nowhere"); else vfs::put(p, "x"); } vfs::put("/t/f", "f"); if (chance(100)) vfs::lookup("/t/d")->mode = pick(std::vector<unsigned>{0300, 0000, 0555});
  std::string p = pick(Strs{"/t/d", "d", "/t/d/", "/t/d", "/t/f", "/t/none", "/t/d"}); vfs::Node node = vfs::lookup(p); bool can = node && node->type == vfs::DIR_ && (root || (node->mode & 0400)); std::set<std::string> want; if (node) for (auto& k : node->kids) want.insert(k.first); want.insert("."); want.insert("..");
  { Scope s; ev("list %s: %zu entries can=%d", p.c_str(), want.size(), can); } LeakCheck lk; { Unscope u0; ks::Directory dir; Scope s0; uint32_t loads = 1 + choose(3); if (chance(300)) { Unscope u; dir.Load("/o/d"); }
    for (uint32_t i = 0; i < loads; ++i) { bool faulty = chance(500); if (faulty) { faults(false, false); if (chance(400)) vfs::F.readdir_err = pick(std::vector<int>{1, 5, 20, 100, 300}); }
      if (i && can && chance(400)) { vfs::Node dn = vfs::lookup("/t/d"); if (!dn->kids.empty() && chance(500)) dn->kids.erase(dn->kids.begin()); else vfs::put(entry(9000 + i), "new"); want.clear(); for (auto& k : dn->kids) want.insert(k.first); want.insert("."); want.insert(".."); probe("changed_between_loads"); } vfs::hard = 0; vfs::fired.clear(); where("Directory::Load(%s)", p.c_str()); bool r; { Unscope u; r = dir.Load(p); } int hard = vfs::hard; vfs::faults_off(); ev("-> %d hard=%d", r, hard);
      REQUIRE(!r || can, "listing-wrong", "loading %s succeeded", p.c_str()); REQUIRE(r || !can || hard, "listing-failed", "loading %s failed without a fault", p.c_str());
      if (r) { Scope s; std::multiset<std::string> got; { Unscope u; for (unsigned long k = 0; k < dir.GetNumberOfFiles(); ++k) { const char* f = dir.GetFile(k); Scope s2; got.insert(f ? f : "(null)"); } } REQUIRE(got.size() == want.size() && std::equal(want.begin(), want.end(), got.begin()), "listing-incomplete", "listing %s gave %zu of %zu entries and success (%s)", p.c_str(), got.size(), want.size(), fired_list().c_str()); REQUIRE(dir.GetPath() == p, "listing-wrong", "path of the listing is %s", dir.GetPath()); if (hard) probe("load_survived_error"); } else { probe("load_failed"); Unscope u; REQUIRE(!dir.GetFile(dir.GetNumberOfFiles()), "listing-wrong", "an entry past the end"); REQUIRE(dir.GetNumberOfFiles() == 0 && !*dir.GetPath(), "entries-left", "loading %s failed and %lu entries of '%s' are left", p.c_str(), dir.GetNumberOfFiles(), dir.GetPath()); } } }
  bool faulty = chance(300); if (faulty) faults(false, false); vfs::hard = 0; vfs::fired.clear(); unsigned long c = CALL(ks::Directory::GetNumberOfFilesInDirectory(p)); int hard = vfs::hard; vfs::faults_off(); REQUIRE(can ? c == want.size() || (c == 0 && hard) : c == 0, "count-wrong", "GetNumberOfFilesInDirectory(%s) is %lu for %zu entries (%s)", p.c_str(), c, want.size(), fired_list().c_str());
  lk.done("listing"); nontrivial(); }

// ------------------------------------------------------------------ C24 reading lines
struct LineRef { Strs lines; std::vector<bool> nl; };
void run_c24() { Scope scope_;
  world(true); std::string text; uint32_t n = choose(6); for (uint32_t i = 0; i < n; ++i) { uint32_t len = pick(std::vector<uint32_t>{0, 1, 3, 20, 1021, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 3068, 3069, 3070, 5000}); if (chance(15)) len = pick(std::vector<uint32_t>{32767, 65535, 65536, 70000, 150000}); std::string l; for (uint32_t k = 0; k < len; ++k) l += (char)('a' + (k + i) % 26); if (len > 5 && chance(200)) { uint32_t at = pick(std::vector<uint32_t>{choose(len), std::min(len - 1, 1022u), std::min(len - 1, 1021u), std::min(len - 1, 2045u)}); l[at] = '\r'; } text += l; if (chance(300)) text += '\r'; if (i + 1 < n || chance(600)) text += '\n'; else break; }
  vfs::put("/t/f", text); LineRef ref; { Scope s; size_t i = 0; while (i < text.size()) { size_t e = text.find('\n', i); bool nl = e != std::string::npos; std::string l = text.substr(i, nl ? e - i : std::string::npos); if (!l.empty() && l.back() == '\r') l.pop_back(); ref.lines.push_back(l); ref.nl.push_back(nl); i = nl ? e + 1 : text.size(); } ev("text of %zu bytes, %zu lines", text.size(), ref.lines.size()); }
  if (chance(500)) { vfs::F.eintr = choose(100); vfs::F.read_short = choose(500); vfs::F.budget = 6; if (chance(400)) { vfs::F.read_err = 1 + choose(150); vfs::F.budget = 3; } } vfs::hard = 0; where("GetLineFromStream"); LeakCheck lk;
  long limit = -1; if (chance(300)) limit = pick(std::vector<long>{1, 2, 10, 1022, 1023, 1024, 2000, 3068, 3069, 3070, 4000, 4999, 5000, 5001, 66000, 100000, 0}); size_t i = 0;
  { Unscope u0; std::ifstream in("/t/f"); Scope s0; bool nl; if (!in && !vfs::hard) violation("cannot-open", "stream could not be opened");
    for (;;) { std::string line("previous"); nl = true; bool* pn = chance(900) ? &nl : nullptr; bool r; { Unscope u; std::string cl("previous"); r = ST::GetLineFromStream(in, cl, pn, limit); Scope s; line.assign(cl.data(), cl.size()); } if (!r) { REQUIRE(line.empty(), "line-wrong", "end of file with a line of %zu characters", line.size()); break; } REQUIRE(i < ref.lines.size(), "line-wrong", "more lines than the %zu in the file", ref.lines.size()); const std::string& w = ref.lines[i];
      if (limit < 0) { bool cut = vfs::hard && (w + "\r").compare(0, line.size(), line) == 0; REQUIRE(line == w || cut, "line-wrong", "line %zu of %zu characters was read as %zu characters", i, w.size(), line.size()); if (pn && !vfs::hard) REQUIRE(nl == ref.nl[i], "line-end-wrong", "line %zu %s a line end", i, nl ? "is said to have" : "is said to lack"); }
      else { Scope s; REQUIRE((long)line.size() <= std::max(limit, 0l), "line-too-long", "line of %zu characters with limit %ld", line.size(), limit); REQUIRE(w.compare(0, line.size(), line) == 0 || w + "\r" == line, "line-wrong", "line %zu with limit %ld is not a prefix", i, limit); if ((long)w.size() >= limit && !vfs::hard) REQUIRE((long)line.size() == limit, "line-wrong", "line of %zu characters with limit %ld was read as %zu characters", w.size(), limit, line.size()); if ((long)w.size() < limit) REQUIRE(line == w || vfs::hard, "line-wrong", "line %zu of %zu characters with limit %ld was read as %zu characters", i, w.size(), limit, line.size()); if (pn && (long)w.size() < limit && !vfs::hard) REQUIRE(nl == ref.nl[i], "line-end-wrong", "line %zu %s a line end", i, nl ? "is said to have" : "is said to lack"); count("limited_lines"); break; }
      ++i; if (i > 100) break; }
    if (limit < 0) REQUIRE(i == ref.lines.size() || vfs::hard, "line-wrong", "%zu of %zu lines were read", i, ref.lines.size()); }
  vfs::faults_off(); lk.done("line reading"); nontrivial(); }

// ------------------------------------------------------------------ C25 globbing
bool wild(const char* p, const char* s) { // reference matcher: * ? [set]
  for (; *p; ++p, ++s) {
    if (*p == '*') { for (const char* q = s;; ++q) { if (wild(p + 1, q)) return true; if (!*q) return false; } }
    if (*p == '?') { if (!*s) return false; continue; }
    if (*p == '[') { const char* b = p + 1; bool neg = *b == '!' || *b == '^'; if (neg) ++b; const char* e = b; if (*e == ']') ++e; while (*e && *e != ']') ++e; if (*e) { if (!*s) return false; bool in = false; for (const char* c = b; c < e; ++c) { if (c + 2 < e && c[1] == '-') { if (c[0] <= *s && *s <= c[2]) in = true; c += 2; } else if (*c == *s) in = true; } if (in == neg) return false; p = e; continue; } }
    if (*p != *s) return false; }
  return !*s; }
struct GlobRef { Strs parts; bool recurse, through, listdirs, reclist; std::multiset<std::string> out; bool loop = false; uint32_t followed = 0; Strs visited; uint32_t steps = 0;
  static bool isdir(const std::string& p) { vfs::Node n = vfs::lookup(p); return n && n->type == vfs::DIR_; }
  void recursive(const std::string& dir) { vfs::Node d = vfs::lookup(dir); if (!d || d->type != vfs::DIR_ || ++steps > 4000) return; for (auto& k : d->kids) { std::string r = dir + "/" + k.first; bool dd = isdir(r), lk = k.second->type == vfs::LINK_;
      if (dd && (!lk || through)) { if (lk) { ++followed; std::string c = vfs::phys(dir, true); if (std::find(visited.begin(), visited.end(), c) == visited.end()) { if (reclist) out.insert(r); visited.push_back(c); recursive(r); visited.pop_back(); } else loop = true; } else { if (reclist) out.insert(r); recursive(r); } }
      else if (wild(parts.back().c_str(), k.first.c_str())) out.insert(r); } }
  void level(size_t i, const std::string& dir) { if (i + 1 == parts.size() && recurse) { recursive(dir); return; } if (i >= parts.size()) return; vfs::Node d = vfs::lookup(dir.empty() ? "/" : dir); if (!d || d->type != vfs::DIR_) return;
    for (auto& k : d->kids) { std::string r = dir + "/" + k.first; bool last = i + 1 == parts.size(), dd = isdir(r); if ((!last && !dd) || (last && dd && !listdirs)) continue; if (wild(parts[i].c_str(), k.first.c_str())) { if (last) out.insert(r); else level(i + 1, r); } } } };
std::string collapse(std::string s) { std::string r; for (char c : s) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c; return r; }
struct GlobQuery { std::string expr, relative; GlobRef ref; bool defaults; };
std::string lexical_relative(const std::string& from, const std::string& to) { auto parts = [](const std::string& s) { Strs r; std::string c; for (char ch : s + "/") if (ch == '/') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; return r; }; Strs a = parts(from), b = parts(to); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; std::string r; for (size_t i = k; i < a.size(); ++i) r += "../"; for (size_t i = k; i < b.size(); ++i) r += b[i] + (i + 1 < b.size() ? "/" : ""); return r; }
void run_c25() { Scope scope_;
  world(true); vfs::mkdirs("/t/g"); tree("/t/g", 3, chance(400), false); for (uint32_t i = 0, n = choose(4); i < n; ++i) vfs::put(strf("/t/g/%s%u.%s", pick(Strs{"img", "a", "frame0"}).c_str(), choose(12), pick(Strs{"krtd", "txt", "png"}).c_str()), "x");
  static const Strs odd = {"a+b(1).txt", "x$y", "p|q", "b]c", "[a]", "^a", "a{2}", "c-d", "A0z9Z", "[", "~x#"}; bool odds = chance(300); if (odds) for (auto& o : odd) if (chance(500)) vfs::put("/t/g/" + o, "x"); if (chance(60)) crowd("/t/g", false); bool linky = chance(150); if (linky) { for (auto d : {"/t/g/d1/e", "/t/g/d2"}) vfs::mkdirs(d); vfs::put_link("/t/g/d1/to2", "../d2"); vfs::put_link("/t/g/d2/to1", "/t/g/d1/e"); vfs::put_link("/t/g/d1/e/up", pick(Strs{"..", "../../d2", "/o/d"})); vfs::put("/t/g/d1/e/a.txt", "x"); vfs::put("/t/g/d2/a.txt", "x"); }
  static const Strs pats = {"*", "*.txt", "?", "a*", "[abc]", "[!a]*", "*.k??d", "img[0-9].*", "sub", "data.txt", "e f", ".*", "*.*.*", "[a", "x.y.z", "*a*", "[]x]*", "frame0*", "**", "[!]a]*", "[^a]*", "*[!]]", "a[", "[]", "[!", "[!]", "*[a-]*", "[]-]*", "*[0-9]*", "*]*", "[[]*"};
  std::vector<GlobQuery> qs; uint32_t nq = chance(linky ? 800 : 300) ? range(2, 3) : 1;
  for (uint32_t q = 0; q < nq; ++q) {
    Strs mid; for (uint32_t i = 0, n = choose(3); i < n; ++i) mid.push_back(pick(Strs{"*", "sub", "?", "[a-c]", "s*b"})); std::string last = odds && chance(400) ? pick(odd) : pick(pats); GlobQuery gq; GlobRef& ref = gq.ref; gq.defaults = q == 0 && chance(200); ref.recurse = chance(linky ? 900 : 350); ref.through = gq.defaults ? true : ref.recurse && chance(linky ? 900 : 500); ref.listdirs = gq.defaults || !chance(200); ref.reclist = !gq.defaults && chance(400);
    bool rel = chance(250); std::string base = rel ? "g" : pick(Strs{"/t/g", "/t/g", "/t/g/sub", "/t/none"}); gq.expr = base; for (auto& m : mid) gq.expr += "/" + m; gq.expr += "/" + last; if (chance(150)) gq.relative = pick(Strs{"/t", "/t/g", "/t/g/sub", "/o/d", "/t/go"});
    for (auto& m : mid) ref.parts.push_back(m); ref.parts.push_back(last); std::string start = rel ? "/t/g" : base;
    ref.level(0, start); if (ref.steps > 3000) { count("too_large_skipped"); return; } ev("glob %s recurse=%d through=%d dirs=%d/%d relative %s: %zu expected", gq.expr.c_str(), ref.recurse, ref.through, ref.listdirs, ref.reclist, gq.relative.c_str(), ref.out.size()); qs.push_back(gq); }
  LeakCheck lk; uint32_t nt = chance(800) ? 1 : 2 + choose(2);
  auto body = [&](bool may_fail) { Scope sb; Unscope ub; ks::Glob g; Scope sc; bool first = true; std::string relative;
   for (auto& gq : qs) { const GlobRef& ref = gq.ref; bool faulty = may_fail && chance(250); { Unscope us; if (gq.defaults) { if (ref.recurse) g.SetRecurse(true); } else { g.SetRecurse(ref.recurse); g.SetRecurseThroughSymlinks(ref.through); g.SetListDirs(ref.listdirs); g.SetRecurseListDirs(ref.reclist); } if (gq.relative != relative) g.SetRelative(gq.relative.empty() ? nullptr : gq.relative.c_str()); } relative = gq.relative; const std::string& expr = gq.expr; if (faulty) { faults(false, false); if (linky) { vfs::F = vfs::Faults(); vfs::F.other_err = pick(std::vector<int>{100, 300, 500}); vfs::F.budget = 1; } } vfs::hard = 0; vfs::fired.clear(); where("Glob %s", expr.c_str());
    std::multiset<std::string> got; bool r, cyc = false; int hard; { Unscope um; ks::Glob::GlobMessages msg; r = g.FindFiles(expr, &msg); Scope sn; hard = vfs::hard; if (faulty) vfs::faults_off(); for (auto& m : msg) if (m.type == ks::Glob::cyclicRecursion) cyc = true; }
    std::vector<std::string>& files = g.GetFiles(); for (auto& f : files) got.insert(collapse(f)); ev("-> %d, %zu files, hard=%d", r, got.size(), hard);
    std::multimap<std::string, std::string> want; for (auto& f : ref.out) want.insert(std::make_pair(relative.empty() ? f : lexical_relative(relative, f), f)); if (!relative.empty()) probe("relative");
    for (auto& f : got) { auto i = want.find(f); if (i == want.end() && !hard) violation("glob-wrong-match", "%s relative to \"%s\" also gave %s", expr.c_str(), relative.c_str(), f.c_str()); if (i != want.end()) want.erase(i); else REQUIRE(!relative.empty() || vfs::exists(f), "glob-wrong-match", "%s gave %s which does not exist", expr.c_str(), f.c_str()); }
    if (!hard) { REQUIRE(want.empty(), "glob-missed", "%s relative to \"%s\" did not give %s", expr.c_str(), relative.c_str(), want.begin()->first.c_str()); REQUIRE(cyc == ref.loop, "glob-cycle-report", "cyclic recursion was %sreported", cyc ? "" : "not "); REQUIRE(!first || g.GetFollowedSymlinkCount() == ref.followed, "glob-cycle-report", "%u links followed instead of %u", g.GetFollowedSymlinkCount(), ref.followed); if (ref.loop) probe("symlink_cycle"); if (!first) probe("second_glob"); } first = false; } };
  if (nt == 1) { body(true); } else { g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{200, 60, 2000})); for (uint32_t t = 0; t < nt; ++t) spawn([&]() { body(false); }); run_all(); probe("concurrent_glob"); }
  if (nt == 1) lk.done("globbing"); nontrivial(); }

// ------------------------------------------------------------------ C26 finding programs and libraries
void run_c26() { Scope scope_;
  bool root = chance(600); world(root); static const Strs dirs = {"/bin", "/usr/bin", "/opt/x", "/t/rel", "/nowhere", "/t"}; for (auto& d : {"/opt/x", "/t/rel"}) vfs::mkdirs(d); std::string name = pick(Strs{"tool", "sub/tool", "libz", "/opt/x/tool", "t o"}); bool lib = chance(400); int ff = !lib && chance(350) ? 1 + (int)choose(2) : 0;
  Strs variants = lib ? Strs{name, "lib" + name + ".so", "lib" + name + ".a", "lib" + name + ".sl", "lib" + name + ".dylib", "lib" + name + ".dll"} : Strs{name};
  if (name[0] == '/') { if (chance(700)) vfs::put(name, "x", chance(800) ? 0755 : 0200); } else for (auto& d : dirs) if (d != "/nowhere") for (auto& v : variants) switch (weighted({5, 2, 1, 1})) { case 0: break; case 1: vfs::put(d + "/" + v, "x", chance(850) ? 0755 : 0200); break; case 2: vfs::mkdirs(d + "/" + v); break; default: vfs::put_link(d + "/" + v, pick(Strs{"/o/f", "/o/d", "gone"})); }
  Strs path, user; uint32_t n = chance(60) ? range(8, 30) : choose(5); bool crowded = n > 7; for (uint32_t i = 0; i < n; ++i) path.push_back(crowded && chance(900) ? "/nowhere" : pick(Strs{"/bin", "/usr/bin", "/opt/x/", "/nowhere", "rel", "/opt/../opt/x"})); n = crowded ? range(8, 30) : choose(4); for (uint32_t i = 0; i < n; ++i) user.push_back(crowded && chance(850) ? "/nowhere" : pick(Strs{"/opt/x", "/t/rel", "rel", "/usr/bin", "."})); std::string env = join(path, ":"); if (chance(100)) { if (path.empty()) path.push_back(""); env += ":"; } bool noenv = chance(100); if (noenv) unsetenv("PATH"); else setenv("PATH", env.c_str(), 1); bool nosys = !lib && chance(300); bool multi = !lib && !ff && chance(300); Strs cfp; if (ff) { n = choose(3); for (uint32_t i = 0; i < n; ++i) cfp.push_back(pick(Strs{"/opt/x", "/bin/", "/nowhere", "/t"})); } if (cfp.empty()) unsetenv("CMAKE_FILE_PATH"); else setenv("CMAKE_FILE_PATH", join(cfp, ":").c_str(), 1); bool shadowed = false;
  auto usable = [&](const std::string& p) { vfs::Node x = vfs::lookup(p); return x && x->type == vfs::FILE_ && (root || (x->mode & 0400)); };
  auto findff = [&](const std::string& nm) -> std::string { Strs all; if (!nosys) { all = cfp; if (!noenv) for (auto& p : path) all.push_back(p); } for (auto& u : user) all.push_back(u);
    for (auto& d : all) { std::string dd = d; if (dd.empty() || dd.back() != '/') dd += "/"; vfs::Node x = vfs::lookup(dd + nm); if (!x || (!root && !(x->mode & 0400))) continue; if ((x->type == vfs::DIR_) == (ff == 2)) return dd + nm; shadowed = true; } return ""; };
  auto find1 = [&](const std::string& nm) -> std::string { if (ff) return findff(nm); if (usable(nm)) return nm; Strs all; if (!nosys && !noenv) for (auto& p : path) all.push_back(p); for (auto& u : user) all.push_back(u);
    for (auto& d : all) { std::string dd = d; if (dd.empty() || dd.back() != '/') dd += "/"; if (!lib) { if (usable(dd + nm)) return dd + nm; } else for (auto& suffix : {std::string(".so"), std::string(".a"), std::string(".sl"), std::string(".dylib"), std::string(".dll")}) if (usable(dd + "lib" + nm + suffix)) return dd + "lib" + nm + suffix; } return ""; };
  std::string want, second = pick(Strs{"tool", "other"}); { Scope s; want = find1(name); if (want.empty() && multi) want = find1(second); if (!want.empty()) want = normal(want, "/t"); ev("find %s %s PATH=%s user=%s nosys=%d want %s", lib ? "library" : ff == 1 ? "file" : ff ? "directory" : "program", name.c_str(), noenv ? "(unset)" : env.c_str(), join(user).c_str(), nosys, want.c_str()); }
  std::string got; LeakCheck lk; { bool faulty = chance(300); if (faulty) { faults(false, false); vfs::F.other_err = 0; } vfs::hard = 0; vfs::fired.clear(); where("Find%s", lib ? "Library" : ff == 1 ? "File" : ff ? "Directory" : "Program");
    std::string r; { Strs nn{name, second}; Unscope u; uint64_t l = alloc_live(); { std::string rr = lib ? ST::FindLibrary(name, user) : ff == 1 ? ST::FindFile(name, user, nosys) : ff ? ST::FindDirectory(name, user, nosys) : multi ? ST::FindProgram(nn, user, nosys) : ST::FindProgram(name, user, nosys); Scope s; r.assign(rr.data(), rr.size()); } REQUIRE(alloc_live() == l, "memory-leak", "search"); } int hard = vfs::hard; vfs::faults_off(); { Scope s; ev("-> %s hard=%d", r.c_str(), hard); }
    if (ff) { if (r.compare(0, 2, "//") == 0) r.erase(0, 1); vfs::Node x = r.empty() ? nullptr : vfs::lookup(r); if (!hard) REQUIRE(r == want || (r.empty() && shadowed), "found-wrong-file", "searching %s found '%s' instead of '%s'", name.c_str(), r.c_str(), want.c_str()); else if (!r.empty()) REQUIRE(hard_of("stat_error") || (x && (x->type == vfs::DIR_) == (ff == 2)), "found-wrong-file", "searching %s found '%s' which is of the wrong kind", name.c_str(), r.c_str()); }
    else if (!hard) REQUIRE(r == want, "found-wrong-file", "searching %s found '%s' instead of '%s'", name.c_str(), r.c_str(), want.c_str()); else if (!r.empty()) REQUIRE(hard_of("stat_error") || usable(r), "found-wrong-file", "searching %s found '%s' which is not a readable file", name.c_str(), r.c_str()); }
  REQUIRE(vfs::open_fds() == 0 && vfs::open_dirs() == 0, "descriptor-leak", "search"); nontrivial(); }
Reg r18("C18", run_c18), r19("C19", run_c19), r20("C20", run_c20), r21("C21", run_c21), r22("C22", run_c22), r23("C23", run_c23), r24("C24", run_c24), r25("C25", run_c25), r26("C26", run_c26);
}
