// Configuration file I/O: write/read round trip, honest failure, parse semantics, search and merge.
#include "cfgworld.h"

// a warm-up outside fault injection: logger manager, locale caches
static void warm() { kv::get_logger("warm"); }

// ------------------------------------------------------------------ C01 write, then read back
static std::string gen_word(int parts) {
  static const Strs w = {"a", "Z9", "alpha", "beta", "gamma_x", "d-e", "sub/x", "a.b.c", "K9x", "long_identifier_name_0", "block1", "includes", "endblocks", "zz_"};
  std::string k = pick(w); for (int i = 1; i < parts; ++i) k += (chance(800) ? ":" : ".") + pick(w); return k; }
static std::string gen_value() {
  switch (weighted({4, 3, 2, 2, 1, 1})) {
    case 0: return text(12, "abc019.-");
    case 1: return strf("%u", choose(100000));
    case 2: return text(40, "ab =:[]()\"'\\,;/$%{}<>|&\t");
    case 3: return text(6, "\x80\xff\xc3\xa9 =a[");
    case 4: { std::string s; uint32_t n = 200 + choose(9000); for (uint32_t i = 0; i < n; ++i) s += (char)('a' + i % 26); return s; }
    default: return pick(Strs{"", "=", ":=", "[RO]", "= x", "include foo", "endblock", "true", "1e-308", "$", "${x}", "{", "/tmp/a b/c"}); } }
static std::string gen_descr() {
  switch (weighted({3, 3, 2, 2, 1})) {
    case 0: return "";
    case 1: return text(60, "abc defg  ");
    case 2: { std::string s; uint32_t n = choose(60); for (uint32_t i = 0; i < n; ++i) s += text(14, "wxyz") + (chance(100) ? "\n" : " "); return s; }
    case 3: return "key = value\n" + text(20, "\n =#:[]block");
    default: { std::string s = std::string(chance(500) ? 70 + choose(20) : 70 + choose(1200), 'W'); return chance(300) ? s : chance(300) ? "first " + s : s + (chance(500) ? " tail = 3\n\n# x" : "\nblock x\n" + s); } } }

static void run_c01() {
  vfs::reset(); clean_env(); warm();
  vfs::mkdirs("/work"); vfs::cwd = "/work";
  auto cfg = kv::config_block::empty_config(pick(Strs{"", "named"}));
  Map want, descr; uint32_t n = 1 + choose(8);
  for (uint32_t i = 0; i < n; ++i) {
    std::string k = gen_word(1 + choose(3)), v = gen_value(), d = gen_descr();
    // values that look like a macro reference are expanded on reading; they are outside the round trip
    if (cfg->is_read_only(k)) continue;
    cfg->set_value(k, v, d); want[k] = trim(v); descr[k] = d; ev("entry %s = %s  # %s", k.c_str(), quote(v, 80).c_str(), quote(d, 60).c_str());
    if (chance(200)) cfg->set_location(k, std::make_shared<std::string>(pick(Strs{"/etc/some.conf", "rel path.conf", "f = 3.conf"})), (int)choose(500));
    if (chance(60)) cfg->mark_read_only(k);
  }
  if (chance(60)) { cfg = kv::config_block::empty_config("e"); want.clear(); descr.clear(); }
  std::string path = pick(Strs{"/work/out.conf", "/work/new/deep/er/out.conf", "out.conf", "sub/../out2.conf", "./x/y.conf", "/work/out.conf", "/work/n2/out.conf", "/work/out.conf", "out.conf", "/work/adir", "/work/afile/under.conf"});
  vfs::mkdirs("/work/adir"); vfs::mkdirs("/work/sub"); vfs::put("/work/afile", "x");
  bool old = chance(400); std::string oldtxt; if (old) { oldtxt = "oldkey_one = 1\n" + std::string(choose(3) * 6000, '#') + "\noldkey_two = 2\n"; std::string np = normal(path, "/work"); if (path != "/work/adir" && path != "/work/afile/under.conf" && path.find("/new/") == std::string::npos) vfs::put(np, oldtxt); }
  bool faulty = chance(600); if (faulty) { vfs::swarm(false, true, true); vfs::F.stat_err = vfs::F.access_err = 0; }
  ev("write %zu keys to %s faulty=%d", want.size(), path.c_str(), faulty);
  where("write_config_file");
  bool ok = false; std::string what;
  try { kv::write_config_file(cfg, path); ok = true; }
  catch (kv::config_file_write_exception const& e) { what = e.what(); }
  catch (std::exception const& e) { violation("wrong-exception-type", "write_config_file(%s) raised something other than a configuration write error: %s", path.c_str(), e.what()); }
  int hard = vfs::hard; bool full = false; for (auto& f : vfs::fired) if (f.kind == "disk_full") full = true; (void)full;
  vfs::faults_off();
  ev("-> %s %s", ok ? "ok" : "error", what.c_str());
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open after writing", vfs::open_fds());
  bool impossible = path == "/work/adir" || path == "/work/afile/under.conf" || want.empty();
  if (!ok) {
    REQUIRE(hard || impossible, "spurious-write-failure", "write to %s failed without any storage fault: %s", path.c_str(), what.c_str());
    if (want.empty() && old) { std::string now, np = normal(path, "/work"); if (vfs::get(np, &now) && vfs::exists(np)) REQUIRE(now == oldtxt || np == "/work/afile/under.conf", "refused-write-destroys", "a block without entries was refused, but the file at %s was changed to %zu bytes", path.c_str(), now.size()); }
    count("write_failed"); nontrivial(); return;
  }
  REQUIRE(!impossible, "impossible-write-succeeded", "writing %zu keys to %s reported success", want.size(), path.c_str());
  std::string raw; bool there = vfs::get(normal(path, "/work"), &raw);
  REQUIRE(there, "reported-success-no-file", "write to %s reported success but there is no file", path.c_str());
  where("read_config_file after write"); Map got;
  try { got = contents(kv::read_config_file(path)); }
  catch (std::exception const& e) { violation(hard ? "write-error-not-reported" : "roundtrip-unreadable", "the file written to %s (reported as success%s) cannot be read back: %s\n%s", path.c_str(), hard ? " despite storage errors" : "", e.what(), quote(raw, 600).c_str()); }
  std::string d = diff(want, got);
  if (!d.empty()) violation(hard ? "write-error-not-reported" : "roundtrip-mismatch", "writing to %s reported success%s but reading back: %s", path.c_str(), hard ? " despite storage errors" : "", d.c_str());
  // the description of an entry stands as comment lines directly before it
  { Strs lines; std::istringstream is(raw); std::string l; while (std::getline(is, l)) lines.push_back(l);
    auto words = [](const std::string& t) { Strs r; std::istringstream x(t); std::string w; while (x >> w) r.push_back(w); return r; };
    for (auto& kv : want) { Strs ws = words(descr[kv.first]); if (ws.empty()) continue; size_t at = 0; while (at < lines.size() && lines[at].compare(0, kv.first.size() + 1, kv.first + " ") != 0) ++at; REQUIRE(at < lines.size(), "roundtrip-mismatch", "no line for %s", kv.first.c_str());
      std::string txt; while (at > 0 && !lines[at - 1].empty() && lines[at - 1][0] == '#') { --at; txt = lines[at].substr(1) + "\n" + txt; } REQUIRE(words(txt) == ws, "description-lost", "the comment before %s is %s, its description %s", kv.first.c_str(), quote(txt).c_str(), quote(descr[kv.first]).c_str()); count("descriptions"); } }
  count("roundtrips"); if (vfs::fired.size()) { probe("survived_transient_fault"); } nontrivial();
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open after reading", vfs::open_fds());
  // a second generation, through a block that came from a file (locations recorded), is identical
  if (chance(300)) {
    auto c2 = kv::read_config_file(path); kv::write_config_file(c2, "/work/gen2.conf"); Map g2 = contents(kv::read_config_file("/work/gen2.conf")); d = diff(want, g2);
    REQUIRE(d.empty(), "roundtrip-mismatch", "second generation: %s", d.c_str()); }
}
static sim::Reg r01("C01", run_c01);

// C02: reading under storage faults gives the complete configuration or an error
static void run_c02() {
  vfs::reset(); clean_env(); warm(); World w; gen_world(w, true, false);
  if (chance(300)) { // one large file so that reads are split over many buffers
    File& f = w.files.begin()->second; int base = (int)std::count(f.text.begin(), f.text.end(), '\n'); if (!f.text.empty() && f.text.back() != '\n') { f.text += "\n"; ++base; }
    uint32_t n = 200 + choose(400); for (uint32_t i = 0; i < n; ++i) { Stmt s; s.kind = S_SET; s.key = strf("bulk:key%u", i); s.val.push_back({0, strf("value-%u-%s", i, std::string(i % 60, 'v').c_str()), ""}); s.line = base + i + 1; f.text += s.key + " = " + s.val[0].a + "\n"; f.st.push_back(s); }
    vfs::put(f.path, f.text); probe("multi_buffer_file"); }
  World ref = w; Expect e = ref.eval();
  bool faulty = chance(800); if (faulty) { vfs::swarm(true, false, false); }
  where("read_config_file"); kv::config_block_sptr c; std::string err; bool threw = false;
  try { c = kv::read_config_file(w.main, w.search); }
  catch (kv::config_block_exception const& x) { threw = true; err = x.what(); }
  catch (std::exception const& x) { violation("wrong-exception-type", "read_config_file raised a non-configuration exception: %s", x.what()); }
  int hard = vfs::hard; vfs::faults_off(); ev("-> %s %s hard=%d", threw ? "error" : "ok", err.c_str(), hard);
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open after read (%s)", vfs::open_fds(), threw ? "failed" : "succeeded");
  if (threw) { REQUIRE(hard || e.fail, "spurious-read-failure", "reading failed without a hard storage error: %s", err.c_str()); if (hard) { probe("error_reported"); nontrivial(); } return; }
  REQUIRE(!e.fail, "bad-file-accepted", "a file that must be rejected (%s) was accepted", e.why.c_str());
  compare(e, c, hard ? "read-error-not-reported" : "wrong-configuration");
  if (vfs::fired.size()) probe("correct_under_fault"); nontrivial(); count("keys_compared", e.m.size());
}
static sim::Reg r02("C02", run_c02);

// C03: the language itself, over multi-file worlds
static void run_c03() {
  vfs::reset(); clean_env(); warm(); World w; gen_world(w, chance(500), true);
  World ref = w; Expect e = ref.eval();
  if (chance(300)) { vfs::F.eintr = 100; vfs::F.read_short = 500; vfs::F.budget = 6; }
  vfs::F.fd_limit = 40;
  where("read_config_file"); kv::config_block_sptr c; std::string err; bool threw = false;
  try { c = kv::read_config_file(w.main, w.search); }
  catch (kv::config_block_exception const& x) { threw = true; err = x.what(); }
  catch (std::exception const& x) { violation("wrong-exception-type", "read_config_file raised a non-configuration exception: %s", x.what()); }
  vfs::faults_off(); ev("-> %s %s (expected %s)", threw ? "error" : "ok", err.c_str(), e.fail ? e.why.c_str() : "ok");
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open after read (%s)", vfs::open_fds(), threw ? "failed" : "succeeded");
  if (ref.includes_done) probe("include_resolved"); if (ref.depth > 1) probe("nested_include"); if (e.fail) probe("rejected_program"); if (ref.steps > 100) probe("include_cycle"); if (w.blocks_cross && !e.fail) probe("block_spans_files");
  if (e.fail) { REQUIRE(threw, "bad-file-accepted", "a file that must be rejected (%s) was accepted with %s", e.why.c_str(), show(contents(c)).c_str()); nontrivial(); return; }
  REQUIRE(!threw, "good-file-rejected", "a well-formed configuration was rejected: %s", err.c_str());
  compare(e, c, "wrong-configuration"); nontrivial(); count("keys_compared", e.m.size());
}
static sim::Reg r03("C03", run_c03);

// ------------------------------------------------------------------ C04 standard locations and merging
static Strs g_who;
static void read_std() {
  vfs::reset(); clean_env(); warm(); vfs::as_root = false; vfs::mkdirs("/cwd"); vfs::cwd = "/cwd";
  std::string app = pick(Strs{"myapp", "kw"}), ver = pick(Strs{"1.2", "", "2"}), prefix = pick(Strs{"", "/usr", "/usr/local", "/opt/pfx", "/pfx2", "/", "/usr/", "/usr/local/x", "/opt", "/u", "/usr/loca", "/home/u/sw"});
  if (!g_who.empty() && chance(700)) { app = g_who[0]; ver = g_who[1]; prefix = g_who[2]; } { Scope s; g_who = Strs{app, ver, prefix}; }
  std::string name = pick(Strs{"test.conf", "d/test.conf"}); Strs path;
  if (chance(500)) { Strs p; uint32_t n = 1 + choose(2); for (uint32_t i = 0; i < n; ++i) p.push_back(pick(Strs{"/kcp1", "/kcp2", "/kcp/deep"})); setenv("KWIVER_CONFIG_PATH", join(p, ":").c_str(), 1); for (auto& d : p) path.push_back(d); ev("KWIVER_CONFIG_PATH=%s", join(p, ":").c_str()); }
  Strs cfgd; if (chance(400)) { Strs p; p.push_back("/xdg1"); if (chance(300)) p.push_back("/xdg2"); setenv("XDG_CONFIG_HOME", join(p, ":").c_str(), 1); cfgd = p; }
  if (chance(600)) { setenv("HOME", "/home/u", 1); cfgd.push_back("/home/u/.config"); }
  cfgd.push_back("/etc/xdg"); cfgd.push_back("/etc");
  for (auto& d : cfgd) { if (!ver.empty()) path.push_back(d + "/" + app + "/" + ver); path.push_back(d + "/" + app); }
  Strs data = {"/usr/local/share", "/usr/share"}; bool nonstd = !prefix.empty() && prefix != "/usr" && prefix != "/usr/local"; if (nonstd) data.push_back(prefix + "/share");
  for (auto& d : data) { if (!ver.empty()) path.push_back(d + "/" + app + "/" + ver + "/config"); path.push_back(d + "/" + app + "/config"); }
  if (nonstd) { path.push_back(prefix + "/share/config"); path.push_back(prefix + "/config"); }
  for (auto& d : path) { size_t k; while ((k = d.find("//")) != std::string::npos) d.erase(k, 1); }
  Strs incpath = path; path.push_back(".");
  // decoys that must not be searched
  Strs decoy = {"/etc/" + app + "/9.9", "/usr/share/" + app, "/usr/share/other/config", "/home/v/.config/" + app, "/config", "/usr/share/config", "/usr/config", "/kcp9", "/etc"};
  std::map<std::string, Map> at; std::set<std::string> skip, broken; int serial = 0; std::map<std::string, std::string> incl;
  auto place = [&](const std::string& d, bool real) {
    std::string f = d + "/" + name; if (at.count(f) || vfs::exists(f)) return; 
    switch (weighted({32, 4, 2, 1})) { case 3: { std::string t = pick(Strs{"!!!\n", "abc = 1\nblock x\n", "abc = 1\n= 2\n", "zed = 1\nendblock\n"}); vfs::put(f, t); broken.insert(f); at[f] = Map(); ev("%s %s: broken %s", real ? "candidate" : "decoy", f.c_str(), quote(t).c_str()); return; } case 1: vfs::mkdirs(f); skip.insert(f); return; case 2: vfs::put(f, "hidden_key = 1\n", 0); skip.insert(f); probe("unreadable_candidate"); return; }
    Map m; uint32_t n = 1 + choose(4); std::string t; for (uint32_t i = 0; i < n; ++i) { std::string k = pick(Strs{"abc", "blk:one", "blk:two", "zed"}), v = strf("v%d@%s", serial++, d.c_str()); t += k + " = " + v + "\n"; m[k] = v; }
    if (real && chance(250)) { t += "include common.inc\n"; incl[f] = "common.inc"; }
    vfs::put(f, t); at[f] = m; ev("%s %s: %s", real ? "candidate" : "decoy", f.c_str(), quote(t, 300).c_str()); };
  for (auto& d : path) if (chance(250)) place(d == "." ? "/cwd" : d, true);
  for (auto& d : decoy) if (chance(250) && std::find(path.begin(), path.end(), d) == path.end()) place(d, false);
  // shared include files
  for (auto& d : incpath) if (chance(150)) { std::string f = d + "/common.inc"; if (!vfs::exists(f)) { vfs::put(f, strf("inc_key = from %s\n", d.c_str())); ev("include %s", f.c_str()); } }
  bool merge = chance(600);
  // an absolute name is read as it is, from nowhere else
  if (chance(100)) { Strs c; for (auto& a : at) c.push_back(a.first); for (auto& f : skip) c.push_back(f); c.push_back("/none/" + name); name = pick(c); merge = chance(500); path = Strs{""}; probe("absolute_name"); }
  bool absolute = name[0] == '/';
  // expectation
  Map want; bool found = false, fail = false, badfile = false;
  std::set<std::string> dirs_done;
  for (auto& d : path) {
    std::string f = absolute ? name : (d == "." ? "/cwd" : d) + "/" + name; if (skip.count(f) || !at.count(f)) continue;
    if (broken.count(f)) { fail = badfile = true; probe("unparsable_candidate"); break; }
    Map m = at[f]; if (incl.count(f)) { std::string hit; for (auto& s : incpath) if (vfs::exists(s + "/common.inc")) { hit = s; break; } if (hit.empty() && vfs::exists(dirname_of(f) + "/common.inc")) hit = dirname_of(f); if (hit.empty()) { fail = true; break; } m["inc_key"] = "from " + hit; probe("include_in_standard_location"); }
    for (auto& kv : m) want.insert(kv); found = true; if (!merge) break;
  }
  if (chance(200)) { vfs::F.eintr = 80; vfs::F.read_short = 300; vfs::F.budget = 4; }
  where("read_config_file (standard locations)"); bool threw = false; std::string err; kv::config_block_sptr c;
  ev("read %s app=%s ver=%s prefix=%s merge=%d", name.c_str(), app.c_str(), ver.c_str(), prefix.c_str(), merge);
  try { c = kv::read_config_file(name, app, ver, prefix, merge); }
  catch (kv::config_file_not_found_exception const& x) { threw = true; err = x.what(); }
  catch (kv::config_block_exception const& x) { threw = true; err = x.what(); REQUIRE(badfile, "wrong-exception-type", "standard-location read raised: %s", x.what()); }
  catch (std::exception const& x) { violation("wrong-exception-type", "standard-location read raised: %s", x.what()); }
  ev("-> %s %s", threw ? "error" : "ok", err.c_str());
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open", vfs::open_fds());
  nontrivial();
  if (fail || !found) { REQUIRE(threw, "missing-file-accepted", "no readable candidate (or a missing include), or one that is reached cannot be parsed, yet the read succeeded with %s", show(contents(c)).c_str()); probe("nothing_found"); return; }
  REQUIRE(!threw, "found-file-rejected", "candidates exist but the read failed: %s", err.c_str());
  std::string d = diff(want, contents(c)); REQUIRE(d.empty(), merge ? "wrong-merge" : "wrong-file-chosen", "%s", d.c_str()); count(merge ? "merged_reads" : "first_match_reads");
}
// several reads in one process: nothing of the environment or the files of one may be remembered by the next
static void run_c04() { { Scope s; g_who.clear(); } uint32_t n = 1 + (chance(300) ? choose(3) : 0); for (uint32_t i = 0; i < n; ++i) { if (i) probe("read_again_elsewhere"); read_std(); } }
static sim::Reg r04("C04", run_c04);
