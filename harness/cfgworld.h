// Reference interpreter of the configuration file language and generator of multi-file worlds.
#pragma once
#include <sys/utsname.h>
#include <unistd.h>
#include "h.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_block_exception.h>
#include <vital/exceptions.h>
#include <vital/logger/logger.h>
using namespace h;
namespace kv = kwiver::vital;
typedef std::map<std::string, std::string> Map;
static Map contents(kv::config_block_sptr c) { Map m; for (auto const& k : c->available_values()) m[k] = c->get_value<std::string>(k); return m; }
static void clean_env() { for (const char* v : {"PATH", "CMAKE_FILE_PATH", "KWIVER_CONFIG_PATH", "XDG_CONFIG_HOME", "HOME"}) unsetenv(v); }
static std::string diff(const Map& want, const Map& got) {
  for (auto& kv : want) { auto it = got.find(kv.first); if (it == got.end()) return "missing key " + quote(kv.first) + " (expected " + quote(kv.second) + ")"; if (it->second != kv.second) return "key " + quote(kv.first) + " is " + quote(it->second) + ", expected " + quote(kv.second); }
  for (auto& kv : got) if (!want.count(kv.first)) return "unexpected key " + quote(kv.first) + " = " + quote(kv.second);
  return ""; }
// ------------------------------------------------------------------ reference interpreter of the file language
static std::string sysenv_value(const std::string& n) { struct utsname u; uname(&u); char h[1024]; gethostname(h, sizeof h); h[1023] = 0; return n == "cwd" ? vfs::cwd : n == "hostname" ? h : n == "osname" ? u.sysname : n == "osplatform" ? u.machine : n == "osversion" ? u.version : n == "isapple" ? "FALSE" : "TRUE"; }
struct Part { int kind; std::string a, b; };           // 0 text, 1 LOCAL, 2 ENV, 3 CONFIG, 4 unknown type, 5 SYSENV cwd
struct Stmt { int kind; std::string key; std::vector<Part> val; bool ro = false; std::string raw; int line = 0; };
enum { S_SET, S_LOCAL, S_BLOCK, S_END, S_INCLUDE, S_REL, S_BAD, S_NOISE };
struct File { std::string path; std::vector<Stmt> st; std::string text; };
struct Expect { bool fail = false; std::string why; Map m; std::map<std::string, std::pair<std::string, int>> loc; std::set<std::string> ro; };

struct World {
  std::map<std::string, File> files; Strs search; Map env; std::string main; int includes_done = 0, depth = 0; bool blocks_cross = false;
  // interpreter state
  Map cfg, sym; std::set<std::string> ro; std::map<std::string, std::pair<std::string, int>> loc; std::string ctx; std::vector<std::string> stack, inc; bool bad = false; std::string failure; int steps = 0; bool big = false;
  std::string expand(const std::vector<Part>& v) {
    std::string r; for (auto& p : v) switch (p.kind) { case 0: r += p.a; break; case 1: { auto i = sym.find(p.a); if (i != sym.end()) r += i->second; break; } case 2: { auto i = env.find(p.a); if (i != env.end()) r += i->second; break; } case 3: { auto i = cfg.find(p.a); if (i != cfg.end()) r += i->second; break; } case 4: r += "$" + p.b + "{" + p.a + "}"; break; case 5: r += sysenv_value(p.a); break; }
    if (r.size() > 2000) { big = true; r.resize(2000); } return r; }
  bool isfile(const std::string& p) { auto n = vfs::lookup(p); return n && n->type == vfs::FILE_; }
  std::string resolve(const std::string& n) {
    if (!n.empty() && n[0] == '/') return n;
    for (auto& d : search) { std::string p = d + "/" + n; if (isfile(p)) return normal(p, vfs::cwd); }
    for (size_t i = inc.size(); i-- > 0;) { std::string d = dirname_of(inc[i]); if (d.empty()) d = "."; std::string p = d + "/" + n; if (isfile(p)) return normal(p, vfs::cwd); }
    return ""; }
  bool run(const std::string& path, int lvl) {
    if (big || ++steps > 400) { big = true; return true; }
    if (lvl > 200 || !isfile(path)) { failure = "not found " + path; return false; }
    depth = std::max(depth, lvl); inc.push_back(path); const File& f = files[normal(path, vfs::cwd)];
    std::string dir = dirname_of(path); if (dir.empty()) dir = ".";
    for (auto& s : f.st) switch (s.kind) {
      case S_NOISE: break;
      case S_BAD: bad = true; break;
      case S_SET: case S_REL: {
        std::string k = ctx + s.key, v = expand(s.val); if (s.kind == S_REL) v = dir + "/" + v;
        if (ro.count(k)) { failure = "read-only " + k; return false; }
        cfg[k] = trim(v); loc[k] = std::make_pair(path, s.line); if (s.ro) ro.insert(k); break; }
      case S_LOCAL: sym[s.key] = expand(s.val); break;
      case S_BLOCK: stack.push_back(ctx); ctx += s.key + ":"; break;
      case S_END: if (stack.empty()) { failure = "endblock without block"; return false; } ctx = stack.back(); stack.pop_back(); break;
      case S_INCLUDE: { std::string r = resolve(expand(s.val)); if (r.empty()) { failure = "include not found"; return false; } ++includes_done; if (!run(r, lvl + 1)) return false; break; }
    }
    inc.pop_back(); return true; }
  // worlds whose values or include trees grow exponentially are dropped (resources, not correctness)
  Expect eval() { Scope sc; Expect e; bool r = run(main, 0); if (r && (bad || !stack.empty())) { r = false; failure = bad ? "syntax error" : "unclosed block"; } e.fail = !r; e.why = failure; e.m = cfg; e.loc = loc; e.ro = ro; if (big) { count("worlds_dropped_too_large"); end_run(); } return e; }
};
static std::string sp(bool force = false) { return pick(force ? Strs{" ", "  ", "\t", " \t "} : Strs{"", " ", "  ", "\t"}); }
static std::string render(const std::vector<Part>& v) { std::string r; for (auto& p : v) r += p.kind == 0 ? p.a : "$" + std::string(p.kind == 1 ? "LOCAL" : p.kind == 2 ? "ENV" : p.kind == 3 ? "CONFIG" : p.kind == 5 ? "SYSENV" : p.b) + "{" + p.a + "}"; return r; }

static const Strs KEYS = {"abc", "key_one", "a.b", "x:y", "k", "q2", "path/like", "dash-ed", "n23", "includeX", "MNxOPQ.rR", "Z0y-V_u", "HtG8", "Jj:Ww", "F"};
static const Strs BLOCKS = {"blk", "algo:sub", "b.1x"};
static std::vector<Part> gen_parts(bool macros) {
  std::vector<Part> v; uint32_t n = 1 + choose(3);
  for (uint32_t i = 0; i < n; ++i) {
    uint32_t k = macros ? weighted({5, 2, 2, 2, 1, 1}) : 0;
    if (k == 0) v.push_back({0, text(8, "abc 1.=[]/:-"), ""}); else if (k == 1) v.push_back({1, pick(Strs{"loc1", "loc2", "nope"}), ""}); else if (k == 2) v.push_back({2, pick(Strs{"SIM_E1", "SIM_E2", "SIM_UNSET"}), ""});
    else if (k == 3) v.push_back({3, (chance(300) ? pick(BLOCKS) + ":" : "") + pick(KEYS), ""}); else if (k == 4) v.push_back({4, pick(Strs{"x", "abc"}), pick(Strs{"BOGUS", "local", "Env"})}); else v.push_back({5, pick(Strs{"cwd", "cwd", "hostname", "osname", "osplatform", "osversion", "islinux", "is64bits", "isapple"}), ""}); }
  // regex names cannot contain '/' or '-'; such references stay literal
  for (auto& p : v) if (p.kind == 3 && p.a.find_first_of("/-") != std::string::npos) { p.kind = 0; p.a = "$CONFIG{" + p.a + "}"; }
  return v; }

// generate the files of a world; well=true: only well-formed programs that must succeed
static void gen_world(World& w, bool well, bool rich) {
  static const Strs dirs = {"/proj", "/proj/sub", "/inc1", "/inc2", "/other"};
  for (auto& d : dirs) vfs::mkdirs(d);
  vfs::cwd = pick(Strs{"/proj", "/other", "/"});
  uint32_t nf = 1 + choose(5); Strs names = {"main.conf", "one.conf", "two.conf", "sub/three.conf", "four.inc"};
  Strs paths; paths.push_back("/proj/main.conf");
  for (uint32_t i = 1; i < nf; ++i) paths.push_back(pick(dirs) + "/" + names[1 + choose(4)]);
  for (auto e : {"SIM_E1", "SIM_E2"}) if (chance(700)) { w.env[e] = pick(Strs{"env value", "", "x y", "/proj", "$LOCAL{loc1}"}); setenv(e, w.env[e].c_str(), 1); }
  for (auto d : {"/inc1", "/inc2", "/proj/sub"}) if (chance(500)) w.search.push_back(d);
  std::set<std::string> seen; std::vector<std::string> order; for (auto& p : paths) if (seen.insert(p).second) order.push_back(p);
  for (size_t fi = order.size(); fi-- > 0;) {
    File f; f.path = order[fi]; int line = 0, open = 0; uint32_t n = 1 + choose(rich ? 10 : 6); bool deep = rich && chance(40); if (deep) { n += 10 + choose(25); probe("deep_blocks"); } bool cross = !well && chance(120);
    auto emit = [&](const std::string& s) { f.text += s; ++line; f.text += chance(980) ? "\n" : "\r\n"; };
    for (uint32_t i = 0; i < n; ++i) {
      while (chance(150)) { emit(pick(Strs{"", "   ", "# comment key = value", "# abc = 1 # abc = 2", "\t# include nothing.conf", "#"})); }
      Stmt s; s.kind = weighted({8, 3, (uint32_t)(deep && i < n / 2 ? 30 : 2), (uint32_t)(deep && i > n / 2 ? 12 : 2), 4, 2, (uint32_t)(well ? 0 : 1)});
      std::string tail = chance(150) ? pick(Strs{" # trailing = comment", " # one # two", "#x", " ##", "\t#a = # b"}) : sp();
      if (s.kind == S_END && !open && !cross) s.kind = S_SET;
      if (s.kind == S_INCLUDE && fi + 1 >= order.size() && (well || chance(800))) s.kind = S_SET;
      std::string t = sp();
      switch (s.kind) {
        case S_SET: case S_REL: s.key = pick(KEYS); s.val = gen_parts(rich); s.ro = chance(60);
          if (s.kind == S_REL) t += "relativepath" + sp(true);
          t += s.key + sp(); if (s.ro) t += pick(Strs{"[RO]", "[ro]", "[Ro]"}) + sp(); t += "=" + sp() + render(s.val) + tail; break;
        case S_LOCAL: s.key = pick(Strs{"loc1", "loc2"}); s.val = gen_parts(rich); t += s.key + sp() + ":=" + sp() + render(s.val) + tail; break;
        case S_BLOCK: s.key = pick(BLOCKS); ++open; t += "block" + sp(true) + s.key + (chance(100) ? " ignored words" : "") + tail; break;
        case S_END: --open; t += "endblock" + (chance(100) ? std::string(" anything") : std::string()) + tail; break;
        case S_INCLUDE: {
          std::string target; uint32_t j = fi + 1 < order.size() ? fi + 1 + choose((uint32_t)(order.size() - fi - 1)) : 0;   // acyclic, except rarely
          if (!well && chance(40)) j = (uint32_t)fi;  // include cycle
          target = order[j]; std::string nm = target;
          if (chance(600)) { std::string base = target.substr(target.rfind('/') + 1); nm = target.compare(0, 6, "/proj/") == 0 && chance(500) ? target.substr(6) : base; if (well) { /* must resolve: fall back to the absolute name otherwise (checked below) */ } }
          if (!well && chance(60)) nm = "missing.conf";
          if (rich && chance(150) && nm.size() > 3) { s.val.push_back({0, "", ""}); }
          s.val.assign(1, Part{0, nm, ""}); if (rich && chance(120) && w.env.count("SIM_E1") && w.env["SIM_E1"] == "/proj" && nm[0] != '/') s.val = {Part{2, "SIM_E1", ""}, Part{0, "/" + nm, ""}};
          t += "include" + sp(true) + render(s.val) + tail; break; }
        case S_BAD: t += pick(Strs{"= novalue", "abc def", "9key = 1", "abc[XX] = 1", "block = 3", "relativepath = x", "!!!", "abc [RO", "::", "[RO] abc = 1", "[x", "[] = 2", "]a"}); break;
      }
      s.line = line + 1; s.raw = t; emit(t);
      // S_VALUE text can be altered by trimming and comments only: record what survives
      if (s.kind == S_SET || s.kind == S_REL || s.kind == S_LOCAL) {
        // leading/trailing blanks of the raw right-hand side are removed before expansion
        auto& v = s.val; while (!v.empty() && v.front().kind == 0) { size_t b = 0; while (b < v.front().a.size() && strchr(" \t", v.front().a[b])) ++b; v.front().a.erase(0, b); if (v.front().a.empty()) v.erase(v.begin()); else break; }
        while (!v.empty() && v.back().kind == 0) { while (!v.back().a.empty() && strchr(" \t", v.back().a.back())) v.back().a.pop_back(); if (v.back().a.empty()) v.pop_back(); else break; } }
      f.st.push_back(s);
    }
    if (!cross) while (open-- > 0) { Stmt s; s.kind = S_END; s.line = line + 1; emit("endblock"); f.st.push_back(s); }
    else w.blocks_cross = true;
    if (chance(200) && !f.text.empty() && f.text.back() == '\n') f.text.pop_back();   // no newline at end of file
    w.files[f.path] = f;
  }
  for (auto& kv : w.files) vfs::put(kv.first, kv.second.text);
  w.main = pick(Strs{"/proj/main.conf", "/proj/../proj/main.conf"}); if (vfs::cwd == "/proj" && chance(400)) w.main = pick(Strs{"main.conf", "./main.conf"});
  for (auto& kv : w.files) ev("file %s: %s", kv.first.c_str(), quote(kv.second.text, 500).c_str());
  ev("main %s cwd %s search [%s] env %s", w.main.c_str(), vfs::cwd.c_str(), join(w.search).c_str(), show(w.env).c_str());
}

static void compare(const Expect& e, kv::config_block_sptr c, const char* sig) {
  Map got = contents(c); std::string d = diff(e.m, got); REQUIRE(d.empty(), sig, "%s", d.c_str());
  for (auto& l : e.loc) { std::string f; int ln = -1; bool has = c->get_location(l.first, f, ln); REQUIRE(has && ln == l.second.second && normal(f, vfs::cwd) == normal(l.second.first, vfs::cwd), "wrong-location", "entry %s was defined at %s:%d but is reported at %s:%d", l.first.c_str(), l.second.first.c_str(), l.second.second, f.c_str(), ln); }
  for (auto& k : e.m) REQUIRE(c->is_read_only(k.first) == (e.ro.count(k.first) != 0), "wrong-read-only", "entry %s read-only=%d, expected %d", k.first.c_str(), (int)c->is_read_only(k.first), (int)e.ro.count(k.first));
}

