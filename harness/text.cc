// kwiversys text helpers: regular expressions, environment, digests and encodings, command lines.
#include "h.h"
#include <kwiversys/RegularExpression.hxx>
#include <kwiversys/SystemTools.hxx>
#include <kwiversys/CommandLineArguments.hxx>
#include <kwiversys/MD5.h>
#include <sys/mman.h>
#include <unistd.h>
#include <kwiversys/Base64.h>
#include <functional>
#include <memory>
#include <iostream>
#include <cmath>
#include <cstdarg>
#include <cstdio>
// complaints of the compiler of expressions go nowhere; messages of the engine are printed
extern "C" int puts(const char* s) { return sim::g_depth ? fprintf(stdout, "%s\n", s) : 0; }
extern "C" int printf(const char* f, ...) { if (!sim::g_depth) return 0; va_list a; va_start(a, f); int r = vfprintf(stdout, f, a); va_end(a); return r; }
extern "C" char** environ;
namespace {
using namespace h; typedef kwiversys::RegularExpression RE; typedef kwiversys::SystemTools ST; typedef kwiversys::CommandLineArguments CLA;
struct Null : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } } g_null;
bool attempt(bool may_fail, const std::function<void()>& fn, uint32_t depth = 5) {
  bool oom = may_fail && chance(200), ok = true; if (oom) alloc_arm(1 + choose(depth));
  try { Unscope u; fn(); } catch (std::bad_alloc const&) { ok = false; }
  if (oom) { bool f = alloc_fired(); if (f) fault("alloc"); alloc_disarm(); REQUIRE(ok || f, "unexpected-exception", "bad_alloc without a failed allocation"); return ok; }
  REQUIRE(ok, "unexpected-exception", "bad_alloc without a failed allocation"); return true; }

// ------------------------------------------------------------------ C45: reference of the documented expressions
struct Node; typedef std::shared_ptr<Node> N; typedef std::vector<N> Seq;
struct Node { char kind; std::set<unsigned char> set; std::vector<Seq> alts; int group = 0; char rep = 0; };   // kinds: ^ $ . [ ( ; rep: 0 * + ?
struct Parser {
  std::string s; size_t i = 0; int groups = 0; bool bad = false; const char* why = "";
  unsigned char at(size_t k) { return k < s.size() ? (unsigned char)s[k] : 0; } bool err(const char* w) { if (!bad) why = w; bad = true; return false; }
  static bool mult(char c) { return c == '*' || c == '+' || c == '?'; }
  bool alts(std::vector<Seq>& out, bool& width) { width = true; for (;;) { Seq q; bool w = false; while (i < s.size() && s[i] != '|' && s[i] != ')') { N n = std::make_shared<Node>(); bool pw; if (!piece(*n, pw)) return false; w = w || pw; q.push_back(n); } out.push_back(q); width = width && w; if (i < s.size() && s[i] == '|') { ++i; continue; } return true; } }
  bool piece(Node& n, bool& width) { if (!atom(n, width)) return false; if (i < s.size() && mult(s[i])) { char r = s[i]; if (r != '?' && !width) return err("empty operand"); n.rep = r; width = r == '+'; ++i; if (i < s.size() && mult(s[i])) return err("nested"); } return true; }
  bool atom(Node& n, bool& width) {
    unsigned char c = at(i++); width = true;
    switch (c) {
      case '^': case '$': n.kind = (char)c; width = false; return true; case '.': n.kind = '.'; return true;
      case '(': { if (++groups > 9) return err("too many groups"); n.kind = '('; n.group = groups; if (!alts(n.alts, width)) return false; if (at(i) != ')') return err("unmatched ("); ++i; return true; }
      case '*': case '+': case '?': return err("nothing to repeat");
      case '\\': if (i >= s.size()) return err("trailing backslash"); n.kind = '['; n.set.insert(at(i++)); return true;
      case '[': { bool neg = false; n.kind = '['; std::set<unsigned char> m; if (at(i) == '^') { neg = true; ++i; } unsigned char prev = 0; bool first = true; while (i < s.size() && (s[i] != ']' || first)) { unsigned char d = at(i); if (d == '-' && !first && i + 1 < s.size() && s[i + 1] != ']') { unsigned char e = at(i + 1); if ((int)prev + 1 > (int)e + 1) return err("bad range"); for (int x = prev; x <= e; ++x) m.insert((unsigned char)x); prev = e; i += 2; } else { m.insert(d); prev = d; ++i; } first = false; }
        if (at(i) != ']') return err("unmatched ["); ++i; if (neg) { for (int x = 1; x < 256; ++x) if (!m.count((unsigned char)x)) n.set.insert((unsigned char)x); } else n.set = m; return true; }
      default: n.kind = '['; n.set.insert(c); return true; } }
  bool parse(std::vector<Seq>& out) { bool w; if (!alts(out, w)) return false; if (i < s.size()) return err("unmatched )"); return true; } };
struct Matcher {
  const std::string& t; std::vector<std::pair<int, int>> cap; uint64_t steps = 0; bool cut = false; explicit Matcher(const std::string& x) : t(x), cap(10, std::make_pair(-1, -1)) {}
  typedef std::function<bool(size_t)> K;
  bool alts(const std::vector<Seq>& a, size_t p, const K& k) { for (auto& q : a) if (seq(q, 0, p, k)) return true; return false; }
  bool once(const Node& n, size_t p, const K& k) {
    if (++steps > 60000) { cut = true; return false; }
    switch (n.kind) { case '^': return p == 0 && k(p); case '$': return p == t.size() && k(p); case '.': return p < t.size() && k(p + 1); case '[': return p < t.size() && n.set.count((unsigned char)t[p]) && k(p + 1);
      default: { return alts(n.alts, p, [&](size_t e) { if (!k(e)) return false; if (cap[n.group].first < 0) cap[n.group] = std::make_pair((int)p, (int)e); return true; }); } } }
  bool many(const Node& n, size_t p, uint32_t done, const K& k) { if (cut) return false; if (once(n, p, [&](size_t e) { return e > p && many(n, e, done + 1, k); })) return true; if (cut) return false; return done >= (n.rep == '+' ? 1u : 0u) && k(p); }
  bool seq(const Seq& q, size_t j, size_t p, const K& k) {
    if (cut) return false; if (j == q.size()) return k(p); const Node& n = *q[j]; K rest = [&, j](size_t e) { return seq(q, j + 1, e, k); };
    if (!n.rep) return once(n, p, rest); if (n.rep == '?') return once(n, p, rest) || rest(p); return many(n, p, 0, rest); }
  // leftmost match; start and end of all groups
  bool find(const std::vector<Seq>& a) { for (size_t p = 0; p <= t.size(); ++p) { int end = -1; if (alts(a, p, [&](size_t e) { end = (int)e; return true; })) { cap[0] = std::make_pair((int)p, end); return true; } if (cut) return false; } return false; } };
std::string gen_re(uint32_t depth, uint32_t& groups) {
  std::string r; uint32_t n = weighted({1, 4, 4, 3, 2});
  for (uint32_t i = 0; i < n; ++i) {
    bool rep = true; switch (weighted({6, 2, 2, depth ? 2u : 0u, 1, 1, 1})) {
      case 0: r += text(3, "abcd"); if (r.empty() || Parser::mult(r.back())) r += 'a'; break; case 1: r += '.'; break;
      case 2: if (chance(250)) { static const char* X = "abcdz019-^]\n\t\x7f\x80\x81\xe0\xe9\xfe\xff"; uint32_t xn = (uint32_t)strlen(X); r += "["; if (chance(200)) r += "^"; uint32_t k = range(1, 4); while (k--) { r += X[choose(xn)]; if (chance(400)) { char lo = X[choose(xn)], hi = chance(150) ? lo : X[choose(xn)]; if ((unsigned char)lo > (unsigned char)hi && !chance(30)) std::swap(lo, hi); r += lo; r += "-"; r += hi; } } r += "]"; probe("generated_class"); break; } r += pick(Strs{"[ab]", "[^a]", "[a-c]", "[]a]", "[^]x]", "[-b]", "[b-]", "[a-c1-3_]", "[\x80-\xff]", "[^a-z]", "[+*.]"}); break;
      case 3: { std::string g = "("; ++groups; uint32_t k = range(1, 3); for (uint32_t j = 0; j < k; ++j) g += (j ? "|" : "") + gen_re(depth - 1, groups); r += g + ")"; break; }
      case 4: r += pick(Strs{"\\.", "\\*", "\\\\", "\\(", "\\a", "\xe9"}); break; case 5: r += chance(500) ? "^" : "$"; rep = chance(30); break; default: if (chance(300)) r += "\\"; r += pick(Strs{"]", "-", "{", "=", "_"}); break; }
    if (rep && chance(300)) r += pick(Strs{"*", "+", "?"}); }
  return r; }
struct Pat { std::string text; bool ok; std::vector<Seq> prog; int groups; };
Pat make_pat() {
  Pat p; uint32_t g = 0; if (chance(120)) p.text = text(8, "ab()[]*+?|^$.\\-"); else { if (chance(100)) p.text += "^"; p.text += gen_re(2, g); if (chance(250)) p.text += "|" + gen_re(1, g); if (chance(100)) p.text += "$"; }
  if (chance(15)) p.text += std::string(40000, 'a') + "*";
  if (chance(25)) { p.text.clear(); uint32_t k = range(5, 9); bool alt = chance(400); for (uint32_t i = 0; i < k; ++i) { if (i && (alt || chance(100))) p.text += "|"; p.text += "(" + pick(Strs{"a", "b", "c", "d", "ab", "[a-c]", "a*"}) + ")"; if (!alt && chance(600)) p.text += "?"; } probe("many_groups"); }
  if (chance(6)) { p.text = chance(300) ? "(" : ""; bool par = !p.text.empty(); uint32_t k = range(60, 150), cut = range(1, k); for (uint32_t i = 0; i < k; ++i) { if (i == cut && chance(500)) p.text += "|"; p.text += chance(500) ? "[\x01-\xff]" : "[^a]"; if (chance(100)) p.text += "?"; } if (par) p.text += ")*b"; probe("large_program"); } if (chance(20)) for (int i = 0; i < 9; ++i) p.text += "(a)?"; Parser q; q.s = p.text; p.ok = q.parse(p.prog); p.groups = q.groups; if (!p.ok) p.prog.clear(); return p; }
struct Obj { RE* re; bool valid; Pat pat; bool found; const std::string* subject; Matcher* m; };   // m: expected groups of the last successful search
std::vector<Obj> objs; std::vector<std::string*> subjects;
struct Want { bool found, cut; std::vector<std::pair<int, int>> cap; };
Want expect(const Pat& p, const std::string& t) { Matcher m(t); Want w; w.found = m.find(p.prog); w.cut = m.cut; w.cap = m.cap; return w; }
std::string subject(const Pat& p) { switch (chance(60) ? 4 : chance(60) ? 5 : choose(4)) { case 4: { std::string r, u = text(3, "abc") + (chance(300) ? "\n" : "a"); uint32_t n = 20 + choose(chance(200) ? 1500 : 300); while (r.size() < n) r += u; probe("long_subject"); return r + text(3, "abdx"); } case 5: return text(9, "ab\n\t^$\xff\x7f\x81"); case 0: return text(8, "abcd"); case 1: return text(14, "aab.x*"); case 2: return text(10, "abc\xe9\x80]-(1_={"); default: { std::string r; for (char c : p.text.substr(0, 20)) if (!strchr("()[]*+?|^$\\", c) || chance(100)) { if (!chance(100)) r += c; if (chance(150)) r += c; } return text(3, "abx") + r + text(3, "abx"); } } }
void check_groups(RE* re, const std::string& t, const Pat& p, const Want& w, const char* who) {
  size_t s, e; { Unscope u; s = re->start(); e = re->end(); } REQUIRE((int)s == w.cap[0].first && (int)e == w.cap[0].second, "wrong-match", "%s: expression %s in %s matches %zu to %zu instead of %d to %d", who, quote(p.text).c_str(), quote(t).c_str(), s, e, w.cap[0].first, w.cap[0].second);
  for (int i = 0; i <= 9; ++i) { std::string* g; size_t gs = 0, ge = 0; { Unscope u; g = new std::string(re->match(i)); if (w.cap[i].first >= 0) { gs = re->start(i); ge = re->end(i); } } std::string want = w.cap[i].first < 0 ? "" : t.substr((size_t)w.cap[i].first, (size_t)(w.cap[i].second - w.cap[i].first)); std::string got(g->data(), g->size()); { Unscope u; delete g; }
    REQUIRE(got == want && (w.cap[i].first < 0 || ((int)gs == w.cap[i].first && (int)ge == w.cap[i].second)), "wrong-group", "%s: group %d of expression %s in %s is %s instead of %s", who, i, quote(p.text).c_str(), quote(t).c_str(), quote(got).c_str(), quote(want).c_str()); if (i && w.cap[i].first >= 0) count("groups"); } }
void search(RE* re, const Pat& p, bool valid, const std::string& t, const char* who, Want* out = nullptr) {
  Want w; w.found = w.cut = false; w.cap.assign(10, std::make_pair(-1, -1)); if (valid) w = expect(p, t); if (w.cut) { probe("reference_gave_up"); if (out) *out = w; return; } bool got, tail = !t.empty() && chance(150); if (tail) { std::string tt = t.substr(1); tail = valid && !expect(p, tt).cut; if (tail) probe("searched_from_within"); } where("find of expression %s in %s", quote(p.text).c_str(), quote(t).c_str()); std::string* c; { Unscope u; c = new std::string(t.data(), t.size()); if (tail) re->find(c->c_str() + 1); got = chance(500) ? re->find(c->c_str()) : re->find(*c); }
  REQUIRE(got == w.found, "wrong-find", "%s: expression %s in %s: find reports %d", who, quote(p.text).c_str(), quote(t).c_str(), (int)got); Want* o = out; if (got) { check_groups(re, *c, p, w, who); count("matches"); if (valid) nontrivial(); } if (o) *o = w; if (o && got) subjects.push_back(c); else { Unscope u; delete c; } count("searches"); }
void regex_history() {
  bool oom = chance(400); uint32_t n = range(4, 20);
  struct O { RE* re; bool valid; Pat pat; bool found; Want want; std::string* sub; }; std::vector<O> v; subjects.clear();
  auto settle = [&](O& o, const Pat& old, bool oldvalid, const char* what) { bool iv; { Unscope u; iv = o.re->is_valid(); } REQUIRE(!iv || oldvalid, "valid-after-failure", "%s leaves a valid expression where there was none", what); o.pat = old; o.valid = iv; o.found = false; };
  for (uint32_t q = 0; q < n; ++q) {
    uint32_t op = v.empty() ? 0 : weighted({2, 3, 8, 2, 3, 1, 1, 1}); size_t x = v.empty() ? 0 : choose((uint32_t)v.size());
    switch (op) {
      case 0: { if (v.size() > 4) break; Pat p = make_pat(); O o; o.re = nullptr; o.found = false; o.sub = nullptr; uint32_t how = choose(4); ev("new %u %s", how, quote(p.text, 60).c_str()); where("construction of expression %s", quote(p.text).c_str()); std::string* t; { Unscope u; t = new std::string(p.text.data(), p.text.size()); } bool ok = attempt(oom, [&]() { o.re = how == 3 ? new RE() : how == 2 ? new RE((const char*)nullptr) : how ? new RE(*t) : new RE(t->c_str()); }); { Unscope u; delete t; } if (!ok) break; o.pat = p; o.valid = how < 2 && p.ok; bool iv; { Unscope u; iv = o.re->is_valid(); } if (p.text.size() > 1000) { o.valid = iv; probe("huge_expression"); } REQUIRE(iv == o.valid, "wrong-validity", "expression %s is_valid() is %d", quote(p.text).c_str(), (int)iv); v.push_back(o); break; }
      case 1: { O& o = v[x]; Pat p = make_pat(), old = o.pat; bool ov = o.valid, r = false; bool null = chance(30); ev("compile %s", quote(p.text, 60).c_str()); where("compile of %s", quote(p.text).c_str()); std::string* t; { Unscope u; t = new std::string(p.text.data(), p.text.size()); } bool ok = attempt(oom, [&]() { r = null ? o.re->compile((const char*)nullptr) : chance(500) ? o.re->compile(*t) : o.re->compile(t->c_str()); }); { Unscope u; delete t; } if (!ok) { settle(o, old, ov, "running out of memory while compiling"); probe("oom_compiling"); break; }
        bool want = p.ok && !null; if (want && p.text.size() > 1000 && !r) want = false; REQUIRE(r == want, "wrong-compile", "compile of %s reports %d", quote(p.text).c_str(), (int)r); if (r) { o.pat = p; o.valid = true; o.found = false; bool iv; { Unscope u; iv = o.re->is_valid(); } REQUIRE(iv, "wrong-validity", "expression %s is not valid after compile", quote(p.text).c_str()); } else { settle(o, old, ov, "a failed compile"); count("rejected"); } break; }
      case 2: { O& o = v[x]; std::string t = subject(o.pat); ev("find %s", quote(t).c_str()); Want w; search(o.re, o.pat, o.valid, t, "find", &w); o.found = w.found && !w.cut; o.want = w; o.sub = o.found ? subjects.back() : nullptr; break; }
      case 3: { if (v.size() > 4) break; O& o = v[x]; O c = o; ev("copy"); where("copy of an expression"); if (!attempt(oom, [&]() { c.re = new RE(*o.re); })) break; bool iv; { Unscope u; iv = c.re->is_valid(); } REQUIRE(iv == o.valid, "wrong-validity", "a copy is_valid() is %d", (int)iv); if (o.valid) { bool eq, ne, de; { Unscope u; eq = *c.re == *o.re; ne = *c.re != *o.re; de = c.re->deep_equal(*o.re); } REQUIRE(eq && !ne && de, "copy-differs", "a copy of %s does not compare equal", quote(o.pat.text).c_str()); } if (c.found) { check_groups(c.re, *c.sub, c.pat, c.want, "a copy of a matched expression"); probe("copied_match"); } v.push_back(c); count("copies"); break; }
      case 4: { size_t y = choose((uint32_t)v.size()); O &o = v[x], &d = v[y]; Pat old = d.pat; bool ov = d.valid; ev("assign %zu to %zu", x, y); where("assignment of an expression"); if (!attempt(oom, [&]() { *d.re = *o.re; })) { settle(d, old, ov, "a failed assignment"); probe("oom_assigning"); break; } if (x != y) { RE* re = d.re; d = o; d.re = re; } bool iv; { Unscope u; iv = d.re->is_valid(); } REQUIRE(iv == d.valid, "wrong-validity", "after an assignment is_valid() is %d", (int)iv); if (d.found) check_groups(d.re, *d.sub, d.pat, d.want, "an assigned expression"); count("assignments"); break; }
      case 5: { O& o = v[x]; ev("set_invalid"); { Unscope u; o.re->set_invalid(); } o.valid = o.found = false; break; }
      case 6: { size_t y = choose((uint32_t)v.size()); O &o = v[x], &d = v[y]; bool eq, ne; where("comparison of expressions"); { Unscope u; eq = *o.re == *d.re; ne = *o.re != *d.re; } REQUIRE(eq != ne && (x != y || eq), "wrong-comparison", "== gives %d and != %d", (int)eq, (int)ne); if (o.valid && d.valid) { REQUIRE(eq || o.pat.text != d.pat.text, "wrong-comparison", "two expressions %s compare different", quote(o.pat.text).c_str()); if (eq && o.pat.text != d.pat.text) for (int i = 0; i < 3; ++i) { std::string t = subject(o.pat); Want a = expect(o.pat, t), b = expect(d.pat, t); REQUIRE(a.cut || b.cut || (a.found == b.found && a.cap == b.cap), "wrong-comparison", "expressions %s and %s compare equal", quote(o.pat.text).c_str(), quote(d.pat.text).c_str()); } } else REQUIRE(x == y || !eq || o.valid == d.valid, "wrong-comparison", "a valid and an invalid expression compare equal"); break; }
      default: { RE* re = v[x].re; v.erase(v.begin() + (long)x); ev("destroy"); { Unscope u; delete re; } break; } }
    for (auto& o : v) if (o.found && chance(100)) check_groups(o.re, *o.sub, o.pat, o.want, "an earlier search"); }
  for (auto& o : v) { Unscope u; delete o.re; } for (auto s : subjects) { Unscope u; delete s; } subjects.clear(); }
void regex_threads() {
  g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{5, 30, 200})); uint32_t nt = range(2, 3); Pat shared; do shared = make_pat(); while (!shared.ok || shared.text.size() > 1000); RE* base; { Unscope u; base = new RE(shared.text); }
  for (uint32_t t = 0; t < nt; ++t) { std::vector<Pat> ps; std::vector<std::string> ts; uint32_t k = range(1, 3); for (uint32_t i = 0; i < k; ++i) { Pat p = chance(300) ? shared : make_pat(); if (p.text.size() > 1000) p = shared; ps.push_back(p); std::string sj = subject(p); if (sj.size() > 100) sj.resize(100); ts.push_back(sj); } spawn([=]() { Scope s; for (size_t i = 0; i < ps.size(); ++i) { RE* re; bool copy = ps[i].text == shared.text; { Unscope u; if (copy) re = new RE(*base); else { re = new RE(); re->compile(ps[i].text.c_str()); } } search(re, ps[i], ps[i].ok, ts[i], "one of several threads"); { Unscope u; delete re; } } }); }
  where("%u threads with regular expressions", nt); { Unscope u; run_all(); delete base; } count("threaded_runs"); }
void run_c45() { vfs::reset(); uint64_t live = alloc_live(), seq = alloc_seq(); Scope s; if (chance(200)) regex_threads(); else regex_history(); alloc_check_all(); REQUIRE(alloc_live() == live, "memory-leak", "%lld blocks left: %s", (long long)(alloc_live() - live), alloc_list(seq).c_str()); }
Reg r45("C45", run_c45);

// ------------------------------------------------------------------ C44
std::string env_name(bool many = false) { if (many && chance(700)) return strf("SIM_V%u", choose(60)); return pick(Strs{"SIM_A", "SIM_B", "SIM_AB", "SIM_", "SIM_LONG_NAME_OF_A_VARIABLE_THAT_DOES_NOT_FIT_A_SMALL_BUFFER", "SIM_A1", "sim_a"}); }
void run_c44() {
  vfs::reset(); Scope s; std::map<std::string, std::string> m; bool oom = chance(500), many = chance(80); uint32_t n = range(3, 25); if (many) { n = range(40, 160); probe("many_variables"); } auto others = [&]() { std::multiset<std::string> r; for (char** e = environ; e && *e; ++e) if (strncmp(*e, "SIM_", 4) && strncmp(*e, "sim_a=", 6)) r.insert(*e); return r; };
  for (auto& k : Strs{"SIM_A", "SIM_B"}) if (chance(300)) { std::string v = text(6, "abc"); setenv(k.c_str(), v.c_str(), 1); m[k] = v; } std::multiset<std::string> before = others();
  for (uint32_t q = 0; q < n; ++q) {
    std::string k = env_name(many), v = chance(150) ? "" : chance(200) ? "x=y" : chance(60) ? std::string(5000, 'p') : text(12, "ab =:/"); bool r = false;
    switch (weighted({5, 2, 2, 4, 2, 3})) {
      case 0: { std::string e = k + "=" + v; std::string old = m.count(k) ? m[k] : ""; bool had = m.count(k); ev("put %s", quote(e, 60).c_str()); where("PutEnv(%s)", quote(e, 60).c_str()); bool ok = attempt(oom, [&]() { r = ST::PutEnv(e); }); uint64_t fired = !ok || !r; if (fired) { REQUIRE(oom, "put-failed", "PutEnv(%s) fails", quote(e, 60).c_str()); const char* now = getenv(k.c_str()); REQUIRE(had ? now && old == now : !now, "half-put", "a failed PutEnv(%s) changed the variable", quote(e, 60).c_str()); break; } m[k] = v; if (had) count("replaced"); nontrivial(); break; }
      case 1: { ev("unput %s", k.c_str()); where("UnPutEnv(%s)", k.c_str()); std::string e = chance(300) ? k + "=" + v : k; if (!attempt(oom, [&]() { r = ST::UnPutEnv(e); })) break; REQUIRE(r, "unput-failed", "UnPutEnv(%s) fails", quote(e, 60).c_str()); if (m.erase(k)) count("removed"); nontrivial(); break; }
      case 2: { ev("put name %s", k.c_str()); where("PutEnv(%s)", k.c_str()); if (!attempt(oom, [&]() { r = ST::PutEnv(k); })) break; REQUIRE(r, "unput-failed", "PutEnv(%s) fails", k.c_str()); m.erase(k); nontrivial(); break; }
      case 3: { std::string* out; const char* c; bool f; { Unscope u; out = new std::string("before"); c = chance(500) ? ST::GetEnv(k) : ST::GetEnv(k.c_str()); f = chance(500) ? ST::GetEnv(k, *out) : ST::GetEnv(k.c_str(), *out); } std::string o(out->data(), out->size()); { Unscope u; delete out; } bool has = m.count(k); REQUIRE(f == has && (c != nullptr) == has, "wrong-presence", "GetEnv(%s) finds it %d %d", k.c_str(), (int)f, (int)(c != nullptr)); REQUIRE(o == (has ? m[k] : "before") && (!c || m[k] == c), "wrong-value", "GetEnv(%s) gives %s", k.c_str(), quote(o).c_str()); break; }
      case 4: { bool bad = chance(500); if (bad) { std::string e = "=" + v; bool ok = attempt(false, [&]() { r = ST::PutEnv(e); }); REQUIRE(ok && !r, "empty-name", "PutEnv(%s) succeeds", quote(e).c_str()); } break; }
      default: { // a list of directories
        std::vector<std::string> want, ent; std::string val; uint32_t c = choose(6); if (chance(30)) { c = range(20, 150); probe("long_list"); } for (uint32_t i = 0; i < c; ++i) { std::string e = chance(30) ? "/" + std::string(range(100, 1500), 'd') : pick(Strs{"win\\dir\\x", "/usr/bin", "", "bin", "/a b/c", "/", "/x/", "//y//z", "."}); val += (i ? ":" : "") + e; ent.push_back(e); } bool def = chance(300); std::string key = def ? "PATH" : k; std::string* sv = nullptr; const char* oldp = getenv("PATH"); std::string keep = oldp ? oldp : ""; bool unset = chance(150);
        if (unset) unsetenv(key.c_str()); else setenv(key.c_str(), val.c_str(), 1); if (!def) { if (unset) m.erase(k); else m[k] = val; }
        if (!unset && !val.empty()) { if (val.back() == ':') ent.pop_back(); for (auto& e : ent) { std::string o; for (char ch : e) if (ch == '\\') ch = '/', o += ch; else if (ch != '/' || o.empty() || o.back() != '/') o += ch; if (o.size() > 1 && o.back() == '/') o.pop_back(); want.push_back(o); } }
        ev("path %s", quote(val).c_str()); where("GetPath of %s", quote(val).c_str()); Strs had; uint32_t nh = chance(100) ? choose(40) : choose(4); for (uint32_t i = 0; i < nh; ++i) had.push_back(pick(Strs{"kept/", "a\\b", "//x//", "", "/usr/bin", "c:\\"})); std::vector<std::string>* out; { Unscope u; out = new std::vector<std::string>(); for (auto& e : had) out->push_back(std::string(e.data(), e.size())); } bool ok = attempt(oom, [&]() { if (def) ST::GetPath(*out); else ST::GetPath(*out, k.c_str()); }); std::vector<std::string> got; for (auto& e : *out) got.push_back(std::string(e.data(), e.size())); { Unscope u; delete out; } if (def) { if (oldp || !keep.empty()) setenv("PATH", keep.c_str(), 1); else unsetenv("PATH"); }
        if (ok) { REQUIRE(got.size() >= had.size() && std::equal(had.begin(), had.end(), got.begin()), "lost-entry", "GetPath changed the %zu entries already present", had.size()); got.erase(got.begin(), got.begin() + (long)had.size()); if (got != want) { std::string a, b; for (auto& e : got) a += quote(e) + " "; for (auto& e : want) b += quote(e) + " "; violation("wrong-path", "GetPath of %s gives %sinstead of %s", quote(val).c_str(), a.c_str(), b.c_str()); } nontrivial(); count("paths"); } (void)sv; break; } }
    for (auto& x : m) { const char* c = getenv(x.first.c_str()); REQUIRE(c && x.second == c, "wrong-environment", "%s is %s instead of %s", x.first.c_str(), c ? quote(c, 60).c_str() : "unset", quote(x.second, 60).c_str()); }
    size_t mine = 0; for (char** e = environ; e && *e; ++e) mine += !strncmp(*e, "SIM_", 4) || !strncmp(*e, "sim_a=", 6); REQUIRE(mine == m.size(), "wrong-environment", "%zu variables set instead of %zu", mine, m.size()); REQUIRE(others() == before, "other-variable", "another variable of the environment changed"); }
  alloc_check_all();
}
Reg r44("C44", run_c44);

// ------------------------------------------------------------------ C46: reference MD5 (RFC 1321) and Base64 (RFC 4648)
std::string md5_ref(const std::string& in) {
  static const uint32_t sh[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}}; uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; std::string m = in; m += (char)0x80; while (m.size() % 64 != 56) m += '\0'; uint64_t bits = (uint64_t)in.size() * 8; for (int i = 0; i < 8; ++i) m += (char)(bits >> (8 * i));
  for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[16]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 0; j < 4; ++j) w[i] |= (uint32_t)(unsigned char)m[o + (size_t)(4 * i + j)] << (8 * j); } uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) { uint32_t f; int g; if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; } uint32_t k = (uint32_t)(long long)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0), t = a + f + k + w[g]; a = d; d = c; c = b; uint32_t r = sh[i / 16][i % 4]; b = b + ((t << r) | (t >> (32 - r))); }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; }
  std::string r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r += (char)(h[i] >> (8 * j)); return r; }
std::string hex_ref(const std::string& d) { std::string r; for (unsigned char c : d) r += strf("%02x", c); return r; }
std::string b64_ref(const std::string& in) { static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < in.size(); i += 3) { size_t n = std::min<size_t>(3, in.size() - i); uint32_t v = 0; for (size_t j = 0; j < 3; ++j) v = v << 8 | (j < n ? (unsigned char)in[i + j] : 0); for (size_t j = 0; j < 4; ++j) r += j <= n ? T[(v >> (18 - 6 * j)) & 63] : '='; } return r; }
std::string blob(uint32_t max) { uint32_t n = chance(300) ? pick(std::vector<uint32_t>{0, 1, 2, 3, 55, 56, 57, 63, 64, 65, 119, 120, 128}) : choose(max + 1); std::string r; uint32_t mode = choose(3); for (uint32_t i = 0; i < n; ++i) r += mode == 0 ? (char)(i * 7 + n) : mode == 1 ? (char)choose(256) : (char)(1 + (i * 13) % 255); return r; }
struct Bytes { unsigned char* p; size_t n; explicit Bytes(const std::string& s) : n(s.size()) { { Unscope u; p = (unsigned char*)malloc(n ? n : 1); } if (n) memcpy(p, s.data(), n); } explicit Bytes(size_t k) : n(k) { { Unscope u; p = (unsigned char*)malloc(k ? k : 1); } memset(p, 0x55, k); } ~Bytes() { Unscope u; free(p); } std::string str() const { return std::string((char*)p, n); } };
void digest(const char* who) {   // several digests whose pieces arrive interleaved
  struct D { kwiversysMD5* m; std::string all; }; std::vector<D> ds; uint32_t n = range(1, 3); for (uint32_t i = 0; i < n; ++i) { D d; { Unscope u; d.m = kwiversysMD5_New(); if (d.m) kwiversysMD5_Initialize(d.m); } REQUIRE(d.m, "no-digest", "MD5_New fails"); ds.push_back(d); }
  uint32_t steps = range(1, 12); for (uint32_t q = 0; q < steps; ++q) { D& d = ds[choose(n)]; std::string b = blob(chance(50) ? 3000 : 150); if (chance(4)) { b.assign(range(60000, 200000), (char)('a' + choose(20))); for (size_t z = 0; z < b.size(); z += 97) b[z] = (char)z; probe("large_piece"); }
    switch (weighted({6, 2, 1})) { case 0: { Bytes x(b); ev("append %zu", b.size()); where("%s: MD5_Append of %zu bytes after %zu", who, b.size(), d.all.size()); { Unscope u; kwiversysMD5_Append(d.m, x.p, (int)x.n); } d.all += b; count("appends"); break; }
      case 1: { std::string z = b.substr(0, b.find('\0')); Bytes x(z + std::string(1, '\0')); ev("append string %zu", z.size()); { Unscope u; kwiversysMD5_Append(d.m, x.p, -1); } d.all += z; break; }
      default: { ev("restart"); { Unscope u; kwiversysMD5_Initialize(d.m); } d.all.clear(); break; } } }
  for (auto& d : ds) { std::string want = md5_ref(d.all); if (chance(500)) { Bytes o(16); { Unscope u; kwiversysMD5_Finalize(d.m, o.p); } REQUIRE(o.str() == want, "wrong-digest", "%s: MD5 of %zu bytes is %s instead of %s", who, d.all.size(), hex_ref(o.str()).c_str(), hex_ref(want).c_str()); Bytes x(32); { Unscope u; kwiversysMD5_DigestToHex(o.p, (char*)x.p); } REQUIRE(x.str() == hex_ref(want), "wrong-hex", "%s: digest %s shown as %s", who, hex_ref(want).c_str(), quote(x.str()).c_str()); }
    else { Bytes x(32); { Unscope u; kwiversysMD5_FinalizeHex(d.m, (char*)x.p); } REQUIRE(x.str() == hex_ref(want), "wrong-digest", "%s: MD5 of %zu bytes is %s instead of %s", who, d.all.size(), quote(x.str()).c_str(), hex_ref(want).c_str()); } count("digests");
    if (chance(200)) { std::string b = blob(150); Bytes x(b), o(16); { Unscope u; kwiversysMD5_Initialize(d.m); kwiversysMD5_Append(d.m, x.p, (int)x.n); kwiversysMD5_Finalize(d.m, o.p); } REQUIRE(o.str() == md5_ref(b), "wrong-digest", "%s: MD5 of %zu bytes in an object used before is %s", who, b.size(), hex_ref(o.str()).c_str()); probe("object_reused"); }
    { Unscope u; kwiversysMD5_Delete(d.m); } } nontrivial(); }
void base64(const char* who) {
  std::string in = blob(200); if (chance(10)) { in.assign(range(3000, 70000), 'q'); for (size_t z = 0; z < in.size(); z += 3) in[z] = (char)(z * 31 >> 3); probe("large_text"); } bool mark = chance(400); std::string want = b64_ref(in); if (mark && in.size() % 3 == 0) want += "===="; Bytes x(in), o(want.size()); size_t n; ev("base64 of %zu bytes%s", in.size(), mark ? " marked" : ""); where("%s: Base64_Encode of %zu bytes", who, in.size()); { Unscope u; n = kwiversysBase64_Encode(x.p, x.n, o.p, mark); } REQUIRE(n == want.size() && o.str() == want, "wrong-encoding", "%s: Base64 of %zu bytes is %s", who, in.size(), quote(o.str()).c_str());
  { // decoding to the known length, and to the end of the encoded text
    Bytes e(want), d(in.size()); where("%s: Base64_Decode of %zu characters to %zu bytes", who, want.size(), in.size()); size_t g; { Unscope u; g = kwiversysBase64_Decode(e.p, d.n, d.p, 0); } REQUIRE(g == in.size() && d.str() == in, "wrong-decoding", "%s: %zu bytes come back as %zu", who, in.size(), g);
    if (!want.empty()) { std::string tail = chance(300) ? blob(20) : ""; uint32_t cut = chance(200) ? choose((uint32_t)want.size()) : 0; std::string src = want.substr(0, want.size() - cut) + tail; size_t lim = want.size() - cut; if (lim) { Bytes e2(src), d2(want.size() / 4 * 3 + 3); where("%s: Base64_Decode of at most %zu characters", who, lim); { Unscope u; g = kwiversysBase64_Decode(e2.p, choose(5), d2.p, lim); } size_t expect = cut ? std::min(in.size(), lim / 4 * 3) : in.size(); REQUIRE(g == expect && d2.str().substr(0, g) == in.substr(0, g), "wrong-decoding", "%s: %zu bytes, encoded in %zu characters of which %zu may be read, come back as %zu", who, in.size(), want.size(), lim, g); } }
    if (!in.empty() && chance(400)) { // asking for fewer bytes, or for more than the text holds
      bool marked = want.size() > (in.size() + 2) / 3 * 4 || in.size() % 3; size_t ask = marked && chance(500) ? in.size() + 1 + choose(5) : choose((uint32_t)in.size() + 1), expect = std::min(ask, in.size()); std::string src = want.substr(0, ask <= in.size() ? (ask + 2) / 3 * 4 : want.size()); Bytes e2(src), d2(ask); where("%s: Base64_Decode of %zu characters that hold %zu bytes to %zu bytes", who, src.size(), in.size(), ask); { Unscope u; g = kwiversysBase64_Decode(e2.p, d2.n, d2.p, 0); } REQUIRE(g == expect && d2.str().substr(0, g) == in.substr(0, g), "wrong-decoding", "%s: asking for %zu of %zu bytes gives %zu", who, ask, in.size(), g); probe(ask > in.size() ? "asked_for_more" : "asked_for_fewer"); }
    if (!in.empty() && chance(200)) { // an end sign in the middle
      std::string bad = want; size_t at = choose((uint32_t)want.size()); bad[at] = '='; size_t expect = std::min(in.size(), at / 4 * 3 + std::vector<size_t>{0, 0, 1, 2}[at % 4]); bool lim = chance(400); Bytes e2(bad), d2(lim ? bad.size() / 4 * 3 : in.size()); where("%s: Base64_Decode of text with an end sign at %zu", who, at); { Unscope u; g = kwiversysBase64_Decode(e2.p, in.size(), d2.p, lim ? bad.size() : 0); } REQUIRE(g == expect && d2.str().substr(0, g) == in.substr(0, g), "wrong-decoding", "%s: text ended at character %zu of %zu gives %zu bytes instead of %zu", who, at, want.size(), g, expect); probe("ended_early"); }
    if (!in.empty() && chance(400)) { // damaged text: decoding stops at the first bad group
      std::string bad = want; size_t at = choose((uint32_t)want.size()); bad[at] = pick(std::vector<char>{'*', '\0', ' ', '\n', '-', '\x80'}); size_t before = at / 4 * 3; Bytes e2(bad), d2(in.size()); where("%s: Base64_Decode of damaged text", who); { Unscope u; g = kwiversysBase64_Decode(e2.p, d2.n, d2.p, 0); } REQUIRE(g == std::min(before, in.size()) && d2.str().substr(0, g) == in.substr(0, g), "wrong-decoding", "%s: text damaged at character %zu of %zu gives %zu bytes", who, at, want.size(), g); probe("damaged"); } }
  count("encodings"); nontrivial(); }
// messages too long for the instrumented copy: the same code compiled without instrumentation (md5_native.c), against
// digests computed elsewhere.  The pieces lie in one mebibyte of memory mapped again and again.
extern "C" { kwiversysMD5* native_MD5_New(void); void native_MD5_Delete(kwiversysMD5*); void native_MD5_Initialize(kwiversysMD5*); void native_MD5_Append(kwiversysMD5*, unsigned char const*, int); void native_MD5_FinalizeHex(kwiversysMD5*, char*); }
void huge_digest() {
  static const struct { uint64_t n; const char* hex; } T[] = {{536870911ull, "60af6deb333e3f03cbc3033465031c9f"}, {536870912ull, "aa33a77481e0419547ad84050b883274"}, {536871109ull, "46d9c0b97207244e26baac3cb7700dd8"}, {268435459ull, "b7d681deef1fdd4ae4b37df3b807dc84"}, {805306379ull, "92232f611001c90a206d8946ca5f241b"}, {1073741894ull, "4bbf05a6c7d6611009eb81b0df738ccc"}};
  const size_t M = 1 << 20, MAPS = 1040; auto& t = T[choose(sizeof T / sizeof *T)]; int fd = memfd_create("md5", 0); if (fd < 0 || ftruncate(fd, M)) return; unsigned char* p = (unsigned char*)mmap(nullptr, M * MAPS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { close(fd); return; }
  for (size_t i = 0; i < MAPS; ++i) if (mmap(p + i * M, M, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(p, M * MAPS); close(fd); return; }
  for (size_t i = 0; i < M; ++i) p[i] = (unsigned char)((((uint64_t)i * i * 7 + i * 3) >> 2 ^ (i >> 9)) & 255);
  kwiversysMD5* m; { Unscope u; m = native_MD5_New(); native_MD5_Initialize(m); } uint64_t at = 0; uint32_t big = choose(3);
  while (at < t.n) { uint64_t k = big == 0 ? t.n : big == 1 ? 1 + choose(900u << 20) : 1 + choose(40u << 20); if (k > t.n - at) k = t.n - at; if (k > (M * (MAPS - 1))) k = M * (MAPS - 1); ev("append %llu of %llu", (unsigned long long)k, (unsigned long long)t.n); where("MD5_Append of %llu bytes after %llu", (unsigned long long)k, (unsigned long long)at); { Unscope u; native_MD5_Append(m, p + at % M, (int)k); } at += k; }
  char hex[33] = ""; { Unscope u; native_MD5_FinalizeHex(m, hex); native_MD5_Delete(m); } REQUIRE(std::string(hex, 32) == t.hex, "wrong-digest", "MD5 of %llu bytes is %.32s instead of %s", (unsigned long long)t.n, hex, t.hex); munmap(p, M * MAPS); close(fd); probe("huge_digest"); nontrivial(); }
void run_c46() {
  vfs::reset(); uint64_t live = alloc_live(), seq = alloc_seq(); Scope s;
  if (choose(3000) == 7) { huge_digest(); return; }
  if (chance(150)) { g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{5, 30, 200})); uint32_t nt = range(2, 3); for (uint32_t t = 0; t < nt; ++t) { bool d = chance(700); spawn([d]() { Scope s2; if (d) digest("one of several threads"); else base64("one of several threads"); }); } where("%u threads with digests", nt); { Unscope u; run_all(); } count("threaded_runs"); }
  else { uint32_t n = range(1, 3); while (n--) { if (chance(600)) digest("digest"); else base64("base64"); } if (chance(200)) { kwiversysMD5* m; { Unscope u; alloc_arm(1); m = kwiversysMD5_New(); bool f = alloc_fired(); alloc_disarm(); Scope s3; REQUIRE(!f || !m, "no-failure", "MD5_New succeeds without memory"); if (f) fault("alloc"); Unscope u2; kwiversysMD5_Delete(m); } } }
  alloc_check_all(); REQUIRE(alloc_live() == live, "memory-leak", "%lld blocks left: %s", (long long)(alloc_live() - live), alloc_list(seq).c_str());
}
Reg r46("C46", run_c46);

// ------------------------------------------------------------------ C47
enum VT { V_BOOL, V_INT, V_DOUBLE, V_CHAR, V_STR, W_BOOL, W_INT, W_DOUBLE, W_CHAR, W_STR, V_CALL, V_LAST };
struct Opt { std::string name; int type; int vt; std::string help; bool* b; int* i; double* d; char** c; std::string* s; std::vector<bool>* vb; std::vector<int>* vi; std::vector<double>* vd; std::vector<char*>* vc; std::vector<std::string>* vs; Strs want; bool set; int fail_at; int calls; char* cname; char* chelp; };
struct Call { std::string arg, val; bool null; size_t opt; }; std::vector<Call>* g_calls; std::vector<Call>* g_wantcalls; std::vector<Opt*>* g_opts; Strs* g_unknown; int g_unknown_ret;
int on_opt(const char* a, const char* v, void* data) { Scope s; Opt* o = (Opt*)data; size_t x = 0; while (x < g_opts->size() && (*g_opts)[x] != o) ++x; REQUIRE(x < g_opts->size(), "wrong-callback", "a callback got foreign data"); Call c; c.arg = a; c.null = !v; c.val = v ? v : ""; c.opt = x; g_calls->push_back(c); return ++o->calls != o->fail_at; }
int on_unknown(const char* a, void* data) { Scope s; REQUIRE(data == (void*)&g_unknown, "wrong-callback", "the handler of unknown arguments got foreign data"); g_unknown->push_back(a); return g_unknown_ret; }
char* cstr(const std::string& s) { Unscope u; char* p = (char*)malloc(s.size() + 1); { Scope z; memcpy(p, s.c_str(), s.size() + 1); } return p; }
bool truth(const std::string& v) { for (auto& t : Strs{"1", "ON", "on", "On", "TRUE", "true", "True", "yes", "Yes", "YES"}) if (v == t) return true; return false; }
std::string arg_word() { return pick(Strs{"1", "0", "on", "TRUE", "yes", "no", "42", "-7", "3.5", "1e3", "abc", "", "a b", "=", "x=y", "12abc", std::string(40, 'w'), "99999999999", "-", "--", "010", "0x1f", " 5", "08", "+3", "2147483647", "16777217", "-2147483648", "0.1", "value-number-1", "value-number-2", "value-number-3"}); }
struct Line { CLA* p; std::vector<Opt*> opts; Strs argv; std::string argv0; bool store; int unknown; size_t pos; Strs unused; };
bool matches(Line& l, const std::string& a, Opt** best) { *best = nullptr; for (auto o : l.opts) { bool m = o->type == CLA::NO_ARGUMENT || o->type == CLA::SPACE_ARGUMENT ? a == o->name : a.compare(0, o->name.size(), o->name) == 0; if (m && (!*best || o->name.size() > (*best)->name.size())) *best = o; } return *best; }
bool store(Line& l, Opt* o, const std::string& v, bool null) { if (o->vt == V_CALL) { Call c; c.arg = o->name; c.val = v; c.null = null; c.opt = (size_t)(std::find(l.opts.begin(), l.opts.end(), o) - l.opts.begin()); g_wantcalls->push_back(c); size_t n = 0; for (auto& k : *g_wantcalls) n += k.opt == c.opt; return (int)n + o->set * 0 != o->fail_at; } std::string w = null ? "1" : v; if (o->vt < W_BOOL) o->want.assign(1, w); else o->want.push_back(w); o->set = true; return true; }
// what parsing must do; first: index of the first argument that was not used
bool model(Line& l, size_t* rest, Strs* unk) {
  l.unused.clear(); *rest = 0;
  for (size_t i = 0; i < l.argv.size(); ++i) { const std::string& a = l.argv[i]; Opt* o; *rest = i;
    if (!matches(l, a, &o)) { if (l.unknown >= 0) { unk->push_back(a); if (!l.unknown) return false; *rest = i + 1; return true; } if (l.store) { l.unused.push_back(a); *rest = i + 1; continue; } return false; }
    switch (o->type) {
      case CLA::NO_ARGUMENT: if (!store(l, o, "", true)) return false; break;
      case CLA::SPACE_ARGUMENT: if (i + 1 == l.argv.size()) return false; if (!store(l, o, l.argv[i + 1], false)) return false; ++i; break;
      case CLA::EQUAL_ARGUMENT: if (a.size() == o->name.size() || a[o->name.size()] != '=') return false; if (!store(l, o, a.substr(o->name.size() + 1), false)) return false; break;
      case CLA::CONCAT_ARGUMENT: if (!store(l, o, a.substr(o->name.size()), false)) return false; break;
      default: while (i + 1 < l.argv.size()) { Opt* x; if (matches(l, l.argv[i + 1], &x)) break; if (!store(l, o, l.argv[i + 1], false)) return false; ++i; } break; }
    *rest = i + 1; }
  return true; }
void check_values(Line& l) {
  for (auto o : l.opts) { if (o->vt == V_CALL) continue; Strs got, want; const Strs& w = o->want; auto num = [](const std::string& s) { return strf("%d", (int)strtol(s.c_str(), nullptr, 10)); }; auto dbl = [](const std::string& s) { return strf("%.17g", strtod(s.c_str(), nullptr)); };
    for (auto& v : w) want.push_back(o->vt == V_BOOL || o->vt == W_BOOL ? (truth(v) ? "true" : "false") : o->vt == V_INT || o->vt == W_INT ? num(v) : o->vt == V_DOUBLE || o->vt == W_DOUBLE ? dbl(v) : v);
    switch (o->vt) { case V_BOOL: if (o->set) got.push_back(*o->b ? "true" : "false"); else if (!*o->b) got.push_back("changed"); break; case V_INT: if (o->set) got.push_back(strf("%d", *o->i)); else if (*o->i != 77) got.push_back("changed"); break; case V_DOUBLE: if (o->set) got.push_back(strf("%.17g", *o->d)); else if (*o->d != 7.5) got.push_back("changed"); break; case V_CHAR: if (*o->c) got.push_back(*o->c); break; case V_STR: if (o->set) got.push_back(std::string(o->s->data(), o->s->size())); else if (*o->s != "initial") got.push_back("changed"); break;
      case W_BOOL: for (bool x : *o->vb) got.push_back(x ? "true" : "false"); break; case W_INT: for (int x : *o->vi) got.push_back(strf("%d", x)); break; case W_DOUBLE: for (double x : *o->vd) got.push_back(strf("%.17g", x)); break; case W_CHAR: for (char* x : *o->vc) got.push_back(x); break; default: for (auto& x : *o->vs) got.push_back(std::string(x.data(), x.size())); break; }
    REQUIRE(got == want, "wrong-value", "%s (kind %d, variable %d) after %s: holds %s instead of %s", quote(o->name).c_str(), o->type, o->vt, quote(join(l.argv, " "), 200).c_str(), quote(join(got, "|"), 100).c_str(), quote(join(want, "|"), 100).c_str()); if (o->set) count("values", want.size()); } }
bool g_chain;
void add_opt(Line& l) {
  Opt* o = new Opt(); o->name = pick(Strs{"--a", "--ab", "--abc", "-x", "-I", "--list", "--list-all", "--name", "--name=", "-", "--long-option-name-for-the-help", "--option", "--option-long", "--option-longer", "--option-longer-still", "--q"}); if (chance(10)) o->name = "--" + std::string(80 + choose(60), 'n'); for (auto p : l.opts) if (p->name == o->name) { delete o; return; }
  o->type = (int)choose(5); o->vt = (int)choose(V_LAST); o->help = chance(30) ? "" : "help of " + o->name.substr(2 < o->name.size() ? 2 : 0); uint32_t w = choose(chance(300) ? 60 : 4); for (uint32_t i = 0; i < w; ++i) o->help += " " + text(9, "abcdef") + "z"; if (g_chain && !l.opts.empty() && chance(850)) { o->help = chance(850) ? l.opts.back()->name : pick(l.opts)->name; probe("alias"); } else if (chance(100)) { uint32_t k = choose((uint32_t)l.opts.size() + 2); o->help = k < l.opts.size() ? l.opts[k]->name : k == l.opts.size() ? o->name : "--list"; probe("alias"); } o->set = false; o->fail_at = o->vt == V_CALL && chance(200) ? (int)range(1, 3) : -1; o->calls = 0; o->cname = cstr(o->name); o->chelp = cstr(o->help);
  { Unscope u; o->b = new bool(true); o->i = new int(77); o->d = new double(7.5); o->c = new char*(nullptr); o->s = new std::string("initial"); o->vb = new std::vector<bool>(); o->vi = new std::vector<int>(); o->vd = new std::vector<double>(); o->vc = new std::vector<char*>(); o->vs = new std::vector<std::string>(); }
  CLA::ArgumentTypeEnum t = (CLA::ArgumentTypeEnum)o->type; bool boolean = o->vt < W_BOOL && chance(150); if (boolean) o->type = CLA::NO_ARGUMENT; ev("option %s type %d variable %d", quote(o->name, 40).c_str(), o->type, o->vt); where("adding option %s", quote(o->name, 160).c_str()); l.opts.push_back(o); Unscope u; CLA& p = *l.p; const char *n = o->cname, *h = o->chelp;
  if (boolean) switch (o->vt) { case V_BOOL: p.AddBooleanArgument(n, o->b, h); return; case V_INT: p.AddBooleanArgument(n, o->i, h); return; case V_DOUBLE: p.AddBooleanArgument(n, o->d, h); return; case V_CHAR: p.AddBooleanArgument(n, o->c, h); return; default: p.AddBooleanArgument(n, o->s, h); return; }
  switch (o->vt) { case V_BOOL: p.AddArgument(n, t, o->b, h); break; case V_INT: p.AddArgument(n, t, o->i, h); break; case V_DOUBLE: p.AddArgument(n, t, o->d, h); break; case V_CHAR: p.AddArgument(n, t, o->c, h); break; case V_STR: p.AddArgument(n, t, o->s, h); break; case W_BOOL: p.AddArgument(n, t, o->vb, h); break; case W_INT: p.AddArgument(n, t, o->vi, h); break; case W_DOUBLE: p.AddArgument(n, t, o->vd, h); break; case W_CHAR: p.AddArgument(n, t, o->vc, h); break; case W_STR: p.AddArgument(n, t, o->vs, h); break; default: p.AddCallback(n, t, on_opt, o, h); break; } }
void drop_opt(Opt* o) { { Unscope u; delete o->b; delete o->i; delete o->d; delete[] *o->c; delete o->c; delete o->s; delete o->vb; delete o->vi; delete o->vd; for (char* x : *o->vc) delete[] x; delete o->vc; delete o->vs; free(o->cname); free(o->chelp); } delete o; }
void gen_argv(Line& l) {
  l.argv.clear(); uint32_t n = choose(9); for (uint32_t i = 0; i < n; ++i) { if (l.opts.empty() || chance(150)) { l.argv.push_back(chance(600) ? arg_word() : pick(Strs{"--unknown", "file.txt", "-z", "--nam"})); continue; } Opt* o = pick(l.opts); std::string a = o->name; if (o->type == CLA::EQUAL_ARGUMENT && !chance(80)) a += "=" + arg_word(); if (o->type == CLA::CONCAT_ARGUMENT) a += arg_word(); l.argv.push_back(a); if (o->type == CLA::SPACE_ARGUMENT && !chance(50)) l.argv.push_back(chance(100) ? pick(l.opts)->name : arg_word()); if (o->type == CLA::MULTI_ARGUMENT) { uint32_t k = choose(4); while (k--) l.argv.push_back(arg_word()); } } }
void check_list(Line& l, int argc, char** argv, const Strs& want, const char* what) { Strs got; for (int i = 0; i < argc; ++i) got.push_back(argv[i]); Strs w(1, l.argv0); w.insert(w.end(), want.begin(), want.end()); { Unscope u; l.p->DeleteRemainingArguments(argc, &argv); } REQUIRE(got == w, "wrong-list", "%s after %s: %s instead of %s", what, quote(join(l.argv, " "), 200).c_str(), quote(join(got, " "), 150).c_str(), quote(join(w, " "), 150).c_str()); count("lists"); }
void check_help(Line& l, uint32_t width) {
  std::string h; { Unscope u; const char* p = l.p->GetHelp(); Scope s; h = p; } for (auto o : l.opts) { REQUIRE(h.find(o->name) != std::string::npos, "help-incomplete", "the help does not name %s", quote(o->name).c_str()); bool alias = false; for (auto q : l.opts) alias = alias || q->name == o->help; const char* g; { Unscope u; g = l.p->GetHelp(o->cname); } if (alias) { REQUIRE(g, "wrong-help", "no help for %s", quote(o->name).c_str()); Opt* p = o; size_t hops = 0; for (; hops <= l.opts.size(); ++hops) { Opt* n = nullptr; for (auto q : l.opts) if (q->name == p->help) n = q; if (!n) break; p = n; } REQUIRE(hops > l.opts.size() || p->help == g, "wrong-help", "help of %s, which refers to %s, is %s", quote(o->name).c_str(), quote(p->name).c_str(), quote(g, 60).c_str()); if (hops > 3 && hops <= l.opts.size()) probe("long_alias_chain"); continue; } REQUIRE(g && o->help == g, "wrong-help", "help of %s is %s", quote(o->name).c_str(), g ? quote(g, 60).c_str() : "missing"); auto squeeze = [](const std::string& x) { std::string r; for (char c : x) if (!isspace((unsigned char)c)) r += c; return r; }; REQUIRE(squeeze(h).find(squeeze(o->help)) != std::string::npos, "help-incomplete", "the help lacks the text of %s (width %u)", quote(o->name).c_str(), width); } const char* g; { Unscope u; g = l.p->GetHelp("--no-such-option"); } REQUIRE(!g, "wrong-help", "help for an option that does not exist"); count("helps"); }
void run_c47() {
  vfs::reset(); Scope s; static std::streambuf* old; old = std::cerr.rdbuf(&g_null); uint64_t live = alloc_live(), seq = alloc_seq(); Line l; std::vector<Call> calls, wantcalls; Strs unknown, wantunknown; g_calls = &calls; g_wantcalls = &wantcalls; g_unknown = &unknown; { Unscope u; l.p = new CLA(); } l.store = false; l.unknown = -1; uint32_t width = 80; bool parsed = false;
  g_chain = chance(60); uint32_t no = g_chain || chance(150) ? range(5, 14) : range(1, 6); for (uint32_t i = 0; i < no; ++i) add_opt(l); g_opts = &l.opts; bool cyc = false; for (auto o : l.opts) { Opt* p = o; for (size_t k = 0; p && k <= l.opts.size(); ++k) { Opt* n = nullptr; for (auto q : l.opts) if (q->name == p->help) n = q; p = n; } if (p) cyc = true; } bool oom = chance(300); if (cyc) probe("help_names_itself");
  uint32_t rounds = range(1, 3); for (uint32_t r = 0; r < rounds; ++r) {
    if (chance(200)) { l.store = chance(700); Unscope u; l.p->StoreUnusedArguments(l.store); } if (chance(150)) { l.unknown = (int)choose(2); g_unknown_ret = l.unknown; Unscope u; l.p->SetUnknownArgumentCallback(on_unknown); l.p->SetClientData((void*)&g_unknown); } if (chance(200)) { uint32_t w = chance(100) ? choose(12) : range(9, 120); if (w >= 9) width = w; ev("width %u", w); where("SetLineLength(%u)", w); Unscope u; l.p->SetLineLength(w); } if (r && chance(200)) add_opt(l);
    gen_argv(l); ev("argv %s", quote(join(l.argv, " "), 160).c_str()); bool full = chance(600); bool ok;
    if (full) { l.argv0 = pick(Strs{"prog", "/usr/bin/tool", ""}); std::vector<char*> av; av.push_back(cstr(l.argv0)); for (auto& a : l.argv) av.push_back(cstr(a)); std::vector<char*> copy = av; ok = attempt(oom, [&]() { if (chance(500)) l.p->Initialize((int)av.size(), &av[0]); else l.p->Initialize((int)av.size(), (const char* const*)&av[0]); }, 30); for (char* c : copy) { memset(c, '#', strlen(c)); Unscope u; free(c); } }
    else ok = attempt(oom, [&]() { l.p->Initialize(); for (auto& a : l.argv) l.p->ProcessArgument(a.c_str()); }, 30);
    if (!ok) { probe("oom_initialising"); break; }
    calls.clear(); wantcalls.clear(); unknown.clear(); wantunknown.clear(); for (auto o : l.opts) o->calls = 0; int got = -1; where("parsing %s", quote(join(l.argv, " "), 200).c_str()); if (!attempt(oom, [&]() { got = l.p->Parse(); }, 30)) { probe("oom_parsing"); break; }
    size_t rest; bool want = model(l, &rest, &wantunknown); parsed = true; REQUIRE(got == (int)want, "wrong-result", "parsing %s reports %d", quote(join(l.argv, " "), 200).c_str(), got);
    REQUIRE(unknown == wantunknown, "wrong-unknown", "parsing %s: the handler was given %s instead of %s", quote(join(l.argv, " "), 200).c_str(), quote(join(unknown)).c_str(), quote(join(wantunknown)).c_str()); bool same = calls.size() == wantcalls.size(); for (size_t i = 0; same && i < calls.size(); ++i) same = calls[i].arg == wantcalls[i].arg && calls[i].val == wantcalls[i].val && calls[i].opt == wantcalls[i].opt && (calls[i].null == wantcalls[i].null || calls[i].val == "1"); REQUIRE(same, "wrong-callbacks", "parsing %s: %zu callbacks instead of %zu", quote(join(l.argv, " "), 200).c_str(), calls.size(), wantcalls.size());
    check_values(l); int argc = 0; char** av = nullptr; const char* a0; { Unscope u; a0 = l.p->GetArgv0(); } REQUIRE(l.argv0 == a0, "wrong-program", "GetArgv0() is %s", quote(a0).c_str()); if (l.store && l.unknown < 0) { { Unscope u; l.p->GetUnusedArguments(&argc, &av); } check_list(l, argc, av, l.unused, "unused arguments"); }
    { unsigned la; { Unscope u; la = l.p->GetLastArgument(); l.p->GetRemainingArguments(&argc, &av); } if (!l.argv.empty()) { check_list(l, argc, av, Strs(l.argv.begin() + (long)rest, l.argv.end()), "remaining arguments"); REQUIRE(la == rest, "wrong-last", "GetLastArgument() after %s is %u instead of %zu", quote(join(l.argv, " "), 200).c_str(), la, rest); } else { Unscope u; l.p->DeleteRemainingArguments(argc, &av); } }
    if (chance(400)) check_help(l, width); if (want && !l.argv.empty()) nontrivial(); count(want ? "accepted" : "refused"); }
  (void)parsed; { Unscope u; delete l.p; } for (auto o : l.opts) drop_opt(o); alloc_check_all(); std::cerr.rdbuf(old); REQUIRE(alloc_live() == live, "memory-leak", "%lld blocks left: %s", (long long)(alloc_live() - live), alloc_list(seq).c_str());
}
Reg r47("C47", run_c47);
}
