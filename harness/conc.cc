// Several threads: configuration reading, logging, logger creation.
#include "cfgworld.h"
#include "dl.h"
#include <vital/logger/kwiver_logger.h>
#include <vital/logger/kwiver_logger_factory.h>
#include <vital/logger/kwiver_logger_manager.h>
#include <vital/logger/location_info.h>
#include <iostream>
#include <mutex>
#include <ctime>
namespace sim { extern void (*g_clock_hook)(int which); }
namespace {
// ------------------------------------------------------------------ captured std::cerr
struct Capture : public std::streambuf {
  std::string out; std::streambuf* old; bool slow;
  explicit Capture(bool s) : slow(s) { old = std::cerr.rdbuf(this); }
  ~Capture() { std::cerr.rdbuf(old); }
  void piece(const char* p, size_t n) { Scope s; out.append(p, n); }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    std::streamsize i = 0; while (i < n) { std::streamsize k = n - i; if (slow && k > 1) { Scope s; if (chance(300)) k = 1 + choose((uint32_t)k); } piece(p + i, (size_t)k); i += k; sim::yield("cerr"); } return n; }
  int overflow(int c) override { if (c != EOF) { char b = (char)c; piece(&b, 1); sim::yield("cerr"); } return 0; }
  int sync() override { sim::yield("cerr sync"); return 0; }
};
Strs split_lines(const std::string& s) { Strs r; std::string c; for (char ch : s) if (ch == '\n') { r.push_back(c); c.clear(); } else c += ch; if (!c.empty()) r.push_back(c + "<no newline>"); return r; }

// ------------------------------------------------------------------ C06
void run_c06() {
  vfs::reset(); clean_env(); if (chance(500)) kv::get_logger("warm");
  World w; gen_world(w, true, true); vfs::mkdirs("/work");
  Strs mains; { Scope s; for (auto& f : w.files) mains.push_back(f.first); mains.push_back(w.main); }
  std::vector<Expect> exp; for (auto& m : mains) { World r = w; r.main = m; exp.push_back(r.eval()); }
  auto shared = kv::config_block::empty_config("shared"); Map sh; uint32_t ns = 1 + choose(6);
  for (uint32_t i = 0; i < ns; ++i) { std::string k = pick(Strs{"a:b", "a:c", "d", "e:f:g", "_global:z"}); shared->set_value(k, strf("%u", i * 7), "descr"); sh[k] = strf("%u", i * 7); }
  uint32_t nt = 2 + choose(3); g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{300, 60, 2000, 10000})); vfs::F.fd_per_thread = true;
  if (chance(300)) { vfs::F.eintr = 60; vfs::F.read_short = 300; vfs::F.budget = 6; }
  std::vector<std::vector<uint32_t>> plan(nt); for (auto& p : plan) { uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; ++i) p.push_back((weighted({5, 2, 3, 2}) << 8) | choose((uint32_t)mains.size())); }
  for (uint32_t t = 0; t < nt; ++t) { auto const* P = &plan[t]; spawn([=, &mains, &exp, &w, &sh, &shared]() {
    for (size_t q = 0; q < P->size(); ++q) {
      uint32_t op = (*P)[q] >> 8, mi = (*P)[q] & 255;
      if (op == 0) {
        const Expect& e = exp[mi]; std::string m = mains[mi]; { Scope s; ev("t%u read %s", t, m.c_str()); } kv::config_block_sptr c; bool threw = false; std::string err;
        try { c = kv::read_config_file(m, w.search); } catch (kv::config_block_exception const& x) { threw = true; Scope s; err = x.what(); }
        REQUIRE(threw == e.fail, threw ? "good-file-rejected" : "bad-file-accepted", "thread %u reading %s while others read: %s", t, m.c_str(), err.c_str());
        if (!threw) { Map got = contents(c); Scope s; std::string d = diff(e.m, got); REQUIRE(d.empty(), "wrong-configuration", "thread %u reading %s while others read: %s", t, m.c_str(), d.c_str()); count("concurrent_reads"); }
      } else if (op == 1) {
        auto c = kv::config_block::empty_config("w"); std::string path = strf("/work/t%u_%zu.conf", t, q); Map want; { Scope s; for (uint32_t i = 0; i < 3; ++i) want[strf("key%u:t%u", i, t)] = strf("value %u of %u", i, t); ev("t%u write %s", t, path.c_str()); }
        for (auto& e : want) c->set_value(e.first, e.second, std::string("description of the entry"));
        kv::write_config_file(c, path); Map got = contents(kv::read_config_file(path));
        Scope s; std::string d = diff(want, got); REQUIRE(d.empty(), "roundtrip-mismatch", "thread %u writing and reading its own file: %s", t, d.c_str()); count("concurrent_writes");
      } else if (op == 2) {
        Map got = contents(shared); { Scope s; std::string d = diff(sh, got); REQUIRE(d.empty(), "wrong-configuration", "thread %u reading a shared block: %s", t, d.c_str()); }
        auto sub = shared->subblock("a"); for (auto& e : sh) { std::string dd = shared->get_description(e.first); int iv = shared->get_value<int>(e.first); REQUIRE(dd == "descr" && iv == atoi(e.second.c_str()) && !shared->is_read_only(e.first), "wrong-value", "shared block entry %s", e.first.c_str()); if (e.first.compare(0, 2, "a:") == 0) REQUIRE(sub->has_value(e.first.substr(2)), "missing-key", "copy of shared block lacks %s", e.first.c_str()); }
        count("shared_block_reads");
      } else {
        auto c = kv::config_block::empty_config(); auto v = c->subblock_view("v"); v->set_value("x", (int)t); v->set_value("flag", true); REQUIRE(c->get_value<int>("v:x") == (int)t && v->get_value<bool>("flag"), "wrong-value", "private block of thread %u", t); c->merge_config(shared); REQUIRE(c->available_values().size() == sh.size() + 2, "missing-key", "merge of a shared block into a private one");
      }
    } }); }
  where("%u threads on configurations", nt); run_all(); nontrivial();
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%d descriptors left open", vfs::open_fds());
}
sim::Reg r06("C06", run_c06);

// ------------------------------------------------------------------ C07 / C09 log messages
struct Msg { int level; std::string text; bool loc; int line; bool direct; uint32_t logger; Strs lines; bool enabled; std::vector<int64_t> stamps; bool done = false; };
const char* LN[] = {"", "", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
std::vector<std::vector<Msg>>* plan_; int curmsg[16]; 
int64_t real_ms() { int64_t v = g_now_ns + g_real_off_ns; return v >= 0 ? v / 1000000 : -((-v + 999999) / 1000000); }
uint32_t jump_rate = 0;
void clock_hook(int) {
  g_now_ns += choose(3) == 0 ? (int64_t)choose(400000) * 1000 : (int64_t)choose(2000);
  if (jump_rate && chance(jump_rate)) { fault("clock_jump"); int64_t d = (int64_t)choose(7200) * 1000000000ll; g_real_off_ns += chance(500) ? -d : d; }
  if (plan_) for (size_t t = 0; t < plan_->size(); ++t) if (curmsg[t] >= 0) (*plan_)[t][curmsg[t]].stamps.push_back(real_ms());
}
std::string stamp_text(int64_t ms) { time_t t = ms / 1000; struct tm b; gmtime_r(&t, &b); char x[64]; strftime(x, sizeof x, "%Y-%m-%d %H:%M:%S", &b); return std::string(x) + strf(".%03d", (int)(ms % 1000)); }
// the source file of a message: now and then one with a very long name
std::string base_of(int line) { return line % 23 == 7 ? std::string(100 + line % 400, (char)('a' + line % 26)) + ".cxx" : "file.cxx"; }
std::string file_of(int line) { return (line % 5 ? "/some/dir/" : "") + base_of(line); }
void log_one(kv::logger_handle_t const& lg, Msg& m) {
  typedef kv::kwiver_logger K; std::string* fl; { Scope s; fl = new std::string(file_of(m.line)); } struct Del { std::string* p; ~Del() { Scope s; delete p; } } del{fl}; kv::logger_ns::location_info li(fl->c_str(), "void f()", m.line);
  if (m.direct) { if (m.loc) lg->log_message((K::log_level_t)m.level, m.text, li); else lg->log_message((K::log_level_t)m.level, m.text); return; }
  switch (m.level) {
    case K::LEVEL_TRACE: m.loc ? lg->log_trace(m.text, li) : lg->log_trace(m.text); break;
    case K::LEVEL_DEBUG: m.loc ? lg->log_debug(m.text, li) : lg->log_debug(m.text); break;
    case K::LEVEL_INFO: m.loc ? lg->log_info(m.text, li) : lg->log_info(m.text); break;
    case K::LEVEL_WARN: m.loc ? lg->log_warn(m.text, li) : lg->log_warn(m.text); break;
    case K::LEVEL_ERROR: m.loc ? lg->log_error(m.text, li) : lg->log_error(m.text); break;
    default: m.loc ? lg->log_fatal(m.text, li) : lg->log_fatal(m.text); break; } }
void log_run(bool times) {
  vfs::reset(); clean_env(); { Capture c(false); kv::get_logger("warm"); }
  uint32_t nt = times ? 1 + choose(3) : 2 + choose(3), nl = 1 + choose(3); std::vector<kv::logger_handle_t> lg; std::vector<int> lev; Strs names = {"log.a", "log.b", "x"};
  for (uint32_t i = 0; i < nl; ++i) { lg.push_back(kv::get_logger(names[i])); lev.push_back(chance(600) ? 2 : 1 + (int)choose(7)); if (lev[i] != 2 || chance(300)) lg[i]->set_level((kv::kwiver_logger::log_level_t)lev[i]); REQUIRE(lg[i]->get_level() == lev[i], "wrong-level", "level of %s", names[i].c_str());
    auto const& L = *lg[i]; int l = lev[i]; REQUIRE(L.is_trace_enabled() == (l <= 2) && L.is_debug_enabled() == (l <= 3) && L.is_info_enabled() == (l <= 4) && L.is_warn_enabled() == (l <= 5) && L.is_error_enabled() == (l <= 6) && L.is_fatal_enabled() == (l <= 7), "wrong-enabled", "enabled levels of a logger at level %d", l); }
  std::vector<std::vector<Msg>> P(nt); size_t total = 0;
  for (uint32_t t = 0; t < nt; ++t) { uint32_t n = 1 + choose(times ? 3 : 4); for (uint32_t i = 0; i < n; ++i) {
      Msg m; m.level = 2 + (int)choose(6); m.loc = chance(400); m.line = 1 + (int)choose(2000); m.direct = chance(150); m.logger = choose(nl); m.enabled = m.direct || m.level >= lev[m.logger];
      uint32_t k = weighted({3, 3, 1}); if (k == 2) { m.text = pick(Strs{"", "\n", "\n\n"}); for (size_t q = 0; q < m.text.size(); ++q) m.lines.push_back(""); }
      else { uint32_t L = 1 + (k == 1 ? choose(4) : 0); if (k == 1 && chance(20)) { L = 60 + choose(60); probe("many_lines"); } for (uint32_t q = 0; q < L; ++q) { std::string ln = strf("T%uM%uL%u ", t, i, q) + text(chance(50) ? 400 : 20, "abc %s{}:.!"); if (chance(12)) { ln += std::string(3000 + choose(3000), 'm'); probe("long_line"); } if (k == 1 && chance(30)) ln = pick(Strs{"\r", " ", "\t", "\r\r"}); if (k == 1 && chance(150)) ln = ""; m.lines.push_back(ln); m.text += (q ? "\n" : "") + ln; } if (m.lines.back().empty()) m.lines.pop_back(); else if (chance(200)) m.text += "\n"; }
      ev("t%u m%u %s logger %u %s", t, i, LN[m.level], m.logger, quote(m.text, 200).c_str()); P[t].push_back(m); if (m.enabled) total += m.lines.size(); } }
  if (times) { g_real_off_ns += (int64_t)choose(3000000) * 1000000007ll; jump_rate = chance(500) ? 150 : 0; for (int i = 0; i < 16; ++i) curmsg[i] = -1; plan_ = &P; g_clock_hook = clock_hook; g_clock_hook(0); }
  std::string out;
  { Capture cap(true); g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{120, 25, 700}));
    for (uint32_t t = 0; t < nt; ++t) spawn([t, &P, &lg, times]() { for (size_t i = 0; i < P[t].size(); ++i) { if (times) { Scope s; curmsg[t] = (int)i; P[t][i].stamps.push_back(real_ms()); } log_one(lg[P[t][i].logger], P[t][i]); { Scope s; P[t][i].done = true; if (times) { curmsg[t] = -1; } } } });
    where("%u threads logging", nt); run_all(); out = cap.out; }
  g_clock_hook = nullptr; plan_ = nullptr;
  ev("output: %s", quote(out, 1500).c_str());
  Strs L = split_lines(out);
  struct Line { bool ok; std::string st, lv, rest; }; std::vector<Line> PL;
  for (auto& l : L) { Line p; p.ok = l.size() >= 25; static const char* pat = "dddd-dd-dd dd:dd:dd.ddd "; for (size_t k = 0; p.ok && pat[k]; ++k) if (pat[k] == 'd' ? !isdigit((unsigned char)l[k]) : l[k] != pat[k]) p.ok = false; size_t q = p.ok ? l.find(' ', 24) : std::string::npos; if (q == std::string::npos) p.ok = false; if (p.ok) { p.st = l.substr(0, 23); p.lv = l.substr(24, q - 24); p.rest = l.substr(q + 1); } PL.push_back(p); }
  for (size_t i = 0; i < L.size(); ++i) REQUIRE(PL[i].ok, "mangled-line", "output line %zu is not a log line: %s", i, quote(L[i]).c_str());
  // the messages that must appear, per thread; blank lines can make the assignment of lines to threads ambiguous, hence a search
  std::vector<std::vector<Msg*>> Q(nt); for (uint32_t t = 0; t < nt; ++t) for (auto& m : P[t]) if (m.enabled && !m.lines.empty()) Q[t].push_back(&m);
  size_t deepest = 0;
  struct Search { std::vector<Line>& PL; std::vector<std::vector<Msg*>>& Q; int strict; size_t& deepest; std::set<std::vector<size_t>> dead;
    bool match(Msg const& m, size_t i) { for (size_t k = 0; k < m.lines.size(); ++k) { if (i + k >= PL.size()) return false; Line& l = PL[i + k]; if (l.lv != LN[m.level] || l.rest != (m.loc ? base_of(m.line) + strf("(%d): ", m.line) : std::string()) + m.lines[k]) return false; if (strict >= 1 && l.st != PL[i].st) return false; }
      if (strict >= 2) { for (auto v : m.stamps) if (stamp_text(v) == PL[i].st) return true; return false; } return true; }
    bool go(std::vector<size_t> at, size_t i) { deepest = std::max(deepest, i); if (i >= PL.size()) { for (size_t t = 0; t < Q.size(); ++t) if (at[t] < Q[t].size()) return false; return true; } if (dead.count(at)) return false;
      for (size_t t = 0; t < Q.size(); ++t) if (at[t] < Q[t].size() && match(*Q[t][at[t]], i)) { auto n = at; ++n[t]; if (go(n, i + Q[t][at[t]]->lines.size())) return true; } dead.insert(at); return false; } };
  auto explained = [&](int strict) { Search s{PL, Q, strict, deepest, {}}; deepest = 0; return s.go(std::vector<size_t>(nt, 0), 0); };
  if (!explained(0)) { size_t d = deepest; if (L.size() < total && d >= L.size()) violation("message-lost", "%zu lines were logged, %zu are in the output", total, L.size()); violation("message-not-contiguous", "the output is not a sequence of whole messages in the order of each thread, from line %zu: %s", d, d < L.size() ? quote(L[d]).c_str() : "<end>"); }
  if (!explained(1)) violation("inconsistent-timestamps", "lines of one message carry different times, near line %zu: %s", deepest, deepest < L.size() ? quote(L[deepest]).c_str() : "<end>");
  if (times && !explained(2)) violation("wrong-timestamp", "line %zu is not stamped with a time at which the message was logged: %s", deepest, deepest < L.size() ? quote(L[deepest]).c_str() : "<end>");
  if (total > 1) nontrivial(); count("log_lines", total);
}
void run_c07() { log_run(false); }
sim::Reg r07("C07", run_c07);
void run_c09() { log_run(true); }
sim::Reg r09("C09", run_c09);

// ------------------------------------------------------------------ C08 logger identity, plug-in factory, fallback
struct FakeLogger : public kv::kwiver_logger {
  FakeLogger(kv::logger_ns::kwiver_logger_factory* f, std::string const& n) : kv::kwiver_logger(f, n) {}
  typedef kv::logger_ns::location_info LI; typedef std::string const& S;
  bool is_fatal_enabled() const override { return true; } bool is_error_enabled() const override { return true; } bool is_warn_enabled() const override { return true; } bool is_info_enabled() const override { return true; } bool is_debug_enabled() const override { return true; } bool is_trace_enabled() const override { return true; }
  void set_level(log_level_t) override {} log_level_t get_level() const override { return LEVEL_TRACE; }
  void log_fatal(S) override {} void log_fatal(S, LI const&) override {} void log_error(S) override {} void log_error(S, LI const&) override {} void log_warn(S) override {} void log_warn(S, LI const&) override {} void log_info(S) override {} void log_info(S, LI const&) override {} void log_debug(S) override {} void log_debug(S, LI const&) override {} void log_trace(S) override {} void log_trace(S, LI const&) override {}
  void log_message(log_level_t, S) override {} void log_message(log_level_t, S, LI const&) override {} };
struct FakeFactory : public kv::logger_ns::kwiver_logger_factory {
  std::mutex m; std::map<std::string, kv::logger_handle_t> all; int calls = 0;
  explicit FakeFactory(std::string const& n) : kwiver_logger_factory(n) {}
  kv::logger_handle_t get_logger(std::string const& name) override { std::lock_guard<std::mutex> g(m); ++calls; auto& h = all[name]; if (!h) h = std::make_shared<FakeLogger>(this, name); return h; } };
int made = 0; bool give_null = false;
kv::logger_ns::kwiver_logger_factory* fake_entry() { sim::yield("factory"); { Scope s; ++made; ev("    factory entry called"); } return give_null ? nullptr : new FakeFactory("simulated factory"); }
void run_c08() {
  vfs::reset(); clean_env(); dl::reset(); made = 0; give_null = false;
  bool env = chance(600); std::string path = "vital_logger_plugin.so"; if (env) { path = pick(Strs{"/opt/log/my_factory.so", "other_factory.so", "", "vital_logger_plugin.so"}); setenv("VITAL_LOGGER_FACTORY", path.c_str(), 1); } else unsetenv("VITAL_LOGGER_FACTORY");
  uint32_t kind = weighted({3, 3, 1, 2, 2}); dl::Lib lib; bool usable = false; bool nulled = false;   // absent, good, broken, no symbol, null factory
  if (kind == 1) { lib.syms["kwiver_logger_factory"] = (void*)fake_entry; usable = true; } else if (kind == 2) lib.broken = path + ": file too short"; else if (kind == 4) { lib.syms["kwiver_logger_factory"] = (void*)fake_entry; give_null = nulled = true; }
  { Scope s; if (kind) dl::libs[path] = lib; dl::Lib other; other.syms["kwiver_logger_factory"] = (void*)fake_entry; if (path != "vital_logger_plugin.so" && chance(300)) dl::libs["vital_logger_plugin.so"] = other; }
  if (chance(250)) { dl::open_err = 400; dl::budget = 1; }
  uint32_t nt = 1 + choose(4); std::string longn(chance(500) ? 60 + choose(8) : 30 + choose(300), 'n'); Strs names = {"a", "b.c", "", "a.b", "A", longn, longn + "x", longn + "y"}; std::vector<std::vector<uint32_t>> plan(nt); for (auto& p : plan) { uint32_t n = 1 + choose(4); for (uint32_t i = 0; i < n; ++i) p.push_back(choose(16)); }
  std::vector<std::pair<std::string, kv::logger_handle_t>> got; std::string err; { Scope s; got.reserve(64); }
  ev("env=%d path=%s kind=%u threads=%u", env, quote(path).c_str(), kind, nt);
  { Capture cap(false); g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{150, 30, 1000}));
    for (uint32_t t = 0; t < nt; ++t) { auto* p = &plan[t]; spawn([p, t, &names, &got]() { for (uint32_t v : *p) { std::string n = names[v & 7]; kv::logger_handle_t h = (v & 8) ? kv::get_logger(n.c_str()) : kv::get_logger(n); Scope s; ev("t%u logger %s", t, quote(n).c_str()); got.push_back(std::make_pair(n, h)); } }); }
    where("%u threads getting loggers (plug-in kind %u)", nt, kind); run_all(); err = cap.out; }
  bool failed = !dl::failed.empty(); if (failed) usable = false;
  std::map<std::string, kv::logger_handle_t> first; std::string want = usable ? "simulated factory" : "default_logger factory";
  for (auto& g : got) { REQUIRE(g.second, "null-logger", "get_logger(%s) returned no logger", quote(g.first).c_str()); REQUIRE(g.second->get_name() == g.first, "wrong-logger-name", "logger %s is called %s", quote(g.first).c_str(), quote(g.second->get_name()).c_str());
    REQUIRE(g.second->get_factory_name() == want, "wrong-logger-factory", "logger from \"%s\", expected \"%s\" (plug-in kind %u)", g.second->get_factory_name().c_str(), want.c_str(), kind);
    auto& f = first[g.first]; if (!f) f = g.second; REQUIRE(f == g.second, "logger-identity", "two loggers exist for the name %s", quote(g.first).c_str()); }
  for (auto& a : first) for (auto& b : first) REQUIRE(a.first == b.first || a.second != b.second, "logger-identity", "names %s and %s share one logger", quote(a.first).c_str(), quote(b.first).c_str());
  int att = 0; for (auto& a : dl::attempts) { att += a.second; REQUIRE(a.first == path, "wrong-plugin-loaded", "the library %s was loaded, configured is %s", a.first.c_str(), path.c_str()); }
  REQUIRE(att == 1, "plugin-not-once", "the logger plug-in was loaded %d times", att); REQUIRE(made <= 1 && (!usable || made == 1), "plugin-not-once", "the plug-in's factory function was called %d times", made);
  if (usable) REQUIRE(dl::loaded(path), "plugin-unloaded", "the plug-in in use has been unloaded");
  if (!usable && env) { REQUIRE(err.find("VITAL_LOGGER_FACTORY") != std::string::npos, "fallback-silent", "falling back from the configured logger plug-in was not reported"); }
  if (usable || !env) REQUIRE(err.find("ERROR") == std::string::npos, "error-without-reason", "an error is reported although %s: %s", usable ? "the plug-in was used" : "none was configured", quote(err, 300).c_str());
  if (kind == 3) REQUIRE(!dl::loaded(path), "library-left-loaded", "a plug-in without a factory function stays loaded");
  REQUIRE(kv::kwiver_logger_manager::instance()->get_factory_name() == want, "wrong-logger-factory", "manager reports factory %s", kv::kwiver_logger_manager::instance()->get_factory_name().c_str());
  probe(usable ? "plugin_used" : nulled && !failed ? "null_factory" : kind == 3 && !failed ? "no_symbol" : "plugin_missing"); if (nt > 1) nontrivial();
  if (chance(300)) { auto* f = new FakeFactory("second factory"); kv::kwiver_logger_manager::instance()->set_logger_factory(std::unique_ptr<kv::logger_ns::kwiver_logger_factory>(f)); auto l = kv::get_logger("later"); REQUIRE(l && l->get_factory_name() == "second factory" && f->calls == 1 && kv::kwiver_logger_manager::instance()->get_factory_name() == "second factory", "set-factory-ignored", "a replaced logger factory is not used"); probe("factory_replaced"); }
}
sim::Reg r08("C08", run_c08);
}
