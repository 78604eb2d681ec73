// Plug-in loading through a simulated loader, and the algorithm registry.
#include "h.h"
#include "dl.h"
#include <vital/algorithm_plugin_manager.h>
#include <vital/algorithm_plugin_manager_paths.h>
#include <vital/registrar.h>
#include <vital/algo/algorithm.h>
#include <vital/algo/algorithm.txx>
#include <vital/algo/convert_image.h>
#include <vital/config/config_block.h>
#include <vital/logger/logger.h>
#include <iostream>
#include <dlfcn.h>
using namespace h;
namespace kv = kwiver::vital;
typedef std::map<std::string, std::string> Map;
namespace {
struct Capture : public std::streambuf { std::string out; std::streambuf* old; Capture() { old = std::cerr.rdbuf(this); } ~Capture() { std::cerr.rdbuf(old); }
  std::streamsize xsputn(const char* p, std::streamsize n) override { Scope s; out.append(p, n); return n; } int overflow(int c) override { if (c != EOF) { Scope s; out += (char)c; } return 0; } };

// ---- algorithm definitions and one configurable implementation for each -------------
struct DefA : public kv::algorithm_def<DefA> { static std::string static_type_name() { return "alg"; } virtual int id() const = 0; };
struct DefB : public kv::algorithm_def<DefB> { static std::string static_type_name() { return "alg_b"; } virtual int id() const = 0; };
struct DefC : public kv::algo::convert_image { virtual int id() const = 0; };
// state of an implementation; a copy of it is the model
struct State { std::string impl, descr, inner; int type = 0; int serial = 0, p = 0; std::string q; };
const char* TN[3] = {"alg", "alg_b", "convert_image"};
std::map<std::string, std::string> lib_of;      // "type:impl:serial" -> library path, when registered by a plug-in
void alive(const std::string& lib) { Scope s; if (!lib.empty() && !dl::loaded(lib)) violation("code-unloaded", "an algorithm of %s is used although the library has been unloaded", lib.c_str()); }
std::map<std::string, State> reg_model;          // "type:impl" -> registered state
template <class Self, class Def> struct Impl : public kv::algorithm_impl<Self, Def> {
  State st; std::string lib; kv::algorithm_sptr nested;
  std::string impl_name() const override { alive(lib); return st.impl; } std::string description() const override { alive(lib); return st.descr; }
  kv::algorithm_sptr base_clone() const override { alive(lib); sim::yield("clone"); return kv::algorithm_impl<Self, Def>::base_clone(); }
  typename Def::base_sptr clone() const override { alive(lib); sim::yield("clone"); return kv::algorithm_impl<Self, Def>::clone(); }
  kv::config_block_sptr get_configuration() const override { alive(lib); kv::config_block_sptr c = kv::algorithm::get_configuration(); c->set_value("p", st.p, "number"); c->set_value("q", st.q); if (!st.inner.empty()) kv::algorithm::get_nested_algo_configuration(st.inner, "inner", c, nested); return c; }
  void set_configuration(kv::config_block_sptr c) override { alive(lib); st.p = c->get_value<int>("p", st.p); st.q = c->get_value<std::string>("q", st.q); if (!st.inner.empty()) kv::algorithm::set_nested_algo_configuration(st.inner, "inner", c, nested); }
  bool check_configuration(kv::config_block_sptr c) const override { alive(lib); if (c->get_value<int>("p", 0) < 0) return false; return st.inner.empty() || kv::algorithm::check_nested_algo_configuration(st.inner, "inner", c); } };
struct ImplA : public Impl<ImplA, DefA> { int id() const override { return st.serial; } };
struct ImplB : public Impl<ImplB, DefB> { int id() const override { return st.serial; } };
struct ImplC : public kv::algorithm_impl<ImplC, kv::algo::convert_image> {
  State st; std::string lib; std::string impl_name() const override { alive(lib); return st.impl; } std::string description() const override { alive(lib); return st.descr; }
  kv::config_block_sptr get_configuration() const override { alive(lib); kv::config_block_sptr c = kv::algorithm::get_configuration(); c->set_value("p", st.p, "number"); c->set_value("q", st.q); return c; }
  void set_configuration(kv::config_block_sptr c) override { st.p = c->get_value<int>("p", st.p); st.q = c->get_value<std::string>("q", st.q); } bool check_configuration(kv::config_block_sptr c) const override { return c->get_value<int>("p", 0) >= 0; }
  kv::image_container_sptr convert(kv::image_container_sptr i) const override { return i; } };
State& state_of(kv::algorithm* a) { if (ImplA* x = dynamic_cast<ImplA*>(a)) return x->st; if (ImplB* x = dynamic_cast<ImplB*>(a)) return x->st; if (ImplC* x = dynamic_cast<ImplC*>(a)) return x->st; violation("wrong-class", "an algorithm of an unknown class was returned"); }
kv::algorithm_sptr nested_of(kv::algorithm* a) { if (ImplA* x = dynamic_cast<ImplA*>(a)) return x->nested; if (ImplB* x = dynamic_cast<ImplB*>(a)) return x->nested; return kv::algorithm_sptr(); }
template <class I, class D> bool reg_one(kv::registrar& r, State const& s, std::string const& lib) { std::shared_ptr<I> i = std::make_shared<I>(); i->st = s; i->lib = lib; return D::register_instance(r, i); }
bool reg(kv::registrar& r, State const& s, std::string const& lib) { return s.type == 0 ? reg_one<ImplA, DefA>(r, s, lib) : s.type == 1 ? reg_one<ImplB, DefB>(r, s, lib) : reg_one<ImplC, kv::algo::convert_image>(r, s, lib); }
kv::algorithm_sptr make_typed(int t, std::string const& n) { if (t == 0) return DefA::create(n); if (t == 1) return DefB::create(n); return kv::algo::convert_image::create(n); }
Strs names_typed(int t) { return t == 0 ? DefA::registered_names() : t == 1 ? DefB::registered_names() : kv::algo::convert_image::registered_names(); }
bool has_typed(int t, std::string const& n) { return t == 0 ? DefA::has_impl_name(n) : t == 1 ? DefB::has_impl_name(n) : kv::algo::convert_image::has_impl_name(n); }
kv::config_block_sptr confs_typed(int t) { return t == 0 ? DefA::get_impl_configurations() : t == 1 ? DefB::get_impl_configurations() : kv::algo::convert_image::get_impl_configurations(); }
std::set<std::string> model_names(int t) { std::set<std::string> r; std::string pre = std::string(TN[t]) + ":"; for (auto& m : reg_model) if (m.second.type == t) r.insert(m.first.substr(pre.size())); return r; }
void same_names(Strs const& got, std::set<std::string> const& want, const char* what) { Scope s; std::set<std::string> g(got.begin(), got.end()); REQUIRE(g == want && g.size() == got.size(), "wrong-names", "%s: listed are {%s}, registered are {%s}", what, join(got).c_str(), join(Strs(want.begin(), want.end())).c_str()); }
void same_state(kv::algorithm_sptr const& a, State const& m, const char* what) { State& s = state_of(a.get()); REQUIRE(s.serial == m.serial && s.impl == m.impl && s.p == m.p && s.q == m.q && a->impl_name() == m.impl && a->type_name() == TN[m.type] && a->description() == m.descr, "wrong-algorithm", "%s: got instance %d of %s (p=%d q=%s), expected %d of %s (p=%d q=%s)", what, s.serial, s.impl.c_str(), s.p, s.q.c_str(), m.serial, m.impl.c_str(), m.p, m.q.c_str()); }
// the registry, as seen through every query, equals the model
void check_registry(const char* when) {
  std::set<std::string> all; for (auto& m : reg_model) all.insert(m.first); same_names(kv::algorithm::registered_names(), all, when);
  for (int t = 0; t < 3; ++t) { auto want = model_names(t); same_names(names_typed(t), want, when); same_names(kv::algorithm::registered_names(TN[t]), want, when); REQUIRE(kv::algorithm::has_type_name(TN[t]) == !want.empty(), "wrong-has-type", "%s: has_type_name(%s)", when, TN[t]);
    for (auto& n : want) { REQUIRE(has_typed(t, n) && kv::algorithm::has_impl_name(TN[t], n), "wrong-has-impl", "%s: has_impl_name(%s, %s) is false", when, TN[t], n.c_str()); State m; { Scope s; m = reg_model[std::string(TN[t]) + ":" + n]; }
      auto a = kv::algorithm::create(TN[t], n), b = make_typed(t, n); REQUIRE(a && b && a != b, "not-created", "%s: creating %s:%s", when, TN[t], n.c_str()); same_state(a, m, when); same_state(b, m, when); } }
  for (const char* t : {"al", "alg_", "nothing", "alg:"}) { REQUIRE(!kv::algorithm::has_type_name(t) && kv::algorithm::registered_names(t).empty(), "wrong-has-type", "%s: type name \"%s\"", when, t); REQUIRE(!kv::algorithm::create(t, "a"), "created-unknown", "%s: an algorithm of unregistered type %s was created", when, t); }
  REQUIRE(!kv::algorithm::create("alg", "nothing") && !DefA::create("nothing") && !kv::algorithm::has_impl_name("alg", "nothing") && !DefA::has_impl_name("nothing"), "created-unknown", "%s: an unregistered implementation", when);
}

// ------------------------------------------------------------------ C10
struct PLib { std::string path; int kind = 0; std::vector<State> regs; int ret = 0; };      // kind 0 good, 1 not loadable, 2 no entry point
std::vector<PLib> plibs; Strs called;
int do_register(int i, kv::registrar& r) {
  PLib& L = plibs[i]; { Scope s; called.push_back(L.path); ev("    registration function of %s", L.path.c_str()); if (!dl::loaded(L.path)) violation("code-unloaded", "registration function of an unloaded library called"); }
  sim::yield("register");
  for (auto& s : L.regs) { State c; { Scope sc; c = s; c.serial = (int)called.size() * 100 + s.serial; } bool ok = reg(r, c, L.path); REQUIRE(ok, "registration-refused", "registration of %s refused", s.impl.c_str()); Scope sc; reg_model[std::string(TN[s.type]) + ":" + s.impl] = c; sim::yield("registered"); }
  return L.ret; }
template <int I> int entry(kv::registrar& r) { return do_register(I, r); }
void* const entries[36] = {(void*)entry<0>, (void*)entry<1>, (void*)entry<2>, (void*)entry<3>, (void*)entry<4>, (void*)entry<5>, (void*)entry<6>, (void*)entry<7>, (void*)entry<8>, (void*)entry<9>, (void*)entry<10>, (void*)entry<11>, (void*)entry<12>, (void*)entry<13>, (void*)entry<14>, (void*)entry<15>, (void*)entry<16>, (void*)entry<17>, (void*)entry<18>, (void*)entry<19>, (void*)entry<20>, (void*)entry<21>, (void*)entry<22>, (void*)entry<23>, (void*)entry<24>, (void*)entry<25>, (void*)entry<26>, (void*)entry<27>, (void*)entry<28>, (void*)entry<29>, (void*)entry<30>, (void*)entry<31>, (void*)entry<32>, (void*)entry<33>, (void*)entry<34>, (void*)entry<35>};
Strs opened() { Strs r; for (auto& p : dl::order) if (p.find("logger_plugin") == std::string::npos) r.push_back(p); return r; }
std::map<std::string, std::set<std::string>> dirfiles;   // normalised directory -> module files
Strs search_model;
// one loading pass must attempt, directory by directory in search order, every (matching) module exactly once
void check_pass(size_t from, std::string const& name, const char* when) {
  size_t at = from; Strs ord = opened();
  for (auto& d : search_model) { if (d.empty() || !vfs::lookup(d)) continue; auto it = dirfiles.find(normal(d, vfs::cwd)); if (it == dirfiles.end()) continue;
    std::set<std::string> want; for (auto& f : it->second) { std::string base = f.substr(f.rfind('/') + 1); if (name.empty() || base == name + ".so") want.insert(f); }
    std::set<std::string> got; for (size_t k = 0; k < want.size() && at < ord.size(); ++k) got.insert(ord[at++]);
    REQUIRE(got == want, "wrong-modules", "%s: in %s the libraries {%s} were opened, expected {%s}", when, d.c_str(), join(Strs(got.begin(), got.end())).c_str(), join(Strs(want.begin(), want.end())).c_str()); }
  REQUIRE(at == ord.size(), "wrong-modules", "%s: %s was opened in addition", when, ord[at].c_str());
}
// the simulated directories, libraries, environment and loader faults
Strs plugin_world() {
  vfs::reset(); dl::reset(); { Scope s; plibs.clear(); called.clear(); reg_model.clear(); dirfiles.clear(); search_model.clear(); plibs.reserve(40); }
  for (const char* v : {"VITAL_LOGGER_FACTORY", "KWIVER_PLUGIN_PATH"}) unsetenv(v);
  vfs::cwd = "/work"; vfs::mkdirs("/work");
  Strs defs; { std::string d = DEFAULT_MODULE_PATHS, c; for (size_t i = 0; i <= d.size(); ++i) if (i == d.size() || d[i] == ':') { defs.push_back(c); c.clear(); } else c += d[i]; }
  Strs pool = {"/p/one", "/p/two", "/p/two/sub", "/work/rel", "/opt/x.so/plugins", "/work"}; for (auto& d : defs) if (!d.empty()) pool.push_back(normal(d));
  Strs impls = {"a", "b", "ab", "x_1", "x:y"}; if (chance(200)) impls.push_back(""); int serial = 1;
  { Scope s; for (auto& d : pool) { if (chance(250)) continue; vfs::mkdirs(d); auto& set = dirfiles[normal(d)]; uint32_t n = choose(5); bool many = chance(25); if (many) { n += 20; probe("crowded_directory"); for (uint32_t i = 0; i < 40; ++i) vfs::put(d + strf("/data%u.txt", i), "x"); }
      for (uint32_t i = 0; i < n; ++i) { std::string f = many && i >= 4 ? strf("m%u.so", i) : pick(Strs{"liba.so", "b.so", "vital_c.so", "d-2.so", "liba.so.1", "notes.txt", "so", "folder.so", "x.s", "Upper.SO", "b.so~", "libaso", "e.so", ".hid.so", "a b.so", "..so"}), full = d + "/" + f; if (vfs::exists(full)) continue;
        bool isdir = f == "folder.so"; if (isdir) { vfs::mkdirs(full); vfs::put(full + "/inner.so", "ELF"); continue; } vfs::put(full, "ELF");
        bool mod = f.size() > 3 && f.compare(f.size() - 3, 3, ".so") == 0; if (!mod || plibs.size() >= 36) { if (mod) vfs::remove_all(full); continue; }
        PLib L; L.path = normal(full); L.kind = (int)weighted({6, 1, 1}); dl::Lib lib; if (L.kind == 1) lib.broken = L.path + ": invalid ELF header"; else if (L.kind == 0) { lib.syms["private_register_algo_impls"] = entries[plibs.size()]; L.ret = chance(250) ? 1 + choose(3) : 0; uint32_t k = choose(3) + (L.ret > 0); for (uint32_t j = 0; j < k; ++j) { State st; st.type = (int)choose(3); st.impl = pick(impls); st.descr = L.path; st.serial = serial++; if (chance(250)) st.q = chance(150) ? std::string(300 + choose(300), (char)('a' + choose(26))) : text(8, "ab \"=:"); L.regs.push_back(st); } } else lib.syms["something_else"] = (void*)1;
        set.insert(L.path); plibs.push_back(L); dl::libs[L.path] = lib; ev("module %s kind=%d ret=%d regs=%zu", L.path.c_str(), L.kind, L.ret, L.regs.size()); } }
    vfs::put("/p/file", "x"); }
  Strs spell = {"/p/one", "/p/two", "/p/two/", "rel", "./rel", "/p/one/../two/sub", "/missing", "", "/p/file", "/opt/x.so/plugins", "/p/two/sub", "."};
  std::string env; if (chance(800)) { uint32_t n = chance(60) ? 10 + choose(14) : 1 + choose(4); for (uint32_t i = 0; i < n; ++i) { std::string d = pick(spell); env += (i ? ":" : "") + d; if (!d.empty()) search_model.push_back(d); } setenv("KWIVER_PLUGIN_PATH", env.c_str(), 1); ev("KWIVER_PLUGIN_PATH=%s", env.c_str()); }
  for (auto& d : defs) if (!d.empty()) search_model.push_back(d);
  if (chance(250)) { dl::open_err = 200; dl::budget = 2; }
  return spell; }
void run_c10() {
  Strs spell = plugin_world();
  std::string err; bool threads = chance(600), early = chance(500); Strs added; if (early) { uint32_t n = choose(3); for (uint32_t i = 0; i < n; ++i) added.push_back(pick(spell)); }
  if (chance(500)) kv::get_logger("warm");
  { Capture cap;
    if (early) { auto& m = kv::algorithm_plugin_manager::instance(); for (auto& d : added) { m.add_search_path(d); Scope s; search_model.push_back(d); } }
    auto path_ok = [&]() { Strs got, want; for (auto& d : kv::algorithm_plugin_manager::instance().get_search_path()) if (!d.empty()) got.push_back(d); for (auto& d : search_model) if (!d.empty()) want.push_back(d); REQUIRE(got == want, "wrong-search-path", "search path is %s, expected %s", join(got, ":").c_str(), join(want, ":").c_str()); };
    std::string name;
    if (threads) {
      uint32_t nt = 2 + choose(3); int firsts = 0, returned = 0; g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{400, 60, 4000}));
      for (uint32_t t = 0; t < nt; ++t) spawn([&, t]() { bool f = kv::algorithm_plugin_manager::load_plugins_once(); { Scope s; ev("t%u load_plugins_once=%d", t, (int)f); firsts += f; ++returned; for (auto& L : plibs) (void)L; }
        // everything must be usable as soon as the call returned, whichever thread did the work
        check_registry("after load_plugins_once returned in a thread"); kv::algorithm_plugin_manager::instance().registered_module_names(); bool again = kv::algorithm_plugin_manager::load_plugins_once(); REQUIRE(!again, "loaded-twice", "a second call of load_plugins_once loaded again"); });
      where("%u threads calling load_plugins_once", nt); run_all(); set_preempt(0);
      REQUIRE(firsts == 1, firsts ? "loaded-twice" : "never-loaded", "load_plugins_once returned true in %d of %u threads", firsts, nt); check_pass(0, "", "load_plugins_once"); nontrivial();
    } else { if (chance(300)) name = pick(Strs{"liba", "b", "nothing", "vital_c", "lib", "d-2"}); where("register_plugins"); kv::algorithm_plugin_manager::instance().register_plugins(name); check_pass(0, name, "register_plugins"); }
    path_ok(); check_registry("after loading");
    // which modules count as registered
    auto modules = [&]() { std::set<std::string> want; for (auto& p : called) for (auto& L : plibs) if (L.path == p && L.ret <= 0) { std::string b = p.substr(p.rfind('/') + 1); want.insert(b.substr(0, b.size() - 3)); } same_names(kv::algorithm_plugin_manager::instance().registered_module_names(), want, "registered_module_names"); };
    modules();
    if (chance(400)) { // a later pass, possibly with another directory
      if (chance(600)) { std::string d = pick(spell); kv::algorithm_plugin_manager::instance().add_search_path(d); search_model.push_back(d); path_ok(); }
      size_t from = opened().size(); std::string n2 = chance(500) ? "" : pick(Strs{"liba", "b", "nothing", "d-2", "e"}); where("second register_plugins"); kv::algorithm_plugin_manager::instance().register_plugins(n2); check_pass(from, n2, "second register_plugins"); check_registry("after loading again"); modules(); probe("second_pass"); }
    if (threads) { size_t from = opened().size(); REQUIRE(!kv::algorithm_plugin_manager::load_plugins_once() && opened().size() == from, "loaded-twice", "load_plugins_once loaded again"); }
    err = cap.out; }
  Scope s; std::map<std::string, int> inj; for (auto& f : dl::failed) inj[f]++;
  for (auto& L : plibs) { auto& D = dl::libs[L.path]; int open = D.opens - D.closes; int att = dl::attempts[L.path]; if (!att) continue;
    if (L.kind == 2) REQUIRE(open == 0, "useless-library-kept", "%s has no registration function but stays loaded", L.path.c_str());
    int c = (int)std::count(called.begin(), called.end(), L.path); REQUIRE(c == (L.kind == 0 ? att - inj[L.path] : 0), "registration-calls", "%s was opened %d times and its registration function called %d times", L.path.c_str(), att - inj[L.path], c);
    if (L.kind == 0 && c && !L.regs.empty()) REQUIRE(open > 0, "code-unloaded", "%s registered algorithms but is no longer loaded", L.path.c_str());
    if (L.kind == 1 || inj[L.path] || L.ret > 0) { std::string b = L.path.substr(L.path.rfind('/')); REQUIRE(err.find(b) != std::string::npos, "failure-not-reported", "the failure of %s was not reported", L.path.c_str()); probe(L.kind == 1 ? "broken_library" : inj[L.path] ? "injected_dlopen_error" : "partial_registration"); } }
  if (!called.empty()) nontrivial(); count("libraries_opened", dl::order.size());
}
sim::Reg r10("C10", run_c10);

// ------------------------------------------------------------------ C11
void conf_model(State const& s, State const* inner, std::string const& pre, Map& m) { m[pre + "p"] = strf("%d", s.p); m[pre + "q"] = s.q; if (!s.inner.empty()) { m[pre + "inner:type"] = inner ? inner->impl : ""; if (inner) conf_model(*inner, nullptr, pre + "inner:" + inner->impl + ":", m); } }
Map contents(kv::config_block_sptr const& c) { Map m; for (auto const& k : c->available_values()) { std::string v = c->get_value<std::string>(k); Scope s; m[k] = v; } return m; }
void same_map(Map const& got, Map const& want, const char* what) { Scope s; REQUIRE(got == want, "wrong-configuration", "%s: %s, expected %s", what, show(got).c_str(), show(want).c_str()); }
// is `m` (under prefix) a valid configuration for the registered algorithm?
bool check_model(Map const& m, std::string const& pre, int type, std::string const& impl) { auto it = reg_model.find(std::string(TN[type]) + ":" + impl); if (it == reg_model.end()) return false; auto p = m.find(pre + "p"); if (p != m.end() && atoi(p->second.c_str()) < 0) return false; if (it->second.inner.empty()) return true; auto t = m.find(pre + "inner:type"); if (t == m.end()) return false; int it2 = it->second.inner == TN[0] ? 0 : it->second.inner == TN[1] ? 1 : 2; return check_model(m, pre + "inner:" + t->second + ":", it2, t->second); }
// operations that only read the registry; run alone or from several threads
void query(uint32_t v) {
  int t = (int)(v % 3); v /= 3; std::string impl; { Scope s; impl = Strs{"a", "b", "ab", "", "x:y", "A"}[v % 6]; } v /= 6; std::string key; State m; bool has; { Scope s; key = std::string(TN[t]) + ":" + impl; has = reg_model.count(key) != 0; if (has) m = reg_model[key]; }
  switch (v % 5) {
    case 0: { auto a = (v & 64) ? make_typed(t, impl) : kv::algorithm::create(TN[t], impl); REQUIRE(!!a == has, has ? "not-created" : "created-unknown", "create(%s)", key.c_str()); if (!has) break; same_state(a, m, "create");
      state_of(a.get()).p = 99; state_of(a.get()).q = "changed"; auto c = kv::config_block::empty_config(); c->set_value("p", 77); a->set_configuration(c); REQUIRE(state_of(a.get()).p == 77, "wrong-configuration", "set_configuration ignored");
      auto b = kv::algorithm::create(TN[t], impl); same_state(b, m, "create after changing an earlier copy"); break; }
    case 1: { bool h = (v & 64) ? has_typed(t, impl) : kv::algorithm::has_impl_name(TN[t], impl); REQUIRE(h == has, "wrong-has-impl", "has_impl_name(%s)", key.c_str()); same_names((v & 64) ? names_typed(t) : kv::algorithm::registered_names(TN[t]), model_names(t), "registered_names"); break; }
    case 2: { Map want; { Scope s; for (auto& n : model_names(t)) conf_model(reg_model[std::string(TN[t]) + ":" + n], nullptr, n + ":", want); } same_map(contents(confs_typed(t)), want, "get_impl_configurations"); break; }
    case 3: { // nested algorithm: describe, choose, configure
      auto cfg = kv::config_block::empty_config(); kv::algorithm_sptr cur; bool pre = (v & 64) != 0; if (pre) cfg->set_value("n:type", "kept"); Map want; if (v & 128) { cur = kv::algorithm::create(TN[t], impl); }
      if (t == 0 && (v & 256)) DefA::get_nested_algo_configuration("n", cfg, std::dynamic_pointer_cast<DefA>(cur)); else kv::algorithm::get_nested_algo_configuration(TN[t], "n", cfg, cur);
      { Scope s; want["n:type"] = cur ? impl : pre ? "kept" : ""; if (cur) conf_model(m, nullptr, "n:" + impl + ":", want); } same_map(contents(cfg), want, "get_nested_algo_configuration");
      if (!pre || cur) { std::string d = cfg->get_description("n:type"); Scope s; for (auto& n : model_names(t)) { auto& st = reg_model[std::string(TN[t]) + ":" + n]; REQUIRE(d.find("- " + n + (st.descr.empty() ? "" : " :: " + st.descr)) != std::string::npos, "options-not-listed", "the description of a nested algorithm setting does not list %s: %s", n.c_str(), quote(d).c_str()); } }
      break; }
    default: { auto cfg = kv::config_block::empty_config(); Map cm; { Scope s; if (v & 64) cm["n:type"] = impl; if (v & 128) cm["n:" + impl + ":p"] = (v & 256) ? "-3" : "12"; if (v & 512) cm["n:" + impl + ":q"] = "str"; cm["n:other:p"] = "5"; if (v & 1024) { cm["n:" + impl + ":inner:type"] = (v & 2048) ? "a" : "zz"; cm["n:" + impl + ":inner:a:p"] = (v & 4096) ? "-1" : "8"; } } for (auto& e : cm) cfg->set_value(e.first, e.second);
      bool ok = t == 0 && (v & 8192) ? DefA::check_nested_algo_configuration("n", cfg) : kv::algorithm::check_nested_algo_configuration(TN[t], "n", cfg); bool want; { Scope s; want = cm.count("n:type") && check_model(cm, "n:" + impl + ":", t, impl); } REQUIRE(ok == want, "wrong-check", "check_nested_algo_configuration of %s returned %d", show(cm).c_str(), ok);
      kv::algorithm_sptr old, a; if (v & 16384) old = a = make_typed(t, "a"); 
      if (t == 0 && (v & 8192)) { std::shared_ptr<DefA> d = std::dynamic_pointer_cast<DefA>(a); DefA::set_nested_algo_configuration("n", cfg, d); a = d; } else kv::algorithm::set_nested_algo_configuration(TN[t], "n", cfg, a);
      bool chosen = (v & 64) && has; REQUIRE(chosen ? (a && a != old) : a == old, "nested-algorithm", "set_nested_algo_configuration with %s %s", show(cm).c_str(), chosen ? "did not create the algorithm" : "changed the algorithm");
      if (chosen) { State e = m; { Scope s; if (v & 128) e.p = (v & 256) ? -3 : 12; if (v & 512) e.q = "str"; } same_state(a, e, "nested algorithm"); if (!m.inner.empty()) { std::string it; int t2; State im; bool ih; { Scope s; it = (v & 1024) ? ((v & 2048) ? "a" : "zz") : "none"; t2 = m.inner == TN[0] ? 0 : m.inner == TN[1] ? 1 : 2; auto f = reg_model.find(m.inner + ":" + it); ih = f != reg_model.end(); if (ih) im = f->second; } auto n = nested_of(a.get()); REQUIRE(!!n == ih, "nested-algorithm", "inner algorithm %s", it.c_str()); (void)t2; if (n) { if (it == "a") im.p = (v & 4096) ? -1 : 8; same_state(n, im, "inner algorithm"); auto again = kv::algorithm::create(TN[t], impl); REQUIRE(!nested_of(again.get()), "not-independent", "configuring a created algorithm changed the registered one"); } } }
      break; }
  }
}
void run_c11() {
  vfs::reset(); { Scope s; reg_model.clear(); } unsetenv("VITAL_LOGGER_FACTORY"); Capture cap; if (chance(500)) kv::get_logger("warm");
  auto& R = kv::registrar::instance(); uint32_t n = 3 + choose(25); int serial = 1; std::map<std::string, std::weak_ptr<kv::algorithm>> held;
  for (uint32_t i = 0; i < n; ++i) {
    if (chance(400)) { State s; s.type = (int)choose(3); s.impl = pick(Strs{"a", "b", "ab", "x:y", "A"}); s.serial = serial++; s.p = (int)choose(20); s.q = pick(Strs{"", "qq", "long value with spaces"}); s.descr = pick(Strs{"", "an algorithm"}); if (s.type < 2 && chance(400)) s.inner = TN[choose(3)]; std::string key = std::string(TN[s.type]) + ":" + s.impl; ev("register %s #%d inner=%s", key.c_str(), s.serial, s.inner.c_str()); where("register %s", key.c_str());
      if (chance(80)) { bool r = s.type == 0 ? DefA::register_instance(R, nullptr) : s.type == 1 ? DefB::register_instance(R, nullptr) : kv::algo::convert_image::register_instance(R, nullptr); REQUIRE(!r, "null-registered", "a null algorithm was registered"); }
      else { if (reg_model.count(key)) probe("replaced"); REQUIRE(reg(R, s, ""), "registration-refused", "registration of %s was refused", key.c_str()); Scope sc; reg_model[key] = s; } }
    else { uint32_t v = choose(3 * 6 * 5 * 4096) * 8 + choose(8); ev("query %u", v); where("query %u", v); query(v); } }
  check_registry("after the history");
  if (chance(600)) { uint32_t nt = 2 + choose(3); std::vector<std::vector<uint32_t>> plan(nt); for (auto& p : plan) { uint32_t k = 1 + choose(4); for (uint32_t i = 0; i < k; ++i) p.push_back(choose(3 * 6 * 5 * 4096) * 8 + choose(8)); } g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{200, 40, 2000}));
    for (uint32_t t = 0; t < nt; ++t) { auto* p = &plan[t]; spawn([p, t]() { for (uint32_t v : *p) { { Scope s; ev("t%u query %u", t, v); } query(v); } }); } where("%u threads querying the registry", nt); run_all(); probe("concurrent_queries"); }
  if (reg_model.size() > 1) nontrivial();
}
sim::Reg r11("C11", run_c11);
// ------------------------------------------------------------------ C41: the plug-in explorer program
struct OutBuf : public std::streambuf { std::string out; std::streamsize xsputn(const char* p, std::streamsize n) override { Scope s; out.append(p, n); return n; } int overflow(int c) override { if (c != EOF) { Scope s; out += (char)c; } return 0; } };
OutBuf* xout; OutBuf* xerr; Strs xargs; bool xhelp, xbad, xdetail; std::string xname; void explorer_checks(int rc);
}
int explorer_main(int, char**) __asm__("explorer_main");
static bool g_explorer;
extern "C" void exit(int rc) { if (g_explorer && sim::g_active) { sim::Scope s; explorer_checks(rc); sim::end_run(); } static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit"); real(rc); abort(); }
namespace {
// the text after a heading, up to the next blank line or heading
void explorer_checks(int rc) {
  std::string const& o = xout->out; ev("explorer ended with %d", rc); nontrivial();
  if (xbad) { REQUIRE(o.empty() && xerr->out.find("Problem parsing arguments") != std::string::npos, "bad-arguments-accepted", "the command line {%s} was not refused: %s", join(xargs, " ").c_str(), quote(o).c_str()); REQUIRE(opened().empty(), "bad-arguments-accepted", "plug-ins were loaded in spite of a bad command line"); probe("bad_command_line"); return; }
  if (xhelp) { REQUIRE(o.find("--plugin-name") != std::string::npos && o.find("----") == std::string::npos && opened().empty(), "wrong-help", "--help printed %s", quote(o).c_str()); probe("help"); return; }
  REQUIRE(rc == 0, "wrong-exit-code", "the explorer ended with %d", rc); check_pass(0, xname, "the explorer");
  Strs lines; { std::string c; for (char ch : o) if (ch == '\n') { lines.push_back(c); c.clear(); } else c += ch; if (!c.empty()) lines.push_back(c); } size_t at = 0; auto head = [&](const char* h) { while (at < lines.size() && lines[at].empty()) ++at; REQUIRE(at < lines.size() && lines[at] == h, "wrong-output", "expected the line \"%s\" instead of %s", h, at < lines.size() ? quote(lines[at]).c_str() : "the end"); ++at; }; auto list = [&]() { std::multiset<std::string> r; while (at < lines.size() && lines[at].compare(0, 3, "   ") == 0) r.insert(lines[at++].substr(3)); return r; };
  head("---- Algorithm search path"); Strs got, want; { std::string c; REQUIRE(at < lines.size(), "wrong-output", "no search path"); for (char ch : lines[at] + ":") if (ch == ':') { if (!c.empty()) got.push_back(c); c.clear(); } else c += ch; ++at; } for (auto& d : search_model) if (!d.empty()) want.push_back(d); REQUIRE(got == want, "wrong-search-path", "the explorer shows the search path %s instead of %s", join(got, ":").c_str(), join(want, ":").c_str());
  head("---- Registered module names:"); { std::set<std::string> w; for (auto& p : called) for (auto& L : plibs) if (L.path == p && L.ret <= 0) { std::string b = p.substr(p.rfind('/') + 1); w.insert(b.substr(0, b.size() - 3)); } auto g = list(); same_names(Strs(g.begin(), g.end()), w, "the explorer's modules"); }
  head("---- registered algorithms (type_name:impl_name)"); { std::set<std::string> w; for (auto& m : reg_model) w.insert(m.first); auto g = list(); same_names(Strs(g.begin(), g.end()), w, "the explorer's algorithms"); }
  if (!xdetail) { while (at < lines.size() && lines[at].empty()) ++at; REQUIRE(at == lines.size(), "wrong-output", "unexpected output %s", quote(lines[at]).c_str()); return; }
  probe("detail"); std::set<std::string> seen; while (true) { while (at < lines.size() && lines[at].empty()) ++at; if (at == lines.size()) break; head("---------------------"); REQUIRE(at < lines.size(), "wrong-output", "details end early"); std::string key; State st; for (auto& m : reg_model) { std::string impl = m.first.substr(m.first.find(':') + 1); if (lines[at] == "Detailed info on type \"" + std::string(TN[m.second.type]) + "\" implementation \"" + impl + "\"") { key = m.first; st = m.second; } } REQUIRE(!key.empty() && seen.insert(key).second, "wrong-output", "unexpected or repeated: %s", quote(lines[at]).c_str()); ++at;
    std::map<std::string, std::string> conf, wantc, descr; { Unscope u; auto a = kv::algorithm::create(TN[st.type], key.substr(key.find(':') + 1)); auto c = a->get_configuration(); for (auto const& k : c->available_values()) { std::string v = c->get_value<std::string>(k), d = c->get_description(k); Scope s; wantc[k] = v; descr[k] = d; } }
    head("    Configuration block contents"); while (true) { while (at < lines.size() && lines[at].empty()) ++at; if (at == lines.size() || lines[at].compare(0, 5, "    \"") != 0) break; std::string l = lines[at++]; size_t e = l.find("\" = \""); REQUIRE(e != std::string::npos && l.back() == '"', "wrong-output", "unexpected %s", quote(l).c_str()); std::string k = l.substr(5, e - 5), v = l.substr(e + 5, l.size() - e - 6); REQUIRE(conf.insert(std::make_pair(k, v)).second, "wrong-output", "%s is shown twice", k.c_str()); REQUIRE(at < lines.size() && lines[at] == "    Description: " + descr[k].substr(0, descr[k].find('\n')), "wrong-output", "the description of %s is shown as %s", k.c_str(), at < lines.size() ? quote(lines[at]).c_str() : "nothing"); ++at; if (descr[k].find('\n') != std::string::npos) while (at < lines.size() && !lines[at].empty() && lines[at].compare(0, 5, "    \"") != 0 && lines[at] != "---------------------") ++at; }
    same_map(conf, wantc, "the explorer's details"); }
  REQUIRE(seen.size() == reg_model.size(), "wrong-output", "details of %zu of %zu algorithms", seen.size(), reg_model.size()); }
void run_c41() {
  Strs spell = plugin_world(); Scope s0; xargs.clear(); xhelp = xbad = xdetail = false; xname.clear(); xargs.push_back("plugin_explorer"); uint32_t n = choose(6); if (chance(25)) n = 18 + choose(8);
  auto add = [&](std::string const& d) { search_model.push_back(d); };
  for (uint32_t i = 0; i < n && !xbad; ++i) switch (choose(n > 6 ? 4 : 9)) {
    case 0: case 1: { std::string d = pick(spell); xargs.push_back("--path"); xargs.push_back(d); add(d); break; }
    case 2: case 3: { std::string d = pick(spell); xargs.push_back("-I" + d); add(d); break; }
    case 4: { xname = pick(Strs{"liba", "b", "nothing", "vital_c", "lib", "d-2", ""}); xargs.push_back("--plugin-name"); xargs.push_back(xname); break; }
    case 5: xargs.push_back(pick(Strs{"--detail", "-d"})); xdetail = true; break;
    case 6: xargs.push_back("--config"); break;
    case 7: if (chance(300)) { xargs.push_back("--help"); xhelp = true; } break;
    default: if (chance(400)) { xargs.push_back(pick(Strs{"--verbose", "/p/one", "", "-x", "--detail=1", "--pat", "--path", "--plugin-name"})); xbad = true; if (xargs.back() == "--path" || xargs.back() == "--plugin-name") n = 0; } break; }
  if (!xhelp && !xbad && chance(100)) xname = xname; ev("explorer %s", join(xargs, " ").c_str()); where("plugin_explorer %s", join(xargs, " ").c_str());
  static char* argv[80]; int argc = 0; { Unscope u; for (auto& a : xargs) { char* c = (char*)malloc(a.size() + 1); memcpy(c, a.c_str(), a.size() + 1); argv[argc++] = c; } argv[argc] = nullptr; }
  static OutBuf co, ce; co.out.clear(); ce.out.clear(); xout = &co; xerr = &ce; std::cout.rdbuf(&co); std::cerr.rdbuf(&ce); g_explorer = true; int rc; { Unscope u; rc = explorer_main(argc, argv); } g_explorer = false; explorer_checks(rc); REQUIRE(vfs::open_dirs() == 0 && vfs::open_fds() == 0, "descriptor-leak", "descriptors left open"); }
sim::Reg r41("C41", run_c41);
}
