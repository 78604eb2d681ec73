// Configuration blocks as a map: histories of operations through blocks, views and copies, with failing allocations.
#include "h.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_exception.h>
#include <vital/logger/logger.h>
using namespace h;
namespace kv = kwiver::vital;
namespace {
struct Ent { std::string val, descr; };
struct Root { std::map<std::string, Ent> m; std::set<std::string> ro; std::map<std::string, std::pair<std::string, int>> loc; };
struct Hnd { kv::config_block_sptr c; int root; Strs chain; };     // chain: view names, outermost first
std::vector<Root> roots; std::vector<Hnd> hs;
bool glob(const std::string& k) { return k.compare(0, 8, "_global:") == 0; }
std::string full(const Hnd& h, const std::string& k) { if (glob(k)) return k; std::string r = k; for (size_t i = h.chain.size(); i-- > 0;) { r = h.chain[i] + ":" + r; if (glob(r)) return r; } return r; }
bool strip(const std::string& name, std::string& k) { if (k.compare(0, name.size() + 1, name + ":") == 0) { k = k.substr(name.size() + 1); return true; } return glob(k); }
// keys visible through a handle -> root key
std::map<std::string, std::string> keys(const Hnd& h) { std::map<std::string, std::string> r; for (auto& e : roots[h.root].m) { std::string k = e.first; bool ok = true; for (auto& n : h.chain) if (!strip(n, k)) { ok = false; break; } if (ok) r[k] = e.first; } return r; }
const Strs KS = {"a", "b", "a:x", "a:y", "a:b:x", "a:b:y:z", "b:x", "_global:g", "_global:h:i", "ab:x", "a:", "_globalx", "c.d/e-f"};
const Strs NS = {"a", "b", "a:b", "ab", "y", "_global", "x", "_g", "_", "_globa"};
std::string gval() { switch (weighted({4, 2, 2, 1})) { case 0: return text(6, "abc 12"); case 1: return strf("%d", (int)choose(2000) - 1000); case 2: return pick(Strs{"true", "FALSE", "Yes", "no", "1", "0", "on", "", "  ", "\t x \n"}); default: return (chance(400) ? pick(Strs{" ", "\t", "  \n"}) : "") + std::string(chance(150) ? 500 + choose(3000) : 20 + choose(60), 'L') + (chance(400) ? pick(Strs{" ", " \t"}) : ""); } }
// compare everything a handle shows with the model
void observe(const Hnd& h, const char* after) {
  Root& R = roots[h.root]; auto ks = keys(h); auto av = h.c->available_values(); std::set<std::string> got(av.begin(), av.end());
  REQUIRE(got.size() == av.size(), "duplicate-key", "after %s: available_values lists a key twice", after);
  for (auto& k : ks) REQUIRE(got.count(k.first), "missing-key", "after %s: key %s is not listed through a handle with %zu views", after, quote(k.first).c_str(), h.chain.size());
  for (auto& k : got) REQUIRE(ks.count(k), "unexpected-key", "after %s: key %s is listed", after, quote(k).c_str());
  for (auto& k : ks) {
    Ent& e = R.m[k.second]; REQUIRE(h.c->has_value(k.first), "missing-key", "after %s: has_value(%s) is false", after, quote(k.first).c_str());
    std::string v = h.c->get_value<std::string>(k.first); REQUIRE(v == e.val, "wrong-value", "after %s: %s is %s, expected %s", after, quote(k.first).c_str(), quote(v).c_str(), quote(e.val).c_str());
    std::string d = h.c->get_description(k.first); REQUIRE(d == e.descr, "wrong-description", "after %s: description of %s is %s, expected %s", after, quote(k.first).c_str(), quote(d).c_str(), quote(e.descr).c_str()); }
  for (auto& k : KS) { std::string f = full(h, k); bool has = R.m.count(f) != 0;
    REQUIRE(h.c->has_value(k) == has, "wrong-has-value", "after %s: has_value(%s) is %d", after, quote(k).c_str(), !has);
    REQUIRE(h.c->is_read_only(k) == (R.ro.count(f) != 0), "wrong-read-only", "after %s: is_read_only(%s) is %d", after, quote(k).c_str(), (int)h.c->is_read_only(k));
    if (!has && chance(300)) { std::string dv = h.c->get_value<std::string>(k, "dflt"); REQUIRE(dv == "dflt", "wrong-default", "after %s: default for missing key %s is %s", after, quote(k).c_str(), quote(dv).c_str());
      bool t1 = false, t2 = false; try { h.c->get_value<std::string>(k); } catch (kv::no_such_configuration_value_exception const&) { t1 = true; } try { h.c->get_description(k); } catch (kv::no_such_configuration_value_exception const&) { t2 = true; }
      REQUIRE(t1 && t2, "missing-key-not-reported", "after %s: reading the missing key %s did not raise", after, quote(k).c_str()); } }
  if (h.chain.empty()) for (auto& k : KS) { std::string f; int l = -1; bool g = h.c->get_location(k, f, l); auto it = R.loc.find(k); REQUIRE(g == (it != R.loc.end()) && (!g || (f == it->second.first && l == it->second.second)), "wrong-location", "after %s: location of %s", after, quote(k).c_str()); }  if (chance(250)) { std::ostringstream os; h.c->print(os); { std::string o = "\n" + os.str(); for (auto& k : ks) { Ent& e = R.m[k.second]; std::string w = "\n" + k.first + (R.ro.count(k.second) ? "[RO]" : "") + " = " + e.val; auto l = R.loc.find(k.first); if (h.chain.empty() && l != R.loc.end()) w += strf("  (%s:%d)", l->second.first.c_str(), l->second.second); w += "\n"; size_t at = o.find(w); bool ok = at != std::string::npos; if (ok) o.erase(at + 1, w.size() - 1); REQUIRE(ok, "wrong-print", "after %s: %s is not printed", after, quote(w).c_str()); } REQUIRE(!h.chain.empty() || o == "\n", "wrong-print", "after %s: also printed: %s", after, quote(o).c_str()); } }
}
void observe_all(const char* after) { for (auto& h : hs) observe(h, after); }
void typed(const Hnd& h, const std::string& k, const std::string& v) {
  bool num = !v.empty() && v.find_first_not_of("-0123456789") == std::string::npos && v.rfind('-') == (v[0] == '-' ? 0 : std::string::npos) && v != "-";
  if (num) { int g = h.c->get_value<int>(k); REQUIRE(g == atoi(v.c_str()), "wrong-conversion", "%s reads as int %d", quote(v).c_str(), g); double d = h.c->get_value<double>(k, -7.5); REQUIRE(d == atof(v.c_str()), "wrong-conversion", "%s reads as double %g", quote(v).c_str(), d); }
  else if (v.empty() || isalpha((unsigned char)v[0])) { bool t = false; try { h.c->get_value<int>(k); } catch (kv::bad_config_block_cast_exception const&) { t = true; } REQUIRE(t, "bad-cast-not-reported", "%s was converted to int", quote(v).c_str()); REQUIRE(h.c->get_value<int>(k, 4711) == 4711, "wrong-default", "default not used for unconvertible %s", quote(v).c_str()); }
  std::string lo; for (char c : v) lo += (char)tolower(c); bool tr = lo == "true" || lo == "yes" || lo == "1", fa = lo == "false" || lo == "no" || lo == "0";
  if (tr || fa) REQUIRE(h.c->get_value<bool>(k) == tr, "wrong-conversion", "%s reads as the wrong bool", quote(v).c_str());
  else { bool t = false; try { h.c->get_value<bool>(k); } catch (kv::bad_config_block_cast_exception const&) { t = true; } REQUIRE(t, "bad-cast-not-reported", "%s was converted to bool", quote(v).c_str()); }
}
void run_c05() {
  kv::get_logger("warm"); kv::config_block::empty_config("warm")->get_value<bool>("x", false);
  { auto w = kv::config_block::empty_config(); w->set_value("w:b", true); w->get_value<bool>("w:b"); w->subblock_view("w")->available_values(); }
  roots.clear(); hs.clear(); uint64_t live0 = alloc_live(); uint64_t harness0 = 0; (void)harness0;
  { std::vector<Hnd> tmp; tmp.reserve(1); }
  bool oom = chance(600); uint32_t n = 4 + choose(25); int views = 0;
  { Scope s; roots.reserve(64); hs.reserve(64); }
  auto add = [&](kv::config_block_sptr c, int root, const Strs& chain) { Scope s; Hnd x; x.c = c; x.root = root; x.chain = chain; hs.push_back(x); };
  { auto c = kv::config_block::empty_config("top"); { Scope s; roots.push_back(Root()); } add(c, 0, Strs()); }
  for (uint32_t i = 0; i < n; ++i) {
    uint32_t hi = choose((uint32_t)hs.size()); kv::config_block_sptr c = hs[hi].c; int ri = hs[hi].root; std::string k = pick(KS), v = gval(), d = chance(600) ? "" : text(5, "xyz "); std::string f = full(hs[hi], k);
    auto const visible = keys(hs[hi]); if (!visible.empty() && chance(500)) { uint32_t j = choose((uint32_t)visible.size()); auto it = visible.begin(); std::advance(it, j); k = it->first; f = it->second; }
    uint32_t op = weighted({10, 4, 3, 3, 2, 3, 3, 2, 2, 2, 2}); bool ro = roots[ri].ro.count(f) != 0, has = roots[ri].m.count(f) != 0; std::string nm = pick(NS), what; bool failed = false, threw = false; std::string ex;
    std::string od; if (has) { Scope s; od = roots[ri].m[f].descr; }
    uint32_t kth = oom && chance(400) ? 1 + choose(12) : 0; int ti = (int)choose(3); bool bv = chance(500); int iv = (int)choose(100000) - 50000; double dv = (int)choose(2000) / 8.0;
    uint32_t hj = choose((uint32_t)hs.size()); kv::config_block_sptr c2 = hs[hj].c; std::shared_ptr<std::string> lf = std::make_shared<std::string>(pick(Strs{"/f1", "/f2"})); int line = (int)choose(90);
    auto arm = [&]() { if (kth) alloc_arm(kth); }; auto off = [&]() { failed = alloc_fired() && kth; alloc_disarm(); };
    struct G { std::function<void()> fn; ~G() { if (fn) fn(); } };
    kv::config_block_sptr nc; std::string gv;
    std::map<std::string, Ent> src; { Scope s; for (auto& e : keys(hs[hj])) src[e.first] = roots[hs[hj].root].m[e.second]; }
    // building an exception object needs memory itself (and its constructor is declared not to throw), so failures are injected into operations that are to succeed
    { Scope s; bool hit = false; for (auto& e : src) if (roots[ri].ro.count(full(hs[hi], e.first))) hit = true; std::string cv = has ? roots[ri].m[f].val : ""; bool isnum = !cv.empty() && cv.find_first_not_of("0123456789") == std::string::npos;
      if ((op <= 1 && ro) || (op == 2 && (ro || !has)) || (op == 5 && !has) || (op == 7 && hit) || (op == 9 && !isnum)) kth = 0; }
    where("operation %u on key %s", op, k.c_str()); ev("%u: h%u(%zu) op%u %s=%s d=%s kth=%u", i, hi, hs[hi].chain.size(), op, k.c_str(), quote(v).c_str(), quote(d).c_str(), kth);
    arm();
    try {
      switch (op) {
        case 0: if (d.empty()) c->set_value(k, v); else c->set_value(k, v, d); break;
        case 1: if (ti == 0) c->set_value(k, iv); else if (ti == 1) c->set_value(k, bv, d); else c->set_value(k, dv, d); break;
        case 2: c->unset_value(k); break;
        case 3: nc = c->subblock_view(nm); break;
        case 4: nc = c->subblock(nm); break;
        case 5: gv = c->get_value<std::string>(k); break;
        case 6: if (chance(250)) c->mark_read_only(k); else op = 99; break;
        case 7: if (hs[hj].root == ri && hs[hj].chain != hs[hi].chain) op = 99; else c->merge_config(c2); break;   // merging a block into a view of itself has no defined result
        case 8: if (hs[hi].chain.empty()) c->set_location(k, lf, line); else op = 99; break;
        case 9: iv = c->get_value<int>(k, 12345678); break;
        case 10: if (hs.size() > 2) op = 100; else op = 99; break;
      }
      off();
    } catch (std::bad_alloc const&) { off(); threw = true; ex = "bad_alloc"; REQUIRE(failed, "spurious-bad-alloc", "operation %u raised bad_alloc without an allocation failure", op); }
    catch (kv::config_block_exception const& e) { off(); threw = true; ex = e.what(); }
    catch (std::exception const& e) { off(); threw = true; ex = e.what(); if (!failed) violation("wrong-exception-type", "operation %u raised %s", op, e.what()); }
    if (threw) ev("  -> %s", ex.c_str());
    if (failed) { count("ops_with_alloc_failure"); nontrivial(); }
    Scope sc; Root& R = roots[ri];
    switch (op) {
      case 0: case 1: {
        std::string nv = op == 0 ? trim(v) : ti == 0 ? strf("%d", iv) : ti == 1 ? (bv ? "true" : "false") : ""; if (op == 1 && ti == 2) { std::ostringstream o; o << dv; nv = o.str(); }
        std::string nd = (op == 1 && ti == 0) ? "" : d;
        if (ro) REQUIRE(threw, "read-only-overwritten", "setting the read-only key %s succeeded", f.c_str());
        else if (!failed) REQUIRE(!threw, "spurious-set-failure", "setting %s raised: %s", f.c_str(), ex.c_str());
        if (!threw) { R.m[f].val = nv; if (!nd.empty() || !has) R.m[f].descr = nd; count("sets"); } else if (ro) probe("read_only_set_rejected"); break; }
      case 2: if (ro || !has) REQUIRE(threw, ro ? "read-only-unset" : "missing-key-not-reported", "unset of the %s key %s succeeded", ro ? "read-only" : "missing", f.c_str()); else if (!failed) REQUIRE(!threw, "spurious-unset-failure", "unset of %s raised: %s", f.c_str(), ex.c_str());
        if (!threw) { R.m.erase(f); R.loc.erase(f); probe("unset"); } break;
      case 3: if (threw) { REQUIRE(failed, "spurious-failure", "subblock_view raised: %s", ex.c_str()); break; } { Strs ch = hs[hi].chain; ch.push_back(nm); add(nc, ri, ch); ++views; if (ch.size() > 1) probe("view_of_view"); } break;
      case 4: if (threw) { REQUIRE(failed, "spurious-failure", "subblock raised: %s", ex.c_str()); break; } { Root nr; for (auto& e : keys(hs[hi])) { std::string kk = e.first; if (strip(nm, kk)) nr.m[kk] = R.m[e.second]; } roots.push_back(nr); add(nc, (int)roots.size() - 1, Strs()); count("copies"); } break;
      case 5: if (!has) REQUIRE(threw, "missing-key-not-reported", "reading the missing key %s succeeded", f.c_str()); else if (!failed) REQUIRE(!threw && gv == R.m[f].val, "wrong-value", "reading %s gave %s %s", f.c_str(), quote(gv).c_str(), ex.c_str()); else REQUIRE(threw || gv == R.m[f].val, "wrong-value", "reading %s under allocation failure gave %s", f.c_str(), quote(gv).c_str()); break;
      case 6: if (!failed) REQUIRE(!threw, "spurious-failure", "mark_read_only raised: %s", ex.c_str()); if (!threw) { R.ro.insert(f); probe("marked_read_only"); } break;
      case 7: {
        bool hit = false; for (auto& e : src) if (R.ro.count(full(hs[hi], e.first))) hit = true;
        if (!threw) { REQUIRE(!hit, "read-only-overwritten", "merging over a read-only key succeeded"); for (auto& e : src) { std::string g = full(hs[hi], e.first); bool h2 = R.m.count(g) != 0; R.m[g].val = e.second.val; if (!e.second.descr.empty() || !h2) R.m[g].descr = e.second.descr; } count("merges"); break; }
        REQUIRE(hit || failed, "spurious-merge-failure", "merge raised: %s", ex.c_str());
        // a merge that failed part way: every key is either as before or fully merged
        { Unscope u; for (auto& e : src) { std::string g = full(hs[hi], e.first); bool h2 = R.m.count(g) != 0; if (R.ro.count(g)) continue; bool now = hs[hi].c->has_value(e.first); if (!now) { REQUIRE(!h2, "merge-lost-key", "a failed merge removed %s", g.c_str()); continue; }
            std::string nv = hs[hi].c->get_value<std::string>(e.first), ndd = hs[hi].c->get_description(e.first); std::string newd = (!e.second.descr.empty() || !h2) ? e.second.descr : R.m[g].descr;
            if (nv == e.second.val && ndd == newd) { Scope s2; R.m[g].val = nv; R.m[g].descr = ndd; } else REQUIRE(h2 && nv == R.m[g].val && ndd == R.m[g].descr, "merge-half-done", "a failed merge left %s half changed", g.c_str()); } }
        probe("merge_failed_part_way"); break; }
      case 8: if (!threw) R.loc[k] = std::make_pair(*lf, line); else REQUIRE(failed, "spurious-failure", "set_location raised: %s", ex.c_str()); break;
      case 9: { if (!has) REQUIRE(iv == 12345678, "wrong-default", "default not used for missing %s", f.c_str()); break; }
      case 100: { // drop a handle: its root stays alive through remaining views
        uint32_t j = choose((uint32_t)hs.size()); ev("  drop h%u", j); { Unscope u; kv::config_block_sptr dead = hs[j].c; { Scope s2; hs.erase(hs.begin() + j); } } if (hs.empty()) { n = i; } probe("handle_dropped"); break; }
    }
    { Unscope u; c.reset(); c2.reset(); nc.reset();
      if (hs.empty()) break;
      std::string wh = strf("operation %u (%u on %s%s)", i, op, f.c_str(), threw ? ", failed" : "");
      if (i + 1 >= n || chance(100)) observe_all(wh.c_str()); else { observe(hs[std::min<size_t>(hi, hs.size() - 1)], wh.c_str()); observe(hs[choose((uint32_t)hs.size())], wh.c_str()); }
      if (chance(300)) { auto const vis = keys(hs[choose((uint32_t)hs.size())]); (void)vis; uint32_t q = choose((uint32_t)hs.size()); for (auto& e : keys(hs[q])) typed(hs[q], e.first, roots[hs[q].root].m[e.second].val); } }
    if (hs.size() > 9) break;
  }
  if (views) nontrivial();
  { Scope s; for (auto& h : hs) { Unscope u; h.c.reset(); } hs.clear(); roots.clear(); }
  alloc_check_all();
  (void)live0;
}
sim::Reg r05("C05", run_c05);
}
