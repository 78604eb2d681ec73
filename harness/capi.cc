// The C API: lifetime of handles (C12) and error reporting / memory safety (C13).
#include "h.h"
#include "vfs.h"
#include <vital/bindings/c/common.h>
#include <vital/bindings/c/error_handle.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/track.h>
#include <vital/bindings/c/track_set.h>
#include <vital/bindings/c/image.h>
#include <vital/bindings/c/image_container.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/algorithm_plugin_manager.h>
#include <vital/bindings/c/algo_def/convert_image.h>
#include <vital/bindings/c/algo_def/image_io.h>
#include <vital/bindings/c/algo_def/track_features.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_block.h>
#include <vital/io/camera_io.h>
#include <vital/io/track_set_io.h>
#include <vital/algo/convert_image.h>
#include <vital/algo/image_io.h>
#include <vital/algo/track_features.h>
#include <vital/algo/algorithm.txx>
#include <vital/types/track_set.h>
#include <vital/registrar.h>
#include <vital/logger/logger.h>
#include <stdexcept>
#include <iostream>
using namespace h;
namespace kv = kwiver::vital;
typedef std::map<std::string, std::string> Map;
namespace {
struct Quiet : public std::streambuf { std::streambuf* old; Quiet() { old = std::cerr.rdbuf(this); } ~Quiet() { std::cerr.rdbuf(old); } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } int overflow(int c) override { return c == EOF ? 0 : c; } };
// ---- algorithm implementations whose behaviour is chosen by their configuration ----
void misbehave(std::string const& q) { if (q == "throw") throw std::runtime_error("algorithm failed"); if (q == "char") throw "algorithm failed"; if (q == "int") throw 42; }
kv::image_container_sptr make_ic(int w) { return kv::image_container_sptr(new kv::simple_image_container(kv::image((size_t)w, 2, 1))); }
template <class Self, class Def> struct Impl : public kv::algorithm_impl<Self, Def> {
  std::string n; int p = 0; std::string q; std::string impl_name() const override { return n; }
  kv::config_block_sptr get_configuration() const override { kv::config_block_sptr c = kv::algorithm::get_configuration(); c->set_value("p", p, "number"); c->set_value("q", q); return c; }
  void set_configuration(kv::config_block_sptr c) override { p = c->get_value<int>("p", p); q = c->get_value<std::string>("q", q); }
  bool check_configuration(kv::config_block_sptr c) const override { return c->get_value<int>("p", 0) >= 0; } };
struct ImplC : public Impl<ImplC, kv::algo::convert_image> { kv::image_container_sptr convert(kv::image_container_sptr i) const override { misbehave(q); if (q == "null") return kv::image_container_sptr(); if (q == "same") return i; return make_ic(p + 3); } };
struct ImplI : public Impl<ImplI, kv::algo::image_io> { kv::image_container_sptr load_(std::string const&) const override { misbehave(q); if (q == "null") return kv::image_container_sptr(); return make_ic(p + 3); } void save_(std::string const&, kv::image_container_sptr) const override { misbehave(q); } };
struct ImplT : public Impl<ImplT, kv::algo::track_features> { kv::track_set_sptr track(kv::track_set_sptr t, unsigned int f, kv::image_container_sptr, kv::image_container_sptr m) const override { misbehave(q); if (q == "null") return kv::track_set_sptr(); if (q == "same") return t; std::vector<kv::track_sptr> v; for (unsigned i = 0; i < f + (m ? 1 : 0); ++i) v.push_back(kv::track_sptr(new kv::track())); return kv::track_set_sptr(new kv::simple_track_set(v)); } };
struct TF { const char* type; vital_algorithm_t* (*create)(char const*); void (*destroy)(vital_algorithm_t*, vital_error_handle_t*); void (*names)(unsigned*, char***); void (*getc)(char const*, vital_algorithm_t*, vital_config_block_t*, vital_error_handle_t*); void (*setc)(char const*, vital_config_block_t*, vital_algorithm_t**, vital_error_handle_t*); bool (*check)(char const*, vital_config_block_t*, vital_error_handle_t*); vital_algorithm_t* (*clone)(vital_algorithm_t*, vital_error_handle_t*); };
#define TFI(t) { #t, vital_algorithm_##t##_create, vital_algorithm_##t##_destroy, vital_algorithm_##t##_registered_names, vital_algorithm_##t##_get_type_config, vital_algorithm_##t##_set_type_config, vital_algorithm_##t##_check_type_config, vital_algorithm_##t##_clone }
const TF tf[3] = {TFI(convert_image), TFI(image_io), TFI(track_features)};

// ---- model ----
enum Kind { CFG, CAM, CMAP, TRK, TSET, IMG, IC, ALG };
const char* KN[] = {"config", "camera", "camera_map", "track", "track_set", "image", "image_container", "algorithm"};
struct Ent { std::string v, d; };
struct Buf { std::vector<uint8_t> px; };
struct Obj { Kind k; void* p; int refs; int id;
  int root = -1; std::string prefix, name;                    // CFG
  std::string text;                                           // CAM: what is written for it; TSET from file: text
  std::vector<std::pair<unsigned, int>> cams;                 // CMAP: frame -> object id
  size_t n = 0; bool from_file = false;                       // TSET
  int buf = -1; size_t w = 0, hgt = 0, dep = 0; ptrdiff_t ws = 0, hs = 0, ds = 0; unsigned char* first = nullptr;   // IMG, IC
  int type = 0, ap = 0; std::string impl, q; };               // ALG
std::vector<Obj> O; std::vector<std::map<std::string, Ent>> roots; std::vector<std::set<std::string>> ros; std::vector<Buf> bufs;
bool oom, faults_on; uint32_t kth; bool oomed; vital_error_handle_t* eh; vital_error_handle_t* kept; int eh_mode; int eh_code; std::string eh_msg; bool eh_null_msg; std::string opname; int serial;
template <class T> T* P(int i) { return (T*)O[i].p; }
int add(Kind k, void* p) { Obj o; o.k = k; o.p = p; o.refs = 1; o.id = (int)O.size(); O.push_back(o); return o.id; }
int find(Kind k, void* p) { for (size_t i = O.size(); i-- > 0;) if (O[i].k == k && O[i].p == p) return (int)i; return -1; }
int pick_live(Kind k) { std::vector<int> v; for (auto& o : O) if (o.k == k && o.refs > 0) v.push_back(o.id); return v.empty() ? -1 : v[choose((uint32_t)v.size())]; }
int pick_dead(Kind k) { std::vector<int> v; for (auto& o : O) { if (o.k != k || o.refs > 0) continue; bool reused = false; for (auto& x : O) if (x.id != o.id && x.p == o.p && x.refs > 0) reused = true; if (!reused) v.push_back(o.id); } return v.empty() ? -1 : v[choose((uint32_t)v.size())]; }
bool in_map(int id) { for (auto& o : O) if (o.k == CMAP && o.refs > 0) for (auto& c : o.cams) if (c.second == id) return true; return false; }
// run one C function: nothing may escape from it
template <class F> void call(F f) {
  oomed = false; const char* esc = nullptr; g_step_cap = g_steps + 60000000;   // each call is to end
  { Unscope u; if (kth) alloc_arm(kth); try { f(); } catch (std::exception const& e) { esc = "a C++ exception"; } catch (...) { esc = "a foreign exception"; } if (kth) { oomed = alloc_fired(); alloc_disarm(); } }
  if (esc) violation("exception-escaped", "%s: %s left a C function", opname.c_str(), esc);
  kth = 0; if (oomed) count("calls_with_alloc_failure"); }
// arm an allocation failure for the next call (only where the call is to succeed: building most exceptions needs memory in constructors declared not to throw)
void arm() { if (oom && chance(350)) kth = 1 + choose(14); }
void begin(const char* what, bool takes_eh) {
  opname = what; where("%s", what); kth = 0; eh_mode = takes_eh ? (int)weighted({2, 2, 3}) : 0; eh = nullptr;
  if (eh_mode == 1) { Unscope u; eh = vital_eh_new(); } else if (eh_mode == 2) { if (!kept) { Unscope u; kept = vital_eh_new(); } eh = kept; }
  if (eh) { eh_code = eh->error_code; eh_null_msg = !eh->message; eh_msg = eh->message ? eh->message : ""; if (eh_mode == 1) REQUIRE(eh_code == 0 && eh_null_msg, "eh-not-empty", "a new error handle has code %d", eh_code); } }
// code 0: the call must have succeeded; exact: exact message expected
void finish(int code, const char* exact = nullptr, bool any_code = false) {
  if (eh) {
    if (!code) { REQUIRE(eh->error_code == eh_code && (!eh->message) == eh_null_msg && (!eh->message || eh_msg == eh->message), "spurious-error", "%s succeeded but the error handle says %d %s", opname.c_str(), eh->error_code, eh->message ? quote(eh->message).c_str() : ""); }
    else { REQUIRE(any_code ? eh->error_code != 0 : eh->error_code == code, "error-not-reported", "%s failed but the error code is %d, expected %d", opname.c_str(), eh->error_code, code); std::string m = eh->message ? eh->message : "";
      if (!oomed) { REQUIRE(!m.empty(), "error-without-message", "%s failed without a message", opname.c_str()); if (exact) REQUIRE(m == exact, "wrong-message", "%s: message %s, expected %s", opname.c_str(), quote(m).c_str(), quote(exact).c_str()); } count("errors_reported"); }
    if (eh_mode == 1) { Unscope u; vital_eh_destroy(eh); } else if (chance(100)) { Unscope u; vital_eh_destroy(kept); kept = nullptr; } }
  eh = nullptr; }
bool reported() { return eh && eh->error_code != 0 && (eh->error_code != eh_code || eh_null_msg || !eh->message || eh_msg != eh->message || eh_mode == 1); }
std::string take(vital_string_t* s) { REQUIRE(s->str && strlen(s->str) == s->length, "malformed-string", "%s returned a string of length %zu that ends after %zu", opname.c_str(), s->length, s->str ? strlen(s->str) : 0); std::string r(s->str, s->length); Unscope u; vital_string_free(s); return r; }
std::string full(int i, std::string const& k) { return O[i].prefix + k; }
std::map<std::string, Ent> shown(int i) { std::map<std::string, Ent> r; for (auto& e : roots[O[i].root]) if (e.first.compare(0, O[i].prefix.size(), O[i].prefix) == 0) r[e.first.substr(O[i].prefix.size())] = e.second; return r; }
const Strs KS = {"a", "b", "a:x", "a:y", "a:b:x", "b:x", "a:b:y:z"}, NS = {"a", "b", "a:b"};
std::string val() { switch (choose(4)) { case 0: return text(5, "abc1"); case 1: return "true"; case 2: return std::string(15 + choose(3), 'v'); default: if (chance(30)) { probe("long_value"); return std::string(1000 + choose(3000), 'l') + text(5, "abc1"); } return std::string(choose(70), 'w'); } }
std::set<std::string> list_of(vital_config_block_t* c) { unsigned n = 77; char** ks = nullptr; if (oom && chance(150)) kth = 1 + choose(40); call([&] { vital_config_block_available_values(c, &n, &ks); }); if (oomed) { REQUIRE(n == 77 ? !ks : !n || ks, "partial-result", "available_values failed but left a list behind"); if (n == 77) call([&] { vital_config_block_available_values(c, &n, &ks); }); } std::set<std::string> r; if (n == 77) violation("no-list", "available_values of a valid handle returned nothing"); for (unsigned i = 0; i < n; ++i) r.insert(ks[i]); REQUIRE(r.size() == n, "duplicate-key", "available_values lists a key twice"); Unscope u; if (chance(500)) vital_common_free_string_list(n, ks); else vital_free_double_pointer(n, (void**)ks); return r; }
std::string slurp(const char* f) { std::string d; if (!vfs::get(f, &d)) violation("not-written", "%s reported success but there is no file", opname.c_str()); return d; }
std::string cam_text(int i) { opname = "camera_write_krtd_file"; vital_error_handle_t* e; call([&] { e = vital_eh_new(); vital_camera_write_krtd_file(P<vital_camera_t>(i), "/tmpd/cam.krtd", e); }); REQUIRE(e->error_code == 0, "handle-invalid", "camera #%d: %s", i, e->message ? e->message : ""); { Unscope u; vital_eh_destroy(e); } return slurp("/tmpd/cam.krtd"); }
// everything observable through a live handle equals the model
void check(int i) {
  Obj& o = O[i]; opname = strf("checking %s #%d", KN[o.k], i); where("%s", opname.c_str()); kth = 0;
  switch (o.k) {
    case CFG: { auto m = shown(i); auto got = list_of(P<vital_config_block_t>(i)); std::set<std::string> want; for (auto& e : m) want.insert(e.first); REQUIRE(got == want, "wrong-contents", "config #%d lists {%s}, expected {%s}", i, join(Strs(got.begin(), got.end())).c_str(), join(Strs(want.begin(), want.end())).c_str());
      for (auto& e : m) { vital_string_t *v, *d; call([&] { v = vital_config_block_get_value(P<vital_config_block_t>(i), e.first.c_str()); d = vital_config_block_get_description(P<vital_config_block_t>(i), e.first.c_str()); }); REQUIRE(v && d, "wrong-contents", "config #%d: %s cannot be read", i, e.first.c_str()); std::string sv = take(v), sd = take(d); REQUIRE(sv == e.second.v && sd == e.second.d, "wrong-contents", "config #%d: %s = %s, expected %s", i, e.first.c_str(), quote(sv).c_str(), quote(e.second.v).c_str()); }
      break; }
    case CAM: if (!faults_on) { std::string t = cam_text(i); REQUIRE(t == o.text, "wrong-contents", "camera #%d is written as %s, expected %s", i, quote(t).c_str(), quote(o.text).c_str()); } break;
    case CMAP: { size_t n; call([&] { n = vital_camera_map_size(P<vital_camera_map_t>(i), nullptr); }); REQUIRE(n == o.cams.size(), "wrong-contents", "camera map #%d has %zu cameras, expected %zu", i, n, o.cams.size()); break; }
    case TRK: { size_t n; bool e; vital_error_handle_t* h; call([&] { h = vital_eh_new(); n = vital_track_size(P<vital_track_t>(i), h); e = vital_track_empty(P<vital_track_t>(i), h); }); REQUIRE(h->error_code == 0 && n == 0 && e, "handle-invalid", "track #%d: %s", i, h->message ? h->message : "wrong size"); Unscope u; vital_eh_destroy(h); break; }
    case TSET: { size_t n; vital_error_handle_t* h; call([&] { h = vital_eh_new(); n = vital_trackset_size(P<vital_trackset_t>(i), h); }); REQUIRE(h->error_code == 0 && n == o.n, "wrong-contents", "track set #%d has %zu tracks, expected %zu", i, n, o.n);
      if (o.from_file && !faults_on) { call([&] { vital_trackset_write_track_file(P<vital_trackset_t>(i), "/tmpd/tracks", h); }); REQUIRE(h->error_code == 0, "handle-invalid", "track set #%d: %s", i, h->message ? h->message : ""); std::string t = slurp("/tmpd/tracks"); if (o.text.empty()) o.text = t; REQUIRE(t == o.text, "wrong-contents", "track set #%d changed", i); } Unscope u; vital_eh_destroy(h); break; }
    case IMG: case IC: { vital_image_t* im = P<vital_image_t>(i); bool own = false; if (o.k == IC) { size_t w, hh, d, sz; auto* c = P<vital_image_container_t>(i); call([&] { w = vital_image_container_width(c); hh = vital_image_container_height(c); d = vital_image_container_depth(c); sz = vital_image_container_size(c); im = vital_image_container_get_image(c); }); REQUIRE(im, "handle-invalid", "image container #%d gives no image", i); own = true; REQUIRE(w == o.w && hh == o.hgt && d == o.dep, "wrong-contents", "image container #%d is %zux%zux%zu", i, w, hh, d); }
      size_t w, hh, d; unsigned char* f; call([&] { w = vital_image_width(im); hh = vital_image_height(im); d = vital_image_depth(im); f = vital_image_first_pixel(im); }); REQUIRE(w == o.w && hh == o.hgt && d == o.dep, "wrong-contents", "image #%d is %zux%zux%zu, expected %zux%zux%zu", i, w, hh, d, o.w, o.hgt, o.dep);
      if (o.buf >= 0) { ptrdiff_t a, b, c; call([&] { a = (ptrdiff_t)vital_image_w_step(im); b = (ptrdiff_t)vital_image_h_step(im); c = (ptrdiff_t)vital_image_d_step(im); }); REQUIRE(f == o.first && a == o.ws && b == o.hs && c == o.ds, "wrong-contents", "image #%d no longer refers to the same pixels", i);
        for (size_t x = 0; x < w; ++x) for (size_t y = 0; y < hh; ++y) for (size_t z = 0; z < d; ++z) { int g; call([&] { g = d == 1 && (x & 1) ? vital_image_get_pixel2(im, (unsigned)x, (unsigned)y) : vital_image_get_pixel3(im, (unsigned)x, (unsigned)y, (unsigned)z); }); int e = bufs[o.buf].px[x * o.ws + y * o.hs + z * o.ds]; REQUIRE(g == e, "wrong-contents", "pixel (%zu,%zu,%zu) of image #%d is %d, expected %d", x, y, z, i, g, e); } }
      if (own) { Unscope u; vital_image_destroy(im); } break; }
    case ALG: { vital_string_t *t, *n; auto* a = P<vital_algorithm_t>(i); call([&] { t = vital_algorithm_type_name(a, nullptr); n = vital_algorithm_impl_name(a, nullptr); }); REQUIRE(t && n, "handle-invalid", "algorithm #%d has no name", i); std::string st = take(t), sn = take(n); REQUIRE(st == tf[o.type].type && sn == o.impl, "wrong-contents", "algorithm #%d is %s:%s, expected %s:%s", i, st.c_str(), sn.c_str(), tf[o.type].type, o.impl.c_str());
      vital_config_block_t* c; call([&] { c = vital_algorithm_get_impl_configuration(a, nullptr); }); REQUIRE(c, "handle-invalid", "algorithm #%d has no configuration", i); vital_string_t *p, *q; call([&] { p = vital_config_block_get_value(c, "p"); q = vital_config_block_get_value(c, "q"); }); REQUIRE(p && q, "wrong-contents", "configuration of algorithm #%d", i); std::string sp = take(p), sq = take(q); REQUIRE(sp == strf("%d", o.ap) && sq == o.q, "wrong-contents", "algorithm #%d has p=%s q=%s, expected %d %s", i, sp.c_str(), sq.c_str(), o.ap, o.q.c_str()); Unscope u; vital_config_block_destroy(c, nullptr); break; }
  } }
// a handle that is no longer valid (or NULL) must be rejected by every function, without effect
void stale(Kind k, void* p) {
  const char* w = p ? "using a destroyed handle" : "using a NULL handle"; begin(strf("%s (%s)", w, KN[k]).c_str(), true); bool bad = false; int which = (int)choose(5); bool expect_eh = true; ev("stale %s %d", KN[k], which);
  switch (k) {
    case CFG: { auto* c = (vital_config_block_t*)p; vital_string_t* s = nullptr; vital_config_block_t* nb = nullptr; bool b = false; unsigned n = 5; char** ks = nullptr; expect_eh = which == 3 || which == 4;
      call([&] { switch (which) { case 0: s = vital_config_block_get_value(c, "a"); vital_config_block_set_value(c, "a", "b"); break; case 1: nb = vital_config_block_subblock_view(c, "a"); if (!nb) nb = vital_config_block_subblock(c, "a"); break; case 2: b = vital_config_block_has_value(c, "a") || vital_config_block_is_read_only(c, "a"); vital_config_block_available_values(c, &n, &ks); break; case 3: b = vital_config_block_get_value_bool(c, "a", eh); break; case 4: vital_config_block_file_write(c, "/tmpd/stale.conf", eh); break; } });
      bad = s || nb || b || ks || vfs::exists("/tmpd/stale.conf"); break; }
    case CAM: { auto* c = (vital_camera_t*)p; if (which < 3) { call([&] { vital_camera_write_krtd_file(c, "/tmpd/stale.krtd", eh); }); bad = vfs::exists("/tmpd/stale.krtd"); } else { unsigned f = 1; vital_camera_map_t* m; expect_eh = false; call([&] { m = vital_camera_map_new(1, &f, &c); }); bad = m != nullptr; } break; }
    case CMAP: { auto* c = (vital_camera_map_t*)p; size_t n = 0; unsigned* f = nullptr; vital_camera_t** cs = nullptr; if (which < 2) call([&] { n = vital_camera_map_size(c, eh); }); else call([&] { vital_camera_map_get_map(c, &n, &f, &cs, eh); }); bad = n || f || cs; break; }
    case TRK: { auto* t = (vital_track_t*)p; size_t n = 0; bool e = true; vital_trackset_t* s = nullptr; if (which < 2) call([&] { n = vital_track_size(t, eh); }); else if (which < 4) call([&] { e = vital_track_empty(t, eh); }); else { expect_eh = false; call([&] { s = vital_trackset_new(1, &t); }); } bad = n || !e || s; break; }
    case TSET: { auto* t = (vital_trackset_t*)p; size_t n = 0; if (which < 2) call([&] { n = vital_trackset_size(t, eh); }); else call([&] { vital_trackset_write_track_file(t, "/tmpd/stale.tracks", eh); }); bad = n || vfs::exists("/tmpd/stale.tracks"); break; }
    case IC: { auto* c = (vital_image_container_t*)p; size_t n = 0; vital_image_t* im = nullptr; expect_eh = false; call([&] { n = vital_image_container_size(c) + vital_image_container_width(c) + vital_image_container_height(c) + vital_image_container_depth(c); im = vital_image_container_get_image(c); }); bad = n || im || vital_image_container_to_sptr(c); break; }
    case ALG: { auto* a = (vital_algorithm_t*)p; vital_string_t* s = nullptr; vital_config_block_t* c = nullptr; vital_algorithm_t* n = nullptr; int t = (int)choose(3); if (!p && which == 3) which = 0;
      switch (which) { case 0: call([&] { s = vital_algorithm_type_name(a, eh); }); break; case 1: call([&] { s = vital_algorithm_impl_name(a, eh); }); break; case 2: call([&] { c = vital_algorithm_get_impl_configuration(a, eh); }); break; case 3: call([&] { n = tf[t].clone(a, eh); }); break; default: { int i = pick_live(IC); vital_image_container_t* r = nullptr; if (i < 0) { expect_eh = false; break; } call([&] { r = vital_algorithm_convert_image_convert(a, P<vital_image_container_t>(i), eh); }); bad = r; } }
      bad = bad || s || c || n; break; }
    case IMG: expect_eh = false; break;
  }
  REQUIRE(!bad, "stale-handle-accepted", "%s was accepted (%d)", opname.c_str(), which); finish(expect_eh ? -1 : 0); probe("stale_handle_rejected"); }
void destroy(int i) {
  Obj& o = O[i]; begin(strf("destroying %s", KN[o.k]).c_str(), o.k != IMG); ev("destroy %s #%d refs=%d", KN[o.k], i, o.refs);
  call([&] { switch (o.k) { case CFG: vital_config_block_destroy(P<vital_config_block_t>(i), eh); break; case CAM: vital_camera_destroy(P<vital_camera_t>(i), eh); break; case CMAP: vital_camera_map_destroy(P<vital_camera_map_t>(i), eh); break; case TRK: vital_track_destroy(P<vital_track_t>(i), eh); break; case TSET: vital_trackset_destroy(P<vital_trackset_t>(i), eh); break; case IMG: vital_image_destroy(P<vital_image_t>(i)); break; case IC: vital_image_container_destroy(P<vital_image_container_t>(i), eh); break; case ALG: tf[o.type].destroy(P<vital_algorithm_t>(i), eh); break; } });
  finish(0); --o.refs; if (o.refs > 0) { probe("shared_handle_kept"); if (o.refs < 6 || chance(60)) check(i); } else if (o.k != IMG && o.k != CAM && chance(500)) stale(o.k, o.p); else if (o.k == CAM && chance(500)) { if (in_map(i)) probe("camera_only_in_map"); stale(CAM, o.p); } }
void image_model(int i, int src) { Obj &o = O[i], &s = O[src]; o.buf = s.buf; o.w = s.w; o.hgt = s.hgt; o.dep = s.dep; o.ws = s.ws; o.hs = s.hs; o.ds = s.ds; o.first = s.first; }
// adopt a handle returned by the API: a new object, or one more reference to a known one
int adopt(Kind k, void* p) { int i = find(k, p); if (i >= 0 && O[i].refs > 0) { ++O[i].refs; probe("returned_again"); return i; } return add(k, p); }
int new_buffer(int i) { // take over the pixels of a freshly made image
  Obj& o = O[i]; vital_image_t* im = P<vital_image_t>(i); call([&] { o.w = vital_image_width(im); o.hgt = vital_image_height(im); o.dep = vital_image_depth(im); o.ws = (ptrdiff_t)vital_image_w_step(im); o.hs = (ptrdiff_t)vital_image_h_step(im); o.ds = (ptrdiff_t)vital_image_d_step(im); o.first = vital_image_first_pixel(im); });
  Buf b; b.px.resize(o.w * o.hgt * o.dep); for (size_t j = 0; j < b.px.size(); ++j) b.px[j] = o.first[j]; bufs.push_back(b); o.buf = (int)bufs.size() - 1; return i; }
void paint(int i) { Obj& o = O[i]; if (o.buf < 0 || bufs[o.buf].px.empty()) return; auto& px = bufs[o.buf].px; uint32_t n = 1 + choose(4); for (uint32_t j = 0; j < n; ++j) { size_t x = choose((uint32_t)o.w), y = choose((uint32_t)o.hgt), z = choose((uint32_t)o.dep); size_t at = x * o.ws + y * o.hs + z * o.ds; if (at >= px.size()) continue; px[at] = (uint8_t)choose(256); { Unscope u; o.first[at] = px[at]; } } }
std::string krtd(int s) { return strf("%d 0 %d\n0 2 7\n0 0 1\n\n1 0 0\n0 1 0\n0 0 1\n\n%d 2 3\n\n0\n", 100 + s, s, s); }
std::string tracks_text(int n) { std::string r; for (int t = 0; t < n; ++t) for (int f = 0; f <= t % 3; ++f) r += strf("%d %d %d %d 1 1 0 0 0 0\n", t, f, 10 * t + serial, f); return r; }
// outcome of the C++ function behind a file call, on a healthy file system: 0 or the documented code, and the message
struct Std { std::string name; const char *app, *ver, *prefix; bool merge; };
int cpp_cfg(std::string const& f, std::string& msg, Map& m, const Std* st = nullptr) { Unscope u; try { auto c = st ? kv::read_config_file(st->name, st->app ? st->app : "", st->ver ? st->ver : "", st->prefix ? st->prefix : "", st->merge) : kv::read_config_file(f); for (auto const& k : c->available_values()) { std::string v = c->get_value<std::string>(k); Scope s; m[k] = v; } return 0; } catch (kv::config_file_not_found_exception const& e) { Scope s; msg = e.what(); return 1; } catch (kv::config_file_not_read_exception const& e) { Scope s; msg = e.what(); return 2; } catch (kv::config_file_not_parsed_exception const& e) { Scope s; msg = e.what(); return 3; } catch (std::exception const& e) { Scope s; msg = std::string("Caught exception in C interface: ") + e.what(); return -1; } }
template <class F> int cpp(F f, std::string& msg) { Unscope u; try { f(); return 0; } catch (std::exception const& e) { Scope s; msg = std::string("Caught exception in C interface: ") + e.what(); return -1; } }
// a path of some hundred characters
std::string deep() { std::string s = "/c/"; for (int i = 0; i < 40; ++i) s += "directory/"; return s; }
// storage faults during one call
void storm(bool w) { faults_on = true; vfs::hard = 0; vfs::fired.clear(); vfs::swarm(!w, w, true); }
void calm() { vfs::faults_off(); faults_on = false; }

void op_config() {
  int i = pick_live(CFG); uint32_t o = i < 0 ? 0 : weighted({3, 6, 4, 3, 3, 3, 2, 2, 3, 3}); std::string k = pick(KS), v = val(), d = chance(500) ? "" : text(4, "de"); auto* c = i < 0 ? nullptr : P<vital_config_block_t>(i); std::string f = i < 0 ? "" : full(i, k); ev("config op %u #%d %s", o, i, k.c_str());
  if (i >= 0 && chance(400)) { auto m = shown(i); if (!m.empty()) { uint32_t j = choose((uint32_t)m.size()); auto it = m.begin(); std::advance(it, j); k = it->first; f = full(i, k); } }
  auto* R = i < 0 ? nullptr : &roots[O[i].root]; bool has = R && R->count(f); bool ro = R && ros[O[i].root].count(f);
  switch (o) {
    case 0: { int named = (int)choose(3); std::string nm = pick(Strs{"", "n", "a longer name for a block"}); begin("config_block_new", false); arm(); vital_config_block_t* p; call([&] { p = named ? vital_config_block_new_named(nm.c_str()) : vital_config_block_new(); }); if (!p) { REQUIRE(oomed, "not-created", "no config block created"); break; }
      int n = add(CFG, p); roots.push_back(std::map<std::string, Ent>()); ros.push_back(std::set<std::string>()); O[n].root = (int)roots.size() - 1; begin("config_block_get_name", false); vital_string_t* s; call([&] { s = vital_config_block_get_name(p); }); REQUIRE(s, "wrong-name", "no name"); std::string g = take(s); REQUIRE(g == (named ? nm : ""), "wrong-name", "name is %s", quote(g).c_str()); break; }
    case 1: { begin("config_block_set_value", false); if (!ro) arm(); bool wd = !d.empty(); call([&] { if (wd) vital_config_block_set_value_descr(c, k.c_str(), v.c_str(), d.c_str()); else vital_config_block_set_value(c, k.c_str(), v.c_str()); }); if (ro) { probe("read_only_set_rejected"); break; }
      if (oomed) { vital_string_t* s; call([&] { s = vital_config_block_get_value(c, k.c_str()); }); std::string g = s ? take(s) : ""; if (!s && !has) break; if (has && g == (*R)[f].v && g != v) break; REQUIRE(g == v, "wrong-contents", "setting %s under memory shortage left %s", k.c_str(), quote(g).c_str()); vital_string_t* sd; call([&] { sd = vital_config_block_get_description(c, k.c_str()); }); std::string gd = sd ? take(sd) : ""; REQUIRE(gd == d || (has && gd == (*R)[f].d), "wrong-contents", "description of %s after a failed set", k.c_str()); (*R)[f].v = g; (*R)[f].d = gd; break; }
      (*R)[f].v = v; if (wd || !has) (*R)[f].d = d; break; }
    case 2: { begin("config_block_get_value", true); int t = (int)choose(5); vital_string_t* s = nullptr; bool b = false; 
      if (t == 0) { finish(0); begin("config_block_get_value", false); if (has) arm(); call([&] { s = vital_config_block_get_value(c, k.c_str()); }); REQUIRE(!!s == has || oomed, "wrong-contents", "get_value of %s", k.c_str()); if (s) { std::string g = take(s); REQUIRE(has && g == (*R)[f].v, "wrong-contents", "get_value of %s gave %s", k.c_str(), quote(g).c_str()); } break; }
      if (t == 1) { finish(0); begin("config_block_get_value_default", false); /* declared not to throw: running out of memory there ends the program */ call([&] { s = vital_config_block_get_value_default(c, k.c_str(), "dflt"); }); REQUIRE(s || oomed, "wrong-contents", "get_value_default of %s", k.c_str()); if (s) { std::string g = take(s); REQUIRE(g == (has ? (*R)[f].v : "dflt") || oomed, "wrong-contents", "get_value_default of %s gave %s", k.c_str(), quote(g).c_str()); } break; }
      if (t == 2) { bool tr = has && ((*R)[f].v == "true" || (*R)[f].v == "1"), ok = tr; call([&] { b = vital_config_block_get_value_bool(c, k.c_str(), eh); }); REQUIRE(b == tr, "wrong-contents", "get_value_bool of %s", k.c_str()); finish(ok ? 0 : -1); break; }
      if (t == 3) { bool tr = has && ((*R)[f].v == "true" || (*R)[f].v == "1"); bool df = chance(500); call([&] { b = vital_config_block_get_value_default_bool(c, k.c_str(), df, eh); }); REQUIRE(b == (tr || df), "wrong-contents", "get_value_default_bool of %s gave %d", k.c_str(), b); finish(0); break; }
      finish(0); begin("config_block_has_value", false); bool r; call([&] { b = vital_config_block_has_value(c, k.c_str()); r = vital_config_block_is_read_only(c, k.c_str()); }); REQUIRE(b == has && r == ro, "wrong-contents", "has_value/is_read_only of %s gave %d %d", k.c_str(), b, r); break; }
    case 3: { begin("config_block_subblock_view", false); std::string nm = chance(100) ? "" : pick(NS); arm(); vital_config_block_t* p; call([&] { p = vital_config_block_subblock_view(c, nm.c_str()); }); if (!p) { REQUIRE(oomed, "not-created", "no view created"); break; } int n = add(CFG, p); O[n].root = O[i].root; O[n].prefix = O[i].prefix + nm + ":"; break; }
    case 4: { begin("config_block_subblock", false); std::string nm = chance(100) ? "" : pick(NS); arm(); vital_config_block_t* p; call([&] { p = vital_config_block_subblock(c, nm.c_str()); }); if (!p) { REQUIRE(oomed, "not-created", "no subblock created"); break; } std::map<std::string, Ent> m; for (auto& e : shown(i)) if (e.first.compare(0, nm.size() + 1, nm + ":") == 0) m[e.first.substr(nm.size() + 1)] = e.second; int n = add(CFG, p); roots.push_back(m); ros.push_back(std::set<std::string>()); O[n].root = (int)roots.size() - 1; break; }
    case 5: { begin("config_block_unset_value", false); call([&] { vital_config_block_unset_value(c, k.c_str()); }); if (has && !ro) R->erase(f); break; }
    case 6: { int j = pick_live(CFG); if (O[i].root == O[j].root) break; auto m = shown(j); for (auto& e : m) if (ros[O[i].root].count(full(i, e.first))) return; begin("config_block_merge_config", false); call([&] { vital_config_block_merge_config(c, P<vital_config_block_t>(j)); }); for (auto& e : m) { std::string g = full(i, e.first); bool h2 = R->count(g); (*R)[g].v = e.second.v; if (!e.second.d.empty() || !h2) (*R)[g].d = e.second.d; } break; }
    case 7: { if (!chance(400)) break; begin("config_block_mark_read_only", false); call([&] { vital_config_block_mark_read_only(c, k.c_str()); }); ros[O[i].root].insert(f); break; }
    case 8: { std::string path = pick(Strs{"/c/out.conf", "/c/new/deep/out.conf", "/c/dir", "/c/file/x.conf"}); begin("config_block_file_write", true); auto m = shown(i); bool bad = m.empty() || path == "/c/dir" || path == "/c/file/x.conf"; bool fl = chance(400); if (fl) storm(true); call([&] { vital_config_block_file_write(c, path.c_str(), eh); }); bool hit = vfs::hard > 0; calm();
      bool rep = reported(); if (bad && !hit) { finish(1); break; } if (!eh || hit) { if (eh && rep) finish(1, nullptr, true); else { if (eh) finish(0); } if (!(eh && !rep && !bad)) break; } else if (!rep) finish(0); else finish(0);
      { bool odd = false; for (auto& e : m) odd |= e.first.empty() || e.first[0] == ':'; if (odd) { probe("unrepresentable_key_written"); break; } }   // values of a view named by an empty key: the file format has no names for them
      std::string msg; Map got; int rc = cpp_cfg(path, msg, got); REQUIRE(rc == 0, "wrong-file", "a written configuration cannot be read: %s\n%s", msg.c_str(), quote(slurp(path.c_str())).c_str()); for (auto& e : m) { if (e.second.v.empty()) continue; REQUIRE(got.count(e.first) && got[e.first] == e.second.v, "wrong-file", "written configuration lacks %s", e.first.c_str()); } break; }
    case 9: { std::string path = pick(Strs{"/c/good.conf", "/c/bad.conf", "/c/missing.conf", "/c/dir", "/c/noaccess.conf", "/c/out.conf", "/c/incl.conf"}); if (chance(60)) path = deep() + (chance(500) ? "missing.conf" : "bad.conf"); else if (chance(30)) { path = "/c/big.conf"; probe("large_config"); } std::string msg; Map want; bool std_ = chance(350); Std st{pick(Strs{"std.conf", "std.conf", "one.conf", "ver.conf", "brk.conf", "none.conf", path}), chance(150) ? nullptr : "app", chance(350) ? nullptr : "1.0", chance(200) ? nullptr : "/p", chance(500)}; if (std_) path = "standard location of " + st.name; bool dead = chance(120); if (dead) { vfs::F.budget = 1000; vfs::F.read_err = 1000; vfs::hard = 0; } int rc = cpp_cfg(path, msg, want, std_ ? &st : nullptr); if (dead && vfs::hard) { probe("persistent_read_error"); rc == 2 ? probe("not_read_reported") : (void)0; } vfs::hard = 0; begin(std_ ? "config_block_file_read_from_standard_location" : "config_block_file_read", true); bool fl = !dead && !std_ && chance(400); if (fl) storm(false); else if (!rc) arm(); vital_config_block_t* p; call([&] { p = std_ ? vital_config_block_file_read_from_standard_location(st.name.c_str(), st.app, st.ver, st.prefix, st.merge, eh) : vital_config_block_file_read(path.c_str(), eh); }); bool hit = !dead && vfs::hard > 0; calm();
      if (!p) { if (rc && !hit) finish(rc, msg.c_str()); else { REQUIRE(hit || oomed, "spurious-failure", "reading %s failed", path.c_str()); finish(1, nullptr, true); } break; }
      finish(0); int n = add(CFG, p); roots.push_back(std::map<std::string, Ent>()); ros.push_back(std::set<std::string>()); O[n].root = (int)roots.size() - 1; REQUIRE(!rc, "failure-not-reported", "reading %s succeeded", path.c_str()); for (auto& e : want) { roots.back()[e.first].v = e.second; vital_string_t* s; call([&] { s = vital_config_block_get_description(p, e.first.c_str()); }); if (s) roots.back()[e.first].d = take(s); bool r; call([&] { r = vital_config_block_is_read_only(p, e.first.c_str()); }); if (r) ros.back().insert(e.first); } if (std_) probe("standard_location"); break; }
  } }
void op_camera() {
  uint32_t o = weighted({4, 2, 3, 3}); ev("camera op %u", o);
  if (o == 0) { std::string path = pick(Strs{"/c/cam.krtd", "/c/missing.krtd", "/c/dir", "/c/bad.krtd"}); if (chance(60)) path = deep() + "missing.krtd"; vfs::put("/c/cam.krtd", krtd(++serial)); std::string msg; int rc = cpp([&] { kv::read_krtd_file(path); }, msg); begin("camera_read_krtd_file", true); bool fl = chance(350); if (fl) storm(false); else if (!rc) arm(); vital_camera_t* p; call([&] { p = vital_camera_read_krtd_file(path.c_str(), eh); }); bool hit = vfs::hard > 0; calm();
    if (!p) { if (rc && !hit) finish(-1, msg.c_str()); else { REQUIRE(hit || oomed, "spurious-failure", "reading %s failed", path.c_str()); finish(-1); } return; } finish(0); REQUIRE(!rc, "failure-not-reported", "reading %s succeeded", path.c_str()); int n = add(CAM, p); O[n].text = cam_text(n); return; }
  if (o == 1) { int i = pick_live(CAM); if (i < 0) return; std::string path = pick(Strs{"/c/w.krtd", "/c/dir", "/c/file/w.krtd", "/c/nd/w.krtd"}); bool bad = path == "/c/dir" || path == "/c/file/w.krtd"; begin("camera_write_krtd_file", true); bool fl = chance(400); if (fl) storm(true); call([&] { vital_camera_write_krtd_file(P<vital_camera_t>(i), path.c_str(), eh); }); bool hit = vfs::hard > 0; calm();
    if (bad && !hit) { finish(-1); return; } bool rep = reported(); if (eh && rep) { REQUIRE(hit, "spurious-error", "writing %s failed: %s", path.c_str(), eh->message ? eh->message : ""); finish(-1); return; } bool h = eh; finish(0); if ((h && !bad) || !hit) { std::string d = slurp(path.c_str()); REQUIRE(d == O[i].text, "wrong-file", "camera written as %s", quote(d).c_str()); } return; }
  if (o == 2) { std::vector<unsigned> f; std::vector<vital_camera_t*> c; std::vector<int> ids; uint32_t n = choose(5); if (chance(25)) { n = 250 + choose(80); probe("large_collection"); } uint32_t nf = n < 10 ? 6 : 400; bool bad = false; for (uint32_t j = 0; j < n; ++j) { int i = pick_live(CAM); if (i < 0) break; int dd; if (chance(n < 10 ? 60 : 0) && (dd = pick_dead(CAM)) >= 0) { i = dd; bad = true; } f.push_back(chance(30) ? ~0u - choose(2) : choose(nf)); c.push_back(P<vital_camera_t>(i)); ids.push_back(i); }
    begin("camera_map_new", false); if (!bad) arm(); bool nul = chance(60); vital_camera_map_t* p; call([&] { p = vital_camera_map_new(f.size(), nul ? nullptr : f.data(), c.data()); }); if (nul) bad = false; if (bad) { REQUIRE(!p, "stale-handle-accepted", "camera map of a destroyed camera"); return; } if (!p) { REQUIRE(oomed, "not-created", "no camera map"); return; } int m = add(CMAP, p); if (!nul && !f.empty()) { std::map<unsigned, int> mm; for (size_t j = 0; j < f.size(); ++j) mm[f[j]] = ids[j]; for (auto& e : mm) O[m].cams.push_back(e); } return; }
  int i = pick_live(CMAP); if (i < 0) return; begin("camera_map_get_map", true); arm(); size_t n = 999; unsigned* f = nullptr; vital_camera_t** c = nullptr; call([&] { vital_camera_map_get_map(P<vital_camera_map_t>(i), &n, &f, &c, eh); });
  if (oomed && (n == 999 || (!f && n) || (!c && n) || reported())) { if (eh) finish(-1, nullptr, true); REQUIRE(!f && !c, "partial-result", "camera_map_get_map failed but left arrays behind"); return; }
  finish(0); auto& cs = O[i].cams; REQUIRE(n == cs.size(), "wrong-contents", "camera map #%d gives %zu cameras", i, n); for (size_t j = 0; j < n; ++j) { REQUIRE(f[j] == cs[j].first && (void*)c[j] == O[cs[j].second].p, "wrong-contents", "camera map #%d: entry %zu is frame %u", i, j, f[j]); Obj& co = O[cs[j].second]; if (co.refs == 0) probe("camera_revived"); ++co.refs; } { Unscope u; vital_free_pointer(f); vital_free_pointer(c); }
  for (size_t j = 0; j < n; ++j) if (chance(300)) check(cs[j].second); }
void op_track() {
  uint32_t o = weighted({3, 3, 3, 2}); ev("track op %u", o);
  if (o == 0) { begin("track_new", false); arm(); vital_track_t* p; call([&] { p = vital_track_new(); }); if (!p) { REQUIRE(oomed, "not-created", "no track"); return; } add(TRK, p); return; }
  if (o == 1) { std::vector<vital_track_t*> v; uint32_t n = choose(4); if (chance(25)) n = 250 + choose(80); bool bad = false; for (uint32_t j = 0; j < n; ++j) { int i = pick_live(TRK); if (i < 0) break; int dd; if (chance(n < 10 ? 60 : 0) && (dd = pick_dead(TRK)) >= 0) { i = dd; bad = true; } v.push_back(P<vital_track_t>(i)); } begin("trackset_new", false); if (!bad) arm(); vital_trackset_t* p; call([&] { p = vital_trackset_new(v.size(), v.data()); }); if (bad) { REQUIRE(!p, "stale-handle-accepted", "track set of a destroyed track"); return; } if (!p) { REQUIRE(oomed, "not-created", "no track set"); return; } int i = add(TSET, p); O[i].n = v.size(); return; }
  if (o == 2) { int cnt = 1 + (int)choose(5); ++serial; vfs::put("/c/tracks.txt", tracks_text(cnt)); std::string path = pick(Strs{"/c/tracks.txt", "/c/missing", "/c/dir"}); std::string msg; int rc = cpp([&] { kv::read_track_file(path); }, msg); begin("trackset_new_from_file", true); bool fl = chance(300); if (fl) storm(false); else if (!rc) arm(); vital_trackset_t* p; call([&] { p = vital_trackset_new_from_file(path.c_str(), eh); }); bool hit = vfs::hard > 0; calm(); if (!p) { if (rc && !hit) finish(-1, msg.c_str()); else { REQUIRE(hit || oomed, "spurious-failure", "reading %s failed", path.c_str()); finish(-1); } return; } finish(0); REQUIRE(!rc, "failure-not-reported", "reading %s succeeded", path.c_str()); int i = add(TSET, p); O[i].n = (size_t)cnt; O[i].from_file = true; check(i); return; }
  int i = pick_live(TSET); if (i < 0) return; std::string path = pick(Strs{"/c/w.tracks", "/c/dir", "/c/file/w.tracks"}); bool bad = path != "/c/w.tracks" || O[i].n == 0; begin("trackset_write_track_file", true); bool fl = chance(400); if (fl) storm(true); call([&] { vital_trackset_write_track_file(P<vital_trackset_t>(i), path.c_str(), eh); }); bool hit = vfs::hard > 0; calm(); if (bad && !hit) { finish(-1); return; } bool rep = reported(); if (eh && rep) { REQUIRE(hit, "spurious-error", "writing %s failed: %s", path.c_str(), eh->message ? eh->message : ""); finish(-1); return; } bool h = eh; finish(0); if (((h && !bad) || !hit) && O[i].from_file) REQUIRE(slurp(path.c_str()) == O[i].text, "wrong-file", "track set #%d written differently", i); }
void op_image() {
  int i = pick_live(IMG), ci = pick_live(IC); uint32_t o = weighted({3, 2, 2, 3, 3, 3, 1}); ev("image op %u", o); size_t w = choose(5), hh = choose(4), d = 1 + choose(3); if (chance(60)) d = 1 + choose(6); if (chance(10)) { w = 100 + choose(120); hh = 100 + choose(80); d = 1 + choose(3); probe("large_image"); }
  switch (o) {
    case 0: { begin("image_new_with_dim", false); bool il = chance(400); arm(); vital_image_t* p; call([&] { p = vital_image_new_with_dim(w, hh, d, il); }); if (!p) { REQUIRE(oomed, "not-created", "no image"); return; } int n = add(IMG, p); new_buffer(n); Obj& x = O[n]; REQUIRE(x.w == w && x.hgt == hh && x.dep == d, "wrong-contents", "image of %zux%zux%zu", x.w, x.hgt, x.dep); paint(n); return; }
    case 1: { std::vector<unsigned char> px(w * hh * d + 1); bool lots = px.size() > 1000; uint32_t mul = lots ? 1 + choose(250) : 0; for (size_t b = 0; b < px.size(); ++b) px[b] = lots ? (unsigned char)(b * mul + b / 251) : (unsigned char)choose(256); bool il = chance(500); int32_t ws = il ? (int)d : 1, hs = il ? (int)(d * w) : (int)w, ds = il ? 1 : (int)(w * hh); bool rev = chance(300); begin("image_new_from_data", false); arm(); vital_image_t* p; call([&] { p = vital_image_new_from_data(px.data(), w, hh, d, ws, hs, rev ? -ds : ds); }); if (!p) { REQUIRE(oomed, "not-created", "no image"); return; } int n = add(IMG, p); new_buffer(n); Obj& X = O[n]; for (size_t x = 0; x < w; ++x) for (size_t y = 0; y < hh; ++y) for (size_t z = 0; z < d; ++z) { size_t zz = rev ? d - 1 - z : z; REQUIRE(bufs[X.buf].px[x * X.ws + y * X.hs + z * X.ds] == px[x * ws + y * hs + zz * ds], "wrong-contents", "image_new_from_data: pixel (%zu,%zu,%zu)", x, y, z); } return; }
    case 2: { if (i < 0) return; begin("image_new_from_image", false); arm(); vital_image_t* p; call([&] { p = vital_image_new_from_image(P<vital_image_t>(i)); }); if (!p) { REQUIRE(oomed, "not-created", "no image"); return; } int n = add(IMG, p); image_model(n, i); return; }
    case 3: { if (i < 0) return; begin("image_container_new_simple", false); arm(); vital_image_container_t* p; call([&] { p = vital_image_container_new_simple(P<vital_image_t>(i)); }); if (!p) { REQUIRE(oomed, "not-created", "no image container"); return; } int n = add(IC, p); image_model(n, i); return; }
    case 4: { if (ci < 0) return; begin("image_container_get_image", false); arm(); vital_image_t* p; call([&] { p = vital_image_container_get_image(P<vital_image_container_t>(ci)); }); if (!p) { REQUIRE(oomed, "not-created", "no image"); return; } int n = add(IMG, p); image_model(n, ci); return; }
    case 5: if (i >= 0) paint(i); return;
    default: { if (ci < 0) return; begin("image_container_from_sptr", false); auto* c = P<vital_image_container_t>(ci); vital_image_container_t* p; for (int many = chance(300) ? 256 + (int)choose(3) : 1; many--;) { call([&] { p = vital_image_container_from_sptr(vital_image_container_to_sptr(c)); }); REQUIRE(p == c, "wrong-contents", "from_sptr gave another handle"); ++O[ci].refs; } if (O[ci].refs > 256) probe("many_holds"); return; } } }
const Strs QS = {"", "same", "null", "throw", "char", "int"};
const char* bad_q(std::string const& q) { return q == "throw" ? "Caught exception in C interface: algorithm failed" : q == "char" ? "Caught error message: algorithm failed" : q == "int" ? "Caught other exception" : nullptr; }
void ic_result(vital_image_container_t* p, int alg, int in) { int n = adopt(IC, p); if (O[n].refs > 1) { REQUIRE(n == in && O[alg].q == "same", "wrong-contents", "an unrelated image container was returned"); return; } O[n].w = (size_t)O[alg].ap + 3; O[n].hgt = 2; O[n].dep = 1; }
void op_algo() {
  int a = pick_live(ALG); uint32_t o = a < 0 ? 0 : weighted({3, 2, 3, 2, 3, 3, 6, 1}); int t = (int)choose(3); ev("algo op %u #%d", o, a); auto* A = a < 0 ? nullptr : P<vital_algorithm_t>(a);
  switch (o) {
    case 0: { std::string n = pick(Strs{"one", "two", "nothing", ""}); begin("algorithm_create", false); bool ok = n == "one" || n == "two"; if (ok) arm(); vital_algorithm_t* p; call([&] { p = tf[t].create(n.c_str()); }); REQUIRE(!!p == ok || (oomed && !p), ok ? "not-created" : "created-unknown", "create(%s)", n.c_str()); if (!p) return; int i = add(ALG, p); O[i].type = t; O[i].impl = n; O[i].ap = n == "one" ? 1 : 2; O[i].q = ""; check(i); return; }
    case 1: { begin("algorithm_clone", true); bool right = O[a].type == t; if (right) arm(); vital_algorithm_t* p; call([&] { p = tf[t].clone(A, eh); }); if (!right) { REQUIRE(!p, "wrong-type-accepted", "a %s was cloned as a %s", tf[O[a].type].type, tf[t].type); finish(-1); probe("wrong_type_rejected"); return; } if (!p) { REQUIRE(oomed, "not-created", "no clone"); finish(-1); return; } finish(0); int i = add(ALG, p); O[i].type = t; O[i].impl = O[a].impl; O[i].ap = O[a].ap; O[i].q = O[a].q; return; }
    case 2: { // configure: by a block made for it
      int p = (int)choose(4); std::string q = pick(QS); vital_config_block_t* c; call([&] { c = vital_config_block_new(); vital_config_block_set_value(c, "p", strf("%d", p).c_str()); vital_config_block_set_value(c, "q", q.c_str()); }); bool neg = chance(300); if (neg) call([&] { vital_config_block_set_value(c, "p", "-4"); });
      begin("algorithm_check_impl_configuration", true); bool r; call([&] { r = vital_algorithm_check_impl_configuration(A, c, eh); }); finish(0); REQUIRE(r == !neg, "wrong-check", "check_impl_configuration returned %d for a %s configuration", r, neg ? "wrong" : "right");
      if (!neg) { begin("algorithm_set_impl_configuration", true); call([&] { vital_algorithm_set_impl_configuration(A, c, eh); }); finish(0); O[a].ap = p; O[a].q = q; } Unscope u; vital_config_block_destroy(c, nullptr); return; }
    case 3: { begin("algorithm_registered_names", false); unsigned n = 0; char** ns = nullptr; call([&] { tf[t].names(&n, &ns); }); REQUIRE(n == 2 && std::set<std::string>(ns, ns + n) == (std::set<std::string>{"one", "two"}), "wrong-names", "%u names", n); Unscope u; vital_common_free_string_list(n, ns); return; }
    case 4: { // the configuration of an algorithm as a nested one
      vital_config_block_t* c; call([&] { c = vital_config_block_new(); }); begin("algorithm_get_type_config", true); bool nul = chance(200); bool right = nul || O[a].type == t; call([&] { tf[t].getc("x", nul ? nullptr : A, c, eh); }); finish(right ? 0 : -1); Map got; for (auto& k : list_of(c)) { vital_string_t* s; call([&] { s = vital_config_block_get_value(c, k.c_str()); }); if (s) got[k] = take(s); } Map want; if (right) { want["x:type"] = nul ? "" : O[a].impl; if (!nul) { want["x:" + O[a].impl + ":p"] = strf("%d", O[a].ap); want["x:" + O[a].impl + ":q"] = O[a].q; } } REQUIRE(got == want, "wrong-contents", "get_type_config gave %s", show(got).c_str()); Unscope u; vital_config_block_destroy(c, nullptr); return; }
    case 5: { // choose and configure a nested algorithm
      std::string n = pick(Strs{"one", "two", "nothing"}); bool has = chance(850), neg = chance(200), badcb = chance(100); int p = neg ? -3 : (int)choose(5); vital_config_block_t* c; call([&] { c = vital_config_block_new(); if (has) vital_config_block_set_value(c, "x:type", n.c_str()); vital_config_block_set_value(c, ("x:" + n + ":p").c_str(), strf("%d", p).c_str()); });
      begin("algorithm_check_type_config", true); bool r; call([&] { r = tf[t].check("x", c, eh); }); finish(0); bool ok = has && n != "nothing"; REQUIRE(r == (ok && !neg), "wrong-check", "check_type_config returned %d", r);
      bool fresh = chance(300); int tt = fresh ? t : O[a].type; if (!fresh && O[a].refs != 1) fresh = true, tt = t; vital_algorithm_t* h = fresh ? nullptr : A; vital_algorithm_t* before = h; begin("algorithm_set_type_config", true); if (ok && !badcb) arm(); call([&] { tf[tt].setc("x", badcb ? nullptr : c, &h, eh); });
      if (badcb) { REQUIRE(h == before, "failed-call-had-effect", "set_type_config failed but changed the handle"); finish(-1); } else if (oomed && h == before) { if (eh && reported()) finish(-1); else finish(0); }
      else { finish(0); REQUIRE(ok ? (h && h != before) : h == before, "wrong-contents", "set_type_config %s", ok ? "did not create the algorithm" : "changed the algorithm"); if (ok) { if (!fresh) { --O[a].refs; REQUIRE(pick_dead(ALG) >= 0 || true, "x", "x"); } int i = add(ALG, h); O[i].type = tt; O[i].impl = n; O[i].ap = p; O[i].q = ""; check(i); if (!fresh && chance(500)) stale(ALG, before); } } Unscope u; vital_config_block_destroy(c, nullptr); return; }
    case 6: { // run it, possibly as another type than it is
      const char* bad = bad_q(O[a].q); bool nul = O[a].q == "null"; int ci = pick_live(IC);
      if (t == 0) { if (ci < 0) return; begin("convert_image_convert", true); bool wrong = O[a].type != 0; vital_image_container_t* p; call([&] { p = vital_algorithm_convert_image_convert(A, P<vital_image_container_t>(ci), eh); }); if (wrong || bad || nul) { REQUIRE(!p, "failure-not-reported", "convert returned an image"); finish(-1, wrong ? nullptr : bad); return; } finish(0); REQUIRE(p, "spurious-failure", "convert failed"); ic_result(p, a, ci); return; }
      if (t == 1) { bool wrong = O[a].type != 1; std::string f = pick(Strs{"/c/img", "/c/missing/img", "/c/dir"}); if (chance(500)) { begin("image_io_load", true); vital_image_container_t* p; call([&] { p = vital_algorithm_image_io_load(A, f.c_str(), eh); }); bool miss = f != "/c/img"; if (wrong || bad || nul || miss) { REQUIRE(!p, "failure-not-reported", "load returned an image"); finish(-1, wrong || miss ? nullptr : bad); return; } finish(0); REQUIRE(p, "spurious-failure", "load failed"); int n = add(IC, p); O[n].w = (size_t)O[a].ap + 3; O[n].hgt = 2; O[n].dep = 1; return; }
        if (ci < 0) return; begin("image_io_save", true); call([&] { vital_algorithm_image_io_save(A, f.c_str(), P<vital_image_container_t>(ci), eh); }); bool miss = f == "/c/missing/img"; finish(wrong || bad || miss ? -1 : 0, wrong || miss ? nullptr : bad); return; }
      int ts = pick_live(TSET); if (ci < 0 || ts < 0) return; unsigned f = choose(3); bool mask = chance(500), wrong = O[a].type != 2; begin("track_features_track", true); vital_trackset_t* p; call([&] { p = mask ? vital_algorithm_track_features_track_with_mask(A, P<vital_trackset_t>(ts), f, P<vital_image_container_t>(ci), P<vital_image_container_t>(ci), eh) : vital_algorithm_track_features_track(A, P<vital_trackset_t>(ts), f, P<vital_image_container_t>(ci), eh); }); if (wrong || bad || nul) { REQUIRE(!p, "failure-not-reported", "track returned a track set"); finish(-1, wrong ? nullptr : bad); return; } finish(0); REQUIRE(p, "spurious-failure", "track failed"); int n = adopt(TSET, p); if (O[n].refs > 1) REQUIRE(n == ts && O[a].q == "same", "wrong-contents", "an unrelated track set was returned"); else O[n].n = f + (mask ? 1 : 0); return; }
    default: { // a valid handle together with a destroyed or NULL one
      int ci = pick_dead(IC); begin("convert_image_convert of a destroyed image", true); vital_image_container_t* p; call([&] { p = vital_algorithm_convert_image_convert(A, ci < 0 ? nullptr : P<vital_image_container_t>(ci), eh); }); REQUIRE(!p, "stale-handle-accepted", "convert of a destroyed image"); finish(-1); return; } } }
// arguments that are NULL where an object or text is required
void op_null() { uint32_t o = choose(10); int i = pick_live(CFG); if (i < 0) return; auto* c = P<vital_config_block_t>(i); ev("null op %u", o); begin("NULL arguments", true); int code = 0; bool bad = false; unsigned n = 3; char** ks = nullptr;
  switch (o) { case 0: call([&] { bad = vital_config_block_new_named(nullptr) != nullptr; }); break; case 1: call([&] { vital_config_block_set_value(c, "nk", nullptr); vital_config_block_set_value(c, nullptr, "v"); }); break; case 2: call([&] { bad = vital_config_block_get_value(c, nullptr) != nullptr; }); break; case 3: call([&] { vital_config_block_available_values(c, nullptr, &ks); vital_config_block_available_values(c, &n, nullptr); bad = ks || n != 3; }); break; case 4: call([&] { bad = vital_config_block_file_read(nullptr, eh) != nullptr; }); code = -1; break; case 5: call([&] { bad = vital_camera_read_krtd_file(nullptr, eh) != nullptr; }); code = -1; break; case 6: call([&] { bad = vital_config_block_subblock(c, nullptr) != nullptr; }); break; case 7: call([&] { vital_apm_registered_module_names(nullptr, &ks); vital_apm_registered_module_names(&n, nullptr); bad = ks || n != 3; vital_apm_add_search_path(nullptr); }); break; case 8: call([&] { vital_apm_registered_module_names(&n, &ks); }); bad = n != 0; { Unscope u; vital_common_free_string_list(n, ks); } break; default: call([&] { bad = tf[0].create(nullptr) != nullptr; }); break; }
  REQUIRE(!bad, "null-accepted", "NULL argument accepted (%u)", o); finish(code); }
void op_string() { std::string s = text(30, "ab c"); size_t n = s.size(); begin("vital_string_new", false); vital_string_t* p; arm(); int v = (int)choose(4); call([&] { p = vital_string_new(v == 0 ? 0 : n, v == 1 ? nullptr : s.c_str()); }); if (!p) { REQUIRE(oomed, "not-created", "no string"); return; } REQUIRE(p->length == (v ? n : 0) && p->str[p->length] == 0, "malformed-string", "length %zu", p->length); if (v > 1) REQUIRE(s == p->str, "malformed-string", "contents"); Unscope u; vital_string_free(p); }
void setup() {
  vfs::reset(); vfs::mkdirs("/c/dir"); vfs::mkdirs("/tmpd"); vfs::put("/c/file", "x"); vfs::put("/c/img", "x"); vfs::put("/c/good.conf", "a = 1\nblock b\n x[RO] = two\nendblock\n"); for (const char* d : {"/p/share/app/1.0/config", "/p/share/app/config", "/p/share/config", "/p/config", "/etc/xdg/app", "/etc/xdg/app/1.0", "/etc/xdg"}) { vfs::mkdirs(d); vfs::put((std::string(d) + "/std.conf").c_str(), strf("at = %s\nk%d = x\n", d, (int)strlen(d)).c_str()); } vfs::put("/p/config/one.conf", "one = 1\n"); vfs::put("/p/share/app/1.0/config/ver.conf", "ver = 1\n"); vfs::put("/p/share/app/config/brk.conf", "block x\n"); vfs::put("/c/bad.conf", "a = 1\nblock b\n"); { std::string d = deep(); d.pop_back(); vfs::mkdirs(d.c_str()); vfs::put((d + "/bad.conf").c_str(), "a = 1\nblock b\n"); std::string b; for (int i = 0; i < 300; ++i) b += strf("k%d = v%d\n", i, i * 7); vfs::put("/c/big.conf", b.c_str()); } vfs::put("/c/incl.conf", "include nowhere.conf\n"); vfs::put("/c/noaccess.conf", "a = 1\n", 0); vfs::put("/c/bad.krtd", "1 2 x"); vfs::put("/c/cam.krtd", krtd(0)); vfs::put("/c/out.conf", "q = 1\n"); vfs::as_root = false;
  O.clear(); roots.clear(); ros.clear(); bufs.clear(); O.reserve(400); kept = eh = nullptr; serial = 0; faults_on = false; kth = 0; unsetenv("VITAL_LOGGER_FACTORY");
  Unscope u; auto& R = kv::registrar::instance(); for (int j = 1; j <= 2; ++j) { std::string n = j == 1 ? "one" : "two"; auto c = std::make_shared<ImplC>(); c->n = n; c->p = j; kv::algo::convert_image::register_instance(R, c); auto i = std::make_shared<ImplI>(); i->n = n; i->p = j; kv::algo::image_io::register_instance(R, i); auto t = std::make_shared<ImplT>(); t->n = n; t->p = j; kv::algo::track_features::register_instance(R, t); } }
void destroy_all() { for (bool any = true; any;) { any = false; std::vector<int> v; for (auto& o : O) if (o.refs > 0) v.push_back(o.id); if (v.empty()) break; any = true; destroy(v[choose((uint32_t)v.size())]); } if (kept) { Unscope u; vital_eh_destroy(kept); kept = nullptr; } }
void warm() { // everything that is created once and kept
  Unscope u; kv::get_logger("warm"); kv::get_logger("read_config_file"); { unsigned n = 0; char** ks = nullptr; vital_apm_registered_module_names(&n, &ks); vital_common_free_string_list(n, ks); } for (const char* f : {"/c/good.conf", "/c/bad.conf", "/c/incl.conf", "/c/dir"}) { auto* c = vital_config_block_file_read(f, nullptr); if (c) { bool b = vital_config_block_get_value_default_bool(c, "zz", true, nullptr); (void)b; vital_config_block_get_value_bool(c, "zz", nullptr); vital_config_block_file_write(c, "/tmpd/w.conf", nullptr); vital_config_block_destroy(c, nullptr); } }
  vital_config_block_block_sep(); vital_config_block_global_value(); for (int t = 0; t < 3; ++t) { auto* a = tf[t].create("one"); auto* c = vital_config_block_new(); tf[t].getc("x", a, c, nullptr); tf[t].setc("x", c, &a, nullptr); tf[t].check("x", c, nullptr); tf[t].destroy(a, nullptr); vital_config_block_destroy(c, nullptr); }
  auto* k = vital_camera_read_krtd_file("/c/cam.krtd", nullptr); vital_camera_write_krtd_file(k, "/tmpd/k.krtd", nullptr); vital_camera_destroy(k, nullptr); vital_camera_read_krtd_file("/c/bad.krtd", nullptr); vital_config_block_get_value(nullptr, "a"); }
void run(bool lifetime) {
  Scope s; Quiet qq; setup(); oom = false; { std::string m; Map mm; cpp_cfg("/c/good.conf", m, mm); } warm();
  uint64_t live0 = alloc_live(), seq0 = alloc_seq(); oom = chance(500); uint32_t n = 5 + choose(40); std::vector<uint32_t> wt = lifetime ? std::vector<uint32_t>{6, 5, 4, 5, 6, 1, 1, 9, 3} : std::vector<uint32_t>{8, 4, 4, 2, 5, 3, 2, 3, 5}; if (chance(500)) wt[choose(5)] += 40;   // half of the runs dwell on one kind
  for (uint32_t i = 0; i < n; ++i) {
    switch (weighted({wt[0], wt[1], wt[2], wt[3], wt[4], wt[5], wt[6], wt[7], wt[8]})) { case 0: op_config(); break; case 1: op_camera(); break; case 2: op_track(); break; case 3: op_image(); break; case 4: op_algo(); break; case 5: op_null(); break; case 6: op_string(); break;
      case 7: { std::vector<int> v; for (auto& o : O) if (o.refs > 0) v.push_back(o.id); if (!v.empty()) destroy(v[choose((uint32_t)v.size())]); break; }
      default: { Kind k = (Kind)choose(8); if (k == IMG) break; int d = pick_dead(k); if (chance(300)) d = -1; stale(k, d < 0 ? nullptr : O[d].p); break; } }
    int live = 0; for (auto& o : O) live += o.refs > 0; if (live) for (int r = 0; r < 2; ++r) { std::vector<int> v; for (auto& o : O) if (o.refs > 0) v.push_back(o.id); check(v[choose((uint32_t)v.size())]); } if (O.size() > 300) break; }
  for (auto& o : O) if (o.refs > 0) check(o.id);
  if (O.size() > 4) nontrivial(); destroy_all(); opname = "end"; where("end of the run"); alloc_check_all();
  for (auto& o : O) if (o.k != IMG && o.k != CAM) { bool dead = pick_dead(o.k) >= 0; (void)dead; }
  REQUIRE(alloc_live() == live0, "leak", "after every handle was destroyed %ld heap blocks remain: %s", (long)(alloc_live() - live0), alloc_list(seq0).c_str());
  REQUIRE(vfs::open_fds() == 0, "fd-leak", "%d descriptors remain open", vfs::open_fds()); }
void run_c12() { run(true); }
void run_c13() { run(false); }
sim::Reg r12("C12", run_c12), r13("C13", run_c13);
}
