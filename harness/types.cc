// Images and tracks: histories of sharing, copying and querying, with failing allocations and concurrent readers.
#include "h.h"
#include <vital/types/image.h>
#include <vital/types/image_container.h>
#include <vital/types/track_set.h>
#include <vital/types/descriptor.h>
#include <vital/types/feature.h>
#include <functional>
#include <limits>
namespace {
using namespace h; namespace kv = kwiver::vital; typedef kv::image::byte byte;
// run fn as code under test, sometimes with a failing allocation; true if it completed
bool attempt(bool may_fail, const std::function<void()>& fn) {
  bool oom = may_fail && chance(120), ok = true; if (oom) alloc_arm(1 + choose(4));
  try { Unscope u; fn(); } catch (std::bad_alloc const&) { ok = false; }
  if (oom) { if (alloc_fired()) fault("alloc"); bool f = alloc_fired(); alloc_disarm(); REQUIRE(ok || f, "unexpected-exception", "bad_alloc without a failed allocation"); if (!ok) return false; }
  REQUIRE(ok, "unexpected-exception", "bad_alloc without a failed allocation"); return true; }
// ------------------------------------------------------------------ C34
struct Buf { std::vector<byte> v; std::vector<byte>* foreign = nullptr; const byte* base = nullptr; kv::image_memory_sptr keep; bool own = true; };
struct Im { kv::image* im; std::shared_ptr<Buf> b; int64_t off; size_t w, h, d; int64_t ws, hs, ds; };   // pixel (i,j,k) is b->v[off + i ws + j hs + k ds]
std::vector<Im> ims; uint32_t serial;
byte& px(Im& m, size_t i, size_t j, size_t k) { return m.b->v.at((size_t)(m.off + (int64_t)i * m.ws + (int64_t)j * m.hs + (int64_t)k * m.ds)); }
void check_im(Im& m, const char* after) {
  kv::image& g = *m.im; kv::image const& c = g; REQUIRE(g.width() == m.w && g.height() == m.h && g.depth() == m.d, "wrong-size", "after %s: image is %zux%zux%zu instead of %zux%zux%zu", after, g.width(), g.height(), g.depth(), m.w, m.h, m.d);
  for (size_t k = 0; k < m.d; ++k) for (size_t j = 0; j < m.h; ++j) for (size_t i = 0; i < m.w; ++i) { byte v; { Unscope u; v = c((unsigned)i, (unsigned)j, (unsigned)k); } byte want = px(m, i, j, k);
    REQUIRE(v == want, "wrong-pixel", "after %s: pixel (%zu,%zu,%zu) of a %zux%zux%zu image is %u instead of %u", after, i, j, k, m.w, m.h, m.d, v, want); }
  size_t sz; { Unscope u; sz = c.size(); } REQUIRE(m.b->own ? sz == m.b->v.size() : sz == 0, "wrong-size", "after %s: size() is %zu instead of %zu", after, sz, m.b->own ? m.b->v.size() : 0); }
void check_all(const char* after) { for (auto& m : ims) check_im(m, after); count("images_checked", ims.size()); }
// take over the layout the image chose for freshly allocated memory; every pixel must be its own byte of it
void adopt(Im& m) {
  kv::image& g = *m.im; m.b = std::make_shared<Buf>(); m.b->keep = nullptr; size_t n = g.size(); m.b->v.assign(n, 0); m.w = g.width(); m.h = g.height(); m.d = g.depth(); m.ws = g.w_step(); m.hs = g.h_step(); m.ds = g.d_step();
  m.b->base = n ? (const byte*)g.memory()->data() : nullptr; m.off = n ? g.first_pixel() - m.b->base : 0; REQUIRE(n == m.w * m.h * m.d, "wrong-size", "%zux%zux%zu image has %zu bytes", m.w, m.h, m.d, n);
  std::set<int64_t> seen; for (size_t k = 0; k < m.d; ++k) for (size_t j = 0; j < m.h; ++j) for (size_t i = 0; i < m.w; ++i) { int64_t o = m.off + (int64_t)i * m.ws + (int64_t)j * m.hs + (int64_t)k * m.ds; REQUIRE(o >= 0 && o < (int64_t)n, "outside-memory", "pixel (%zu,%zu,%zu) of a %zux%zux%zu image lies at byte %lld of %zu", i, j, k, m.w, m.h, m.d, (long long)o, n); REQUIRE(seen.insert(o).second, "shared-pixel", "pixel (%zu,%zu,%zu) of a %zux%zux%zu image shares its byte with another pixel", i, j, k, m.w, m.h, m.d); } }
void fill(Im& m) { for (size_t k = 0; k < m.d; ++k) for (size_t j = 0; j < m.h; ++j) for (size_t i = 0; i < m.w; ++i) { byte v = (byte)(++serial * 37); { Unscope u; (*m.im)((unsigned)i, (unsigned)j, (unsigned)k) = v; } px(m, i, j, k) = v; } }
bool disjoint(Im& a, Im& b) { if (a.b != b.b) return true; std::set<int64_t> s; for (size_t k = 0; k < a.d; ++k) for (size_t j = 0; j < a.h; ++j) for (size_t i = 0; i < a.w; ++i) s.insert(a.off + (int64_t)i * a.ws + (int64_t)j * a.hs + (int64_t)k * a.ds);
  for (size_t k = 0; k < b.d; ++k) for (size_t j = 0; j < b.h; ++j) for (size_t i = 0; i < b.w; ++i) if (s.count(b.off + (int64_t)i * b.ws + (int64_t)j * b.hs + (int64_t)k * b.ds)) return false; return true; }
byte inc(byte const& b) { return (byte)(b + 1); }
size_t dim() { if (chance(12)) { probe("large_image"); return range(6, 70); } return chance(60) ? 0 : range(1, 5); }
void drop(size_t x) { kv::image* p = ims[x].im; { Unscope u; delete p; } ims.erase(ims.begin() + (long)x); }
bool create(bool oom) {
  size_t w = dim(), hh = dim(), d = pick(std::vector<size_t>{1, 3, 2, 4}); bool il = chance(400); kv::image* p = nullptr; ev("new image %zux%zux%zu%s", w, hh, d, il ? " interleaved" : ""); where("image(%zu,%zu,%zu,%d)", w, hh, d, (int)il);
  if (!attempt(oom, [&]() { p = new kv::image(w, hh, d, il); })) { check_all("a failed construction"); return false; }
  Im m; m.im = p; m.off = 0; adopt(m); REQUIRE(!(w && hh) || (il ? m.ds == 1 && m.ws == (int64_t)d && m.hs == (int64_t)(d * w) : m.ws == 1 && m.hs == (int64_t)w && m.ds == (int64_t)(w * hh)), "wrong-layout", "new %zux%zux%zu image%s has steps %lld %lld %lld", w, hh, d, il ? " (interleaved)" : "", (long long)m.ws, (long long)m.hs, (long long)m.ds); ims.push_back(m); fill(ims.back()); return true; }
void image_history() {
  uint32_t n = range(4, 24); create(false); bool oom = chance(600);
  for (uint32_t q = 0; q < n; ++q) {
    if (ims.empty()) { create(false); continue; }
    size_t x = choose((uint32_t)ims.size()); Im a = ims[x]; const char* what = "";
    switch (weighted({3, 3, 3, 4, 4, 3, 3, 3, 2, 2, 2, 2})) {
      case 0: create(oom); what = "creating an image"; break;
      case 1: { what = "copying an image"; kv::image* p = nullptr; if (attempt(oom, [&]() { p = new kv::image(*a.im); })) { Im m = a; m.im = p; ims.push_back(m); } break; }
      case 2: { what = "assigning an image"; size_t y = choose((uint32_t)ims.size()); { Unscope u; *ims[y].im = *a.im; } kv::image* p = ims[y].im; ims[y] = a; ims[y].im = p; ev("assign %zu to %zu", x, y); break; }
      case 3: { // a view: crop, flip, subsample, one channel
        what = "making a view"; if (!a.w || !a.h || !a.d || ims.size() > 8) break; size_t i0 = choose((uint32_t)a.w), j0 = choose((uint32_t)a.h), k0 = choose((uint32_t)a.d), w = 1 + choose((uint32_t)(a.w - i0)), hh = 1 + choose((uint32_t)(a.h - j0)), d = 1 + choose((uint32_t)(a.d - k0)); int64_t ws = a.ws, hs = a.hs, ds = a.ds;
        size_t is = i0, js = j0, ks = k0; if (d > 1 && chance(200)) { ks = k0 + d - 1; ds = -ds; probe("channels_reversed"); }  if (chance(250)) { is = i0 + w - 1; ws = -ws; } if (chance(250)) { js = j0 + hh - 1; hs = -hs; } if (chance(200) && w > 1) { w = (w + 1) / 2; ws *= 2; } bool sw = chance(150); if (sw) { std::swap(w, hh); std::swap(ws, hs); } kv::image* p = nullptr; bool withmem = a.b->own;
        if (!attempt(oom, [&]() { byte* f = &(*a.im)((unsigned)is, (unsigned)js, (unsigned)ks); p = withmem ? new kv::image(a.im->memory(), f, w, hh, d, ws, hs, ds) : new kv::image(f, w, hh, d, ws, hs, ds); })) break;
        Im m = a; m.im = p; m.off = a.off + (int64_t)is * a.ws + (int64_t)js * a.hs + (int64_t)ks * a.ds; m.w = w; m.h = hh; m.d = d; m.ws = ws; m.hs = hs; m.ds = ds; ims.push_back(m); ev("view of %zu: %zux%zux%zu steps %lld %lld %lld", x, w, hh, d, (long long)ws, (long long)hs, (long long)ds); count("views"); break; }
      case 4: { // deep copy
        size_t y = choose((uint32_t)ims.size()); Im& t = ims[y]; bool same = t.w == a.w && t.h == a.h && t.d == a.d; what = same ? "copy_from into the existing memory" : "copy_from into new memory"; if (x != y && same && !disjoint(t, a)) break; if (x == y) probe("copy_from_itself");
        ev("copy_from %zu to %zu", x, y); where("copy_from of %zux%zux%zu", a.w, a.h, a.d); if (!attempt(oom, [&]() { t.im->copy_from(*a.im); })) { what = "a failed copy_from"; break; } if (!same) { adopt(t); t.b->own = true; probe("copy_from_resizes"); }
        std::vector<byte> vals; for (size_t k = 0; k < a.d; ++k) for (size_t j = 0; j < a.h; ++j) for (size_t i = 0; i < a.w; ++i) vals.push_back(px(a, i, j, k)); size_t z = 0; for (size_t k = 0; k < a.d; ++k) for (size_t j = 0; j < a.h; ++j) for (size_t i = 0; i < a.w; ++i) px(t, i, j, k) = vals[z++]; count("deep_copies"); nontrivial(); break; }
      case 5: { what = "set_size"; size_t w = chance(300) ? a.w : dim(), hh = chance(300) ? a.h : dim(), d = chance(300) ? a.d : range(1, 4); bool same = w == a.w && hh == a.h && d == a.d; ev("set_size %zux%zux%zu on %zu", w, hh, d, x); where("set_size(%zu,%zu,%zu)", w, hh, d); if (!attempt(oom, [&]() { ims[x].im->set_size(w, hh, d); })) { what = "a failed set_size"; break; }
        if (!same) { adopt(ims[x]); REQUIRE(ims[x].w == w && ims[x].h == hh && ims[x].d == d, "wrong-size", "set_size(%zu,%zu,%zu) made %zux%zux%zu", w, hh, d, ims[x].w, ims[x].h, ims[x].d); fill(ims[x]); } nontrivial(); break; }
      case 6: { what = "transform_image"; where("transform_image of %zux%zux%zu steps %lld %lld %lld", a.w, a.h, a.d, (long long)a.ws, (long long)a.hs, (long long)a.ds); { Unscope u; kv::transform_image(*a.im, inc); } for (size_t k = 0; k < a.d; ++k) for (size_t j = 0; j < a.h; ++j) for (size_t i = 0; i < a.w; ++i) ++px(ims[x], i, j, k); count("transforms"); nontrivial(); break; }
      case 7: { what = "equal_content"; size_t y = choose((uint32_t)ims.size()); Im& t = ims[y]; bool want = t.w == a.w && t.h == a.h && t.d == a.d; for (size_t k = 0; want && k < a.d; ++k) for (size_t j = 0; j < a.h; ++j) for (size_t i = 0; i < a.w; ++i) if (px(a, i, j, k) != px(t, i, j, k)) want = false;
        bool got; { Unscope u; got = kv::equal_content(*a.im, *t.im); } REQUIRE(got == want, "wrong-comparison", "equal_content of a %zux%zux%zu and a %zux%zux%zu image is %d", a.w, a.h, a.d, t.w, t.h, t.d, (int)got); if (want && x != y) probe("equal_images");
        if (chance(300) && a.d > 1 && a.w >= a.d && a.h) {   // two views that start at the same pixel and differ in one step only
          size_t w = a.w - a.d + 1; uint32_t ax = choose(2); kv::image *p1 = nullptr, *p2 = nullptr; { Unscope u; byte* f = &(*a.im)(0u, 0u, 0u); p1 = new kv::image(f, w, a.h, a.d, a.ws, a.hs, a.ds); p2 = ax ? new kv::image(f, w, a.h, a.d, a.ws, a.hs, a.ws) : new kv::image(f, w, a.h, a.d, 0, a.hs, a.ds); }
          bool eq = true; for (size_t k = 0; k < a.d; ++k) for (size_t j = 0; j < a.h; ++j) for (size_t i = 0; i < w; ++i) if (px(a, i, j, k) != (ax ? px(a, i + k, j, 0) : px(a, 0, j, k))) eq = false;
          { Unscope u; got = kv::equal_content(*p1, *p2); delete p1; delete p2; } REQUIRE(got == eq, "wrong-comparison", "equal_content of two views that differ in the step between %s is %d", ax ? "channels" : "columns", (int)got); probe("same_start_views"); }
        break; }
      case 8: { // access outside is refused, at() gives the colour
        what = "pixel access"; unsigned i = choose((uint32_t)a.w + 2), j = choose((uint32_t)a.h + 2), k = choose((uint32_t)a.d + 2); if (chance(50)) i = ~0u; bool in2 = i < a.w && j < a.h, in3 = in2 && k < a.d; int thr = 0; kv::rgb_color c(0, 0, 0); byte v2 = 0, v3 = 0, *p2 = nullptr, *p3 = nullptr; kv::image const& ci = *a.im;
        { Unscope u; try { c = ci.at(i, j); } catch (std::out_of_range const&) { thr |= 1; } try { v2 = ci(i, j); } catch (std::out_of_range const&) { thr |= 2; } try { v3 = ci(i, j, k); } catch (std::out_of_range const&) { thr |= 4; } try { p2 = &(*a.im)(i, j); } catch (std::out_of_range const&) { thr |= 8; } try { p3 = &(*a.im)(i, j, k); } catch (std::out_of_range const&) { thr |= 16; } }
        if (!a.d) break; REQUIRE(thr == ((in2 ? 0 : 11) | (in3 ? 0 : 20)), "range-check", "pixel (%u,%u,%u) of a %zux%zux%zu image: exceptions %d", i, j, k, a.w, a.h, a.d, thr); if (!in2) { probe("outside_access"); break; }
        REQUIRE(v2 == px(a, i, j, 0) && p2 && *p2 == v2 && (!in3 || (v3 == px(a, i, j, k) && p3 && *p3 == v3)), "wrong-pixel", "pixel (%u,%u,%u) of a %zux%zux%zu image", i, j, k, a.w, a.h, a.d);
        byte r = px(a, i, j, 0), g = a.d < 3 ? r : px(a, i, j, 1), b = a.d < 3 ? r : px(a, i, j, 2); REQUIRE(c.r == r && c.g == g && c.b == b, "wrong-colour", "at(%u,%u) of a %zux%zux%zu image is %u,%u,%u instead of %u,%u,%u", i, j, a.w, a.h, a.d, c.r, c.g, c.b, r, g, b); break; }
      case 9: { what = "destroying an image"; ev("destroy %zu", x); drop(x); break; }
      case 10: { // an image on memory of the caller
        what = "wrapping foreign memory"; if (ims.size() > 8) break; size_t w = range(1, 4), hh = range(1, 4), d = range(1, 3), pad = choose(4); auto b = std::make_shared<Buf>(); b->own = false; size_t row = w * d + pad; b->v.assign(row * hh, 0); byte* mem = nullptr; { Unscope u; mem = new byte[row * hh]; } for (size_t i = 0; i < row * hh; ++i) mem[i] = b->v[i] = (byte)(i * 11); kv::image* p = nullptr;
        auto fr = [mem](const byte*) { Unscope u; delete[] mem; }; b->keep = nullptr; b->foreign = nullptr; b->base = mem; if (!attempt(oom, [&]() { p = new kv::image(mem, w, hh, d, (ptrdiff_t)d, (ptrdiff_t)row, 1); })) { fr(mem); break; }
        struct Owner : Buf { byte* m; ~Owner() { Unscope u; delete[] m; } }; auto o = std::make_shared<Owner>(); (Buf&)*o = *b; o->m = mem; Im m; m.im = p; m.b = o; m.off = 0; m.w = w; m.h = hh; m.d = d; m.ws = (int64_t)d; m.hs = (int64_t)row; m.ds = 1; ims.push_back(m); count("foreign_memory"); break; }
      default: { // container and raw memory
        what = "copying image memory"; if (chance(500)) { kv::image_container_sptr c; kv::image* p = nullptr; if (!attempt(oom, [&]() { c = std::make_shared<kv::simple_image_container>(*a.im); })) break; REQUIRE(c->width() == a.w && c->height() == a.h && c->depth() == a.d && c->size() == (a.b->own ? a.b->v.size() : 0), "wrong-size", "container of a %zux%zux%zu image", a.w, a.h, a.d); if (attempt(oom, [&]() { p = new kv::image(c->get_image()); })) { Im m = a; m.im = p; ims.push_back(m); } { Unscope u; c.reset(); } break; }
        kv::image_memory *m1 = nullptr, *m2 = nullptr; size_t n1 = choose(20), n2 = choose(20); std::vector<byte> c1, c2; { Unscope u; m1 = new kv::image_memory(n1); m2 = chance(150) ? new kv::image_memory() : new kv::image_memory(n2); } n2 = m2->size(); for (size_t i = 0; i < n1; ++i) { ((byte*)m1->data())[i] = (byte)(i * 3 + 1); c1.push_back((byte)(i * 3 + 1)); } for (size_t i = 0; i < n2; ++i) { ((byte*)m2->data())[i] = (byte)(i * 5); c2.push_back((byte)(i * 5)); }
        where("assignment of %zu bytes of image memory to %zu", n1, n2); bool ok = attempt(oom || chance(300), [&]() { *m2 = *m1; }); std::vector<byte> now; size_t sz = m2->size(); for (size_t i = 0; i < sz; ++i) { Unscope u; byte v = ((byte*)m2->data())[i]; Scope s; now.push_back(v); } REQUIRE(ok ? now == c1 : (now == c2 || now == c1 || now.empty()), "wrong-memory", "%s assignment of %zu bytes of image memory to %zu: %zu bytes", ok ? "an" : "a failed", n1, n2, now.size());
        kv::image_memory* m3 = nullptr; if (attempt(oom, [&]() { m3 = new kv::image_memory(*m1); })) { REQUIRE(m3->size() == n1 && (!n1 || !memcmp(m3->data(), m1->data(), n1)), "wrong-memory", "copy of %zu bytes of image memory", n1); if (n1 && sz) { Unscope u; ((byte*)m3->data())[0] = 99; Scope s; REQUIRE(((byte*)m1->data())[0] == c1[0], "shared-memory", "a copy of image memory shares it"); } }
        { Unscope u; delete m1; delete m2; delete m3; } break; } }
    if (!ims.empty() && chance(200)) { size_t y = choose((uint32_t)ims.size()); Im& m = ims[y]; if (m.w && m.h && m.d) { unsigned i = choose((uint32_t)m.w), j = choose((uint32_t)m.h), k = choose((uint32_t)m.d); byte v = (byte)(++serial * 29); { Unscope u; (*m.im)(i, j, k) = v; } px(m, i, j, k) = v; } }
    check_all(what); }
}
// several threads share images: each copies, views, reads and destroys its own handles
void image_threads() {
  Scope s; kv::image* base; { Unscope u; base = new kv::image(4, 3, 2, chance(500)); } for (unsigned k = 0; k < 2; ++k) for (unsigned j = 0; j < 3; ++j) for (unsigned i = 0; i < 4; ++i) (*base)(i, j, k) = (byte)(i + 10 * j + 100 * k); g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{5, 30, 200}));
  uint32_t nt = range(2, 3); uint32_t keep = choose(nt + 1); std::vector<kv::image*> mine; for (uint32_t t = 0; t < nt; ++t) { kv::image* p; { Unscope u; p = new kv::image(*base); } mine.push_back(p); } if (keep) { Unscope u; delete base; base = nullptr; }
  for (uint32_t t = 0; t < nt; ++t) { kv::image* p = mine[t]; uint32_t n = range(1, 4); std::vector<uint32_t> ops; for (uint32_t i = 0; i < n; ++i) ops.push_back(choose(4)); spawn([=]() {
      kv::image* own = p; for (uint32_t op : ops) {
        if (op == 0) { kv::image c(*own); for (unsigned j = 0; j < 3; ++j) { byte v = c(1, j, 1); REQUIRE(v == 1 + 10 * j + 100, "wrong-pixel", "a copy made by one of several threads: pixel (1,%u,1) is %u", j, v); } }
        else if (op == 1) { kv::image c; c.copy_from(*own); c(0, 0, 0) = 77; REQUIRE(c(3, 2, 1) == 3 + 20 + 100, "wrong-pixel", "a deep copy made by one of several threads"); kv::image e(*own); REQUIRE(!kv::equal_content(c, e), "wrong-comparison", "equal_content with a changed deep copy"); }
        else if (op == 2) { kv::image v(own->memory(), &(*own)(1, 1, 0), 2, 2, 1, own->w_step(), own->h_step(), own->d_step()); REQUIRE(v(1, 1) == 2 + 20, "wrong-pixel", "a view made by one of several threads: %u", v(1, 1)); }
        else { kv::image c(*own); *own = c; auto cc = std::make_shared<kv::simple_image_container>(*own); kv::image g = cc->get_image(); REQUIRE(g(2, 1, 0) == 12, "wrong-pixel", "an image out of a container: %u", g(2, 1, 0)); } }
      delete own; }); }
  where("%u threads sharing an image", nt); { Unscope u; run_all(); if (base) delete base; } nontrivial(); count("threaded_runs");
}
void run_c34() {
  vfs::reset(); { Scope s; ims.clear(); serial = 0; } uint64_t live = alloc_live(), seq = alloc_seq(); Scope s;
  if (chance(250)) image_threads(); else { image_history(); while (!ims.empty()) { size_t x = choose((uint32_t)ims.size()); drop(x); check_all("destroying an image"); } }
  alloc_check_all(); REQUIRE(alloc_live() == live, "memory-leak", "%lld blocks left: %s", (long long)(alloc_live() - live), alloc_list(seq).c_str());
}
Reg r34("C34", run_c34);

// ------------------------------------------------------------------ C35
struct St { int64_t f; kv::feature_sptr feat; kv::descriptor_sptr desc; };
struct Tr { kv::track_sptr t; std::vector<St> h; int64_t id; };
typedef std::vector<Tr> Trs;
bool same_states(const kv::track& t, const std::vector<St>& h) { size_t i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) if (i >= h.size() || it->frame_id != h[i].f || it->feat != h[i].feat || it->desc != h[i].desc) return false; return i == h.size(); }
int64_t lastf(const std::vector<Tr>& v) { int64_t r = 0; bool any = false; for (auto& t : v) if (!t.h.empty()) { r = any ? std::max(r, t.h.back().f) : t.h.back().f; any = true; } return r; }
const St* at(const Tr& t, int64_t f) { for (auto& s : t.h) if (s.f == f) return &s; return nullptr; }
int64_t frame_of(const Trs& v, int64_t off, bool* exists) { *exists = true; if (off >= 0) return off; int64_t f = lastf(v) + 1 + off; if (f < 0) *exists = false; return f; }
std::string ids(const std::vector<kv::track_sptr>& v) { std::string r; for (auto& t : v) r += strf("%lld ", (long long)t->id()); return r; }
// every query of a track set against the plain list of states
void query(kv::track_set& ts, const Trs& v, uint32_t which, int64_t off, int64_t off2, bool oom, const char* who) {
  bool ex; int64_t f = frame_of(v, off, &ex); ev("%s: query %u (%lld, %lld)", who, which, (long long)off, (long long)off2);
  auto tracks_q = [&](const char* name, const std::function<kv::track_set_sptr()>& fn, const std::function<bool(const Tr&)>& pred) {
    std::vector<kv::track_sptr> got; kv::track_set_sptr r; where("%s(%lld) on %zu tracks", name, (long long)off, v.size()); if (!attempt(oom, [&]() { r = fn(); })) return; { Unscope u; auto g = r->tracks(); Scope s; got.assign(g.begin(), g.end()); } std::vector<kv::track_sptr> want; for (auto& t : v) if (pred(t)) want.push_back(t.t);
    REQUIRE(got == want, "wrong-tracks", "%s: %s(%lld) gives tracks %sinstead of %s", who, name, (long long)off, ids(got).c_str(), ids(want).c_str()); REQUIRE(r->size() == want.size() && r->empty() == want.empty(), "wrong-tracks", "%s: size of the set from %s is %zu", who, name, r->size()); if (!want.empty()) nontrivial(); Unscope u; r.reset(); };
  switch (which) {
    case 0: tracks_q("active_tracks", [&]() { return ts.active_tracks(off); }, [&](const Tr& t) { return ex && at(t, f); }); break;
    case 1: tracks_q("inactive_tracks", [&]() { return ts.inactive_tracks(off); }, [&](const Tr& t) { return !(ex && at(t, f)); }); break;
    case 2: tracks_q("new_tracks", [&]() { return ts.new_tracks(off); }, [&](const Tr& t) { return ex && !t.h.empty() && t.h.front().f == f; }); break;
    case 3: tracks_q("terminated_tracks", [&]() { return ts.terminated_tracks(off); }, [&](const Tr& t) { return ex && !t.h.empty() && t.h.back().f == f; }); break;
    case 4: case 5: { bool last = which == 5; bool ex2 = true; int64_t g = last ? lastf(v) : f; if (!last) ex2 = ex; std::vector<kv::feature_sptr> got, want; for (auto& t : v) { const St* s = ex2 ? at(t, g) : nullptr; if (s) want.push_back(s->feat); }
      kv::feature_set_sptr r; where("%s on %zu tracks", last ? "last_frame_features" : "frame_features", v.size()); if (!attempt(oom, [&]() { r = last ? ts.last_frame_features() : ts.frame_features(off); })) break; { Unscope u; auto q = r->features(); Scope s; got.assign(q.begin(), q.end()); } REQUIRE(got == want, "wrong-features", "%s: %s(%lld) gives %zu features instead of %zu, or others", who, last ? "last_frame_features" : "frame_features", (long long)off, got.size(), want.size()); if (!want.empty()) nontrivial(); { Unscope u; r.reset(); } break; }
    case 6: case 7: { bool last = which == 7; bool ex2 = true; int64_t g = last ? lastf(v) : f; if (!last) ex2 = ex; std::vector<kv::descriptor_sptr> got, want; for (auto& t : v) { const St* s = ex2 ? at(t, g) : nullptr; if (s) want.push_back(s->desc); }
      kv::descriptor_set_sptr r; where("%s on %zu tracks", last ? "last_frame_descriptors" : "frame_descriptors", v.size()); if (!attempt(oom, [&]() { r = last ? ts.last_frame_descriptors() : ts.frame_descriptors(off); })) break; { Unscope u; auto q = r->descriptors(); Scope s; got.assign(q.begin(), q.end()); } REQUIRE(got == want, "wrong-descriptors", "%s: %s(%lld) gives %zu descriptors instead of %zu, or others", who, last ? "last_frame_descriptors" : "frame_descriptors", (long long)off, got.size(), want.size()); { Unscope u; r.reset(); } break; }
    case 8: { bool e2; int64_t g = frame_of(v, off2, &e2); double got = 0; uint32_t any = 0, both = 0; for (auto& t : v) { bool a = ex && at(t, f), b = e2 && at(t, g); any += a || b; both += a && b; } if (!attempt(oom, [&]() { got = ts.percentage_tracked(off, off2); })) break; double want = any ? (double)both / any : 0; REQUIRE(got == want, "wrong-percentage", "%s: percentage_tracked(%lld,%lld) is %g instead of %u/%u", who, (long long)off, (long long)off2, got, both, any); if (both && both < any) probe("partly_tracked"); break; }
    case 9: { std::set<int64_t> got, want, gi, wi; for (auto& t : v) { wi.insert(t.id); for (auto& s : t.h) want.insert(s.f); } if (!attempt(oom, [&]() { auto q = ts.all_frame_ids(); auto q2 = ts.all_track_ids(); Scope s; got.insert(q.begin(), q.end()); gi.insert(q2.begin(), q2.end()); })) break; REQUIRE(got == want && gi == wi, "wrong-ids", "%s: %zu frames instead of %zu, %zu track ids instead of %zu", who, got.size(), want.size(), gi.size(), wi.size()); break; }
    case 10: { int64_t a = 0, b = 0, wa = 0, wb = lastf(v); bool any = false; for (auto& t : v) if (!t.h.empty()) { wa = any ? std::min(wa, t.h.front().f) : t.h.front().f; any = true; } if (!attempt(oom, [&]() { a = ts.first_frame(); b = ts.last_frame(); })) break; REQUIRE(a == wa && b == wb, "wrong-frame-range", "%s: frames %lld to %lld instead of %lld to %lld", who, (long long)a, (long long)b, (long long)wa, (long long)wb); if (any && wa > 0) nontrivial(); break; }
    default: { int64_t id = chance(700) && !v.empty() ? v[choose((uint32_t)v.size())].id : choose(12); kv::track_sptr got, want; for (auto& t : v) if (t.id == id) { want = t.t; break; } if (!attempt(oom, [&]() { got = ts.get_track(id); })) break; REQUIRE(got == want, "wrong-tracks", "%s: get_track(%lld) gives %s", who, (long long)id, got ? "another track" : "nothing"); Unscope u; got.reset(); break; } }
  count("queries");
}
void query_track(const Tr& t, const char* who) {
  REQUIRE(t.t->size() == t.h.size() && t.t->empty() == t.h.empty() && same_states(*t.t, t.h), "wrong-states", "%s: track %lld has %zu states instead of %zu, or others", who, (long long)t.id, t.t->size(), t.h.size());
  REQUIRE(t.t->id() == t.id, "wrong-ids", "%s: track id is %lld", who, (long long)t.t->id()); if (!t.h.empty()) REQUIRE(t.t->first_frame() == t.h.front().f && t.t->last_frame() == t.h.back().f, "wrong-frame-range", "%s: frames of track %lld", who, (long long)t.id);
  int64_t f = t.h.size() > 1 && chance(600) ? t.h[choose((uint32_t)t.h.size())].f + choose(3) - 1 : choose(14); const St* s = at(t, f); kv::track::history_const_itr it; { Unscope u; it = t.t->find(f); } REQUIRE((it != t.t->end()) == (s != nullptr) && (!s || (it->frame_id == f && it->feat == s->feat && it->desc == s->desc)), "wrong-states", "%s: find(%lld) in track %lld gives %s", who, (long long)f, (long long)t.id, it == t.t->end() ? "nothing" : "a state"); }
void run_c35() {
  vfs::reset(); { kv::simple_descriptor_set first; }   // creates the logger of this class
  uint64_t live = alloc_live(), seq = alloc_seq(); Scope s; {
  Trs v; bool oom = chance(500); uint32_t nt = choose(6); int64_t base = chance(400) ? 0 : range(1, 5); bool big = chance(60); if (big) { probe("many_tracks"); nt = range(10, 40); } if (chance(100)) { probe("large_frame_numbers"); base += chance(500) ? 2147483640ll : 40000000000ll; }
  auto state = [&](int64_t f) { St x; x.f = f; Unscope u; if (chance(900)) x.feat = std::make_shared<kv::feature_d>(kv::vector_2d((double)f, 1.0)); if (chance(700)) x.desc = std::make_shared<kv::descriptor_dynamic<double>>(2); return x; };
  for (uint32_t i = 0; i < nt; ++i) {
    Tr t; t.id = chance(150) ? choose(4) : i; { Unscope u; t.t = chance(200) ? nullptr : std::make_shared<kv::track>(); } if (!t.t) { St x = state(base + choose(4)); { Unscope u; t.t = std::make_shared<kv::track>(kv::track::track_state(x.f, x.feat, x.desc)); } t.h.push_back(x); } { Unscope u; t.t->set_id(t.id); }
    uint32_t n = chance(150) ? 0 : choose(6); if (chance(big ? 20 : 60)) { n = range(10, 80); probe("long_track"); } if (!n && t.h.empty()) probe("empty_track"); int64_t f = t.h.empty() ? base + choose(4) : t.h.back().f + choose(2);
    for (uint32_t q = 0; q < n; ++q) {
      if (chance(150)) {   // append a whole track, sometimes a copy of the track itself
        kv::track_sptr o; std::vector<St> oh; bool self = chance(200); if (self) { oh = t.h; Unscope u; o = chance(500) ? t.t : std::make_shared<kv::track>(*t.t); } else { { Unscope u; o = std::make_shared<kv::track>(); } uint32_t k = choose(3); int64_t g = f; for (uint32_t z = 0; z < k; ++z) { St x = state(g); { Unscope u; o->append(kv::track::track_state(x.f, x.feat, x.desc)); } oh.push_back(x); g += 1 + choose(2); } }
        bool want = t.h.empty() || oh.empty() || t.h.back().f < oh.front().f, got = false; where("append of a track of %zu states to one of %zu", oh.size(), t.h.size()); if (attempt(oom, [&]() { got = t.t->append(*o); })) { REQUIRE(got == want, "wrong-append", "append of a track of %zu states to one of %zu returns %d", oh.size(), t.h.size(), (int)got); if (got) t.h.insert(t.h.end(), oh.begin(), oh.end()); }
        if (!t.h.empty()) f = t.h.back().f + choose(3); { Unscope u; o.reset(); } }
      else { St x = state(f); bool want = t.h.empty() || t.h.back().f < f, got = false; where("append of frame %lld to a track of %zu states", (long long)f, t.h.size()); if (attempt(oom, [&]() { kv::track::track_state ts(x.f, x.feat, x.desc); got = t.t->append(ts); })) { REQUIRE(got == want, "wrong-append", "append of frame %lld after frame %lld returns %d", (long long)f, (long long)(t.h.empty() ? -1 : t.h.back().f), (int)got); if (got) t.h.push_back(x); else probe("append_refused"); } f += 1 + choose(3); if (chance(150)) f -= 3; if (f < 0) f = 0; }
      query_track(t, "a growing track"); }
    if (chance(150)) { kv::track_sptr c; Unscope u; c = std::make_shared<kv::track>(*t.t); Scope sc; REQUIRE(same_states(*c, t.h) && c->id() == t.id, "wrong-states", "copy of a track"); St x = state(t.h.empty() ? 3 : t.h.back().f + 1); { Unscope u2; c->append(kv::track::track_state(x.f, x.feat, x.desc)); } query_track(t, "a track whose copy grew"); { Unscope u2; c.reset(); } }
    v.push_back(t); ev("track %lld: %zu states from %lld", (long long)t.id, t.h.size(), t.h.empty() ? -1ll : (long long)t.h[0].f); }
  kv::track_set_sptr ts; { std::vector<kv::track_sptr> l; for (auto& t : v) l.push_back(t.t); Unscope u; ts = std::make_shared<kv::simple_track_set>(l); }
  REQUIRE(ts->size() == v.size() && ts->empty() == v.empty(), "wrong-tracks", "a set of %zu tracks has %zu", v.size(), ts->size());
  auto off = [&v]() { if (chance(450)) { std::vector<int64_t> fs; for (auto& t : v) for (auto& x : t.h) fs.push_back(x.f); if (!fs.empty()) return fs[choose((uint32_t)fs.size())]; } if (chance(60)) return (int64_t)5000000000ll * (chance(500) ? 1 : -1); return (int64_t)choose(16) - (chance(400) ? (int64_t)range(1, 16) : 0); };
  if (chance(700)) { uint32_t nq = range(3, 14); for (uint32_t q = 0; q < nq; ++q) { int64_t a = off(), b = off(); uint32_t w = choose(12); query(*ts, v, w, a, b, oom, "one thread"); if (chance(150) && !v.empty()) { Tr& t = v[choose((uint32_t)v.size())]; St x = state(t.h.empty() ? choose(5) : t.h.back().f + 1); { Unscope u; t.t->append(kv::track::track_state(x.f, x.feat, x.desc)); } t.h.push_back(x); probe("set_changes_between_queries"); } } for (auto& t : v) query_track(t, "after queries"); }
  else { uint32_t k = range(2, 3); g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{5, 30, 200})); for (uint32_t i = 0; i < k; ++i) { std::vector<std::pair<uint32_t, std::pair<int64_t, int64_t>>> plan; uint32_t nq = range(1, 4); for (uint32_t q = 0; q < nq; ++q) { int64_t a = off(), b = off(); plan.push_back({choose(11), {a, b}}); } spawn([=, &ts, &v]() { Scope s; for (auto& p : plan) query(*ts, v, p.first, p.second.first, p.second.second, false, "one of several threads"); }); } { Unscope u; run_all(); } g_race_detect = false; count("threaded_runs"); nontrivial(); }
  for (auto& t : v) { Unscope u; for (auto& x : t.h) { x.feat.reset(); x.desc.reset(); } t.t.reset(); } { Unscope u; ts.reset(); } }
  alloc_check_all(); REQUIRE(alloc_live() == live, "memory-leak", "%lld blocks left: %s", (long long)(alloc_live() - live), alloc_list(seq).c_str());
}
Reg r35("C35", run_c35);
}
