// Algorithm front ends: path checks before an image implementation is called, correspondences handed to estimators,
// with storage faults, failing allocations, failing implementations and several threads.
#include "h.h"
#include <vital/algo/image_io.h>
#include <vital/algo/estimate_similarity_transform.h>
#include <vital/algo/estimate_homography.h>
#include <vital/algo/estimate_fundamental_matrix.h>
#include <vital/algo/estimate_essential_matrix.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/algo/filter_features.h>
#include <vital/exceptions.h>
#include <functional>
namespace {
using namespace h; namespace kv = kwiver::vital; namespace ka = kwiver::vital::algo;
struct refused { int code; };
// what the implementation of one thread was called with
struct Rec { int calls = 0; std::string file; kv::image_container* data = nullptr; std::vector<kv::vector_3d> a3, b3; std::vector<kv::vector_2d> a2, b2; kv::camera_intrinsics* k1 = nullptr; kv::camera_intrinsics* k2 = nullptr; double scale = 0; std::vector<bool>* inl = nullptr;
  struct Cam { kv::camera* cam; std::vector<kv::feature*> f; std::vector<kv::landmark*> l; kv::camera_sptr out; }; std::vector<Cam> cams; int fail_at = -1; kv::feature_set* fs = nullptr; std::vector<unsigned> idx; };
Rec* rec[16]; Rec& R() { return *rec[self()]; }
void called() { Rec& r = R(); int n = r.calls++; if (n == r.fail_at) { fault("implementation"); --g_depth; struct D { ~D() { ++g_depth; } } d; throw refused{n}; } }
kv::image_container_sptr g_img;
#define SIM_IMPL(T) std::string impl_name() const { return "sim"; } void set_configuration(kv::config_block_sptr) {} bool check_configuration(kv::config_block_sptr) const { return true; }
struct io : kv::algorithm_impl<io, ka::image_io> { SIM_IMPL(io)
  kv::image_container_sptr load_(std::string const& f) const { { Scope s; R().file.assign(f.data(), f.size()); called(); } return g_img; }
  void save_(std::string const& f, kv::image_container_sptr d) const { Scope s; R().file.assign(f.data(), f.size()); R().data = d.get(); called(); } };
struct st : kv::algorithm_impl<st, ka::estimate_similarity_transform> { SIM_IMPL(st) using ka::estimate_similarity_transform::estimate_transform;
  kv::similarity_d estimate_transform(std::vector<kv::vector_3d> const& a, std::vector<kv::vector_3d> const& b) const { { Scope s; R().a3 = a; R().b3 = b; called(); } return kv::similarity_d(7.5, kv::rotation_d(), kv::vector_3d(1, 2, 3)); } };
kv::homography_sptr g_h; kv::fundamental_matrix_sptr g_f; kv::essential_matrix_sptr g_e;
typedef std::vector<kv::vector_2d> V2;
void est(V2 const& a, V2 const& b, std::vector<bool>& in, double sc) { { Scope s; Rec& r = R(); r.a2 = a; r.b2 = b; r.inl = &in; r.scale = sc; called(); } std::vector<bool> v(a.size(), true); in.swap(v); }
struct eh : kv::algorithm_impl<eh, ka::estimate_homography> { SIM_IMPL(eh) using ka::estimate_homography::estimate; kv::homography_sptr estimate(V2 const& a, V2 const& b, std::vector<bool>& in, double sc) const { est(a, b, in, sc); return g_h; } };
struct ef : kv::algorithm_impl<ef, ka::estimate_fundamental_matrix> { SIM_IMPL(ef) using ka::estimate_fundamental_matrix::estimate; kv::fundamental_matrix_sptr estimate(V2 const& a, V2 const& b, std::vector<bool>& in, double sc) const { est(a, b, in, sc); return g_f; } };
struct ee : kv::algorithm_impl<ee, ka::estimate_essential_matrix> { SIM_IMPL(ee) using ka::estimate_essential_matrix::estimate;
  kv::essential_matrix_sptr estimate(V2 const& a, V2 const& b, const kv::camera_intrinsics_sptr c1, const kv::camera_intrinsics_sptr c2, std::vector<bool>& in, double sc) const { { Scope s; R().k1 = c1.get(); R().k2 = c2.get(); } est(a, b, in, sc); return g_e; } };
bool g_replace;
struct oc : kv::algorithm_impl<oc, ka::optimize_cameras> { SIM_IMPL(oc) using ka::optimize_cameras::optimize;
  void optimize(kv::camera_sptr& c, std::vector<kv::feature_sptr> const& f, std::vector<kv::landmark_sptr> const& l) const {
    { Scope s; Rec::Cam k; k.cam = c.get(); for (auto& x : f) k.f.push_back(x.get()); for (auto& x : l) k.l.push_back(x.get()); R().cams.push_back(k); called(); }
    if (g_replace) { kv::camera_sptr n = c->clone(); c = n; } { Scope s; R().cams.back().out = c; } } };
struct ff : kv::algorithm_impl<ff, ka::filter_features> { SIM_IMPL(ff) using ka::filter_features::filter; kv::feature_set_sptr out; std::vector<unsigned> keep;
  kv::feature_set_sptr filter(kv::feature_set_sptr f, std::vector<unsigned>& idx) const { { Scope s; R().fs = f.get(); called(); } idx.insert(idx.end(), keep.begin(), keep.end()); return out; } };
// ------------------------------------------------------------------ one call, judged
enum Out { DONE, NO_MEMORY, REFUSED };
Out call(bool may_fail, bool impl_may_fail, const std::function<void()>& fn) {
  Rec fresh; std::swap(R(), fresh); if (impl_may_fail && chance(150)) R().fail_at = (int)choose(chance(300) ? 30 : 3); bool oom = may_fail && chance(150); if (oom) alloc_arm(1 + choose(chance(200) ? 200 : 12)); Out o = DONE;
  try { Unscope u; fn(); } catch (std::bad_alloc const&) { o = NO_MEMORY; } catch (refused const& r) { o = REFUSED; REQUIRE(R().fail_at == r.code, "unexpected-exception", "exception of another call"); }
  if (oom) { if (alloc_fired()) fault("alloc"); REQUIRE(alloc_fired() || o != NO_MEMORY, "unexpected-exception", "bad_alloc without a failed allocation"); REQUIRE(!alloc_fired() || o != DONE, "swallowed", "a failed allocation was ignored"); alloc_disarm(); }
  else REQUIRE(o != NO_MEMORY, "unexpected-exception", "bad_alloc without a failed allocation");
  REQUIRE(o != DONE || R().fail_at < 0 || R().calls <= R().fail_at, "swallowed", "the exception of the implementation was swallowed"); return o; }
std::string p2(V2 const& v) { std::string r; for (auto& x : v) r += strf("(%g,%g) ", x[0], x[1]); return r; }
std::string p3(std::vector<kv::vector_3d> const& v) { std::string r; for (auto& x : v) r += strf("(%g,%g,%g) ", x[0], x[1], x[2]); return r; }
kv::vector_3d v3() { return kv::vector_3d((double)range(0, 900) / 8, (double)range(0, 9), (double)range(0, 9)); }
void similarity(bool threads) {
  std::shared_ptr<st> al; uint32_t n = choose(7), m = chance(500) ? n : choose(7), span = 12; if (chance(60)) { n = range(10, 120); m = chance(500) ? n : range(5, 120); span = range(20, 300); probe("many_points"); } std::vector<kv::vector_3d> pa, pb; std::vector<int64_t> fa, fb; int64_t neg = chance(150) ? -6 : 0; for (uint32_t i = 0; i < n; ++i) { pa.push_back(chance(80) && !pa.empty() ? pa[0] : v3()); fa.push_back(neg + choose(span) + (chance(60) ? 4000000000ll : 0)); } for (uint32_t i = 0; i < m; ++i) { pb.push_back(chance(80) && !pb.empty() ? pb[0] : v3()); fb.push_back(neg + choose(span) + (chance(60) ? 4000000000ll : 0)); }
  int form = (int)choose(5); ev("similarity form %d, %u and %u", form, n, m); where("estimate_transform form %d", form);
  auto cam = [](kv::vector_3d const& p) { return std::make_shared<kv::simple_camera>(p, kv::rotation_d()); }; auto lm = [](kv::vector_3d const& p) { return std::make_shared<kv::landmark_d>(p); };
  std::vector<kv::camera_sptr> ca, cb; std::vector<kv::landmark_sptr> la, lb; kv::camera_map_sptr cma, cmb; kv::landmark_map_sptr lma, lmb; std::map<int64_t, kv::vector_3d> ma, mb;
  for (size_t i = 0; i < n; ++i) ma[fa[i]] = pa[i]; for (size_t i = 0; i < m; ++i) mb[fb[i]] = pb[i];
  { Unscope u; al = std::make_shared<st>(); if (form == 1) { for (auto& p : pa) ca.push_back(cam(p)); for (auto& p : pb) cb.push_back(cam(p)); } if (form == 2) { for (auto& p : pa) la.push_back(lm(p)); for (auto& p : pb) lb.push_back(lm(p)); }
    if (form >= 3) { kv::camera_map::map_camera_t x, y; kv::landmark_map::map_landmark_t z, w; for (auto& e : ma) { x[(kv::frame_id_t)e.first] = cam(e.second); z[(kv::landmark_id_t)e.first] = lm(e.second); } for (auto& e : mb) { y[(kv::frame_id_t)e.first] = cam(e.second); w[(kv::landmark_id_t)e.first] = lm(e.second); }
      cma = std::make_shared<kv::simple_camera_map>(x); cmb = std::make_shared<kv::simple_camera_map>(y); lma = std::make_shared<kv::simple_landmark_map>(z); lmb = std::make_shared<kv::simple_landmark_map>(w); } }
  std::vector<kv::vector_3d> wa = pa, wb = pb; if (form >= 3) { wa.clear(); wb.clear(); for (auto& e : ma) if (mb.count(e.first)) { wa.push_back(e.second); wb.push_back(mb[e.first]); } }
  auto once = [&]() { kv::similarity_d r; ka::estimate_similarity_transform const& a = *al; Out o = call(!threads, true, [&]() { r = form == 0 ? a.estimate_transform(pa, pb) : form == 1 ? a.estimate_transform(ca, cb) : form == 2 ? a.estimate_transform(la, lb) : form == 3 ? a.estimate_transform(cma, cmb) : a.estimate_transform(lma, lmb); });
    REQUIRE(R().calls <= 1, "called-twice", "the implementation was called %d times", R().calls); if (R().calls) REQUIRE(R().a3 == wa && R().b3 == wb, "wrong-pairs", "form %d: the implementation got %s/ %s instead of %s/ %s", form, p3(R().a3).c_str(), p3(R().b3).c_str(), p3(wa).c_str(), p3(wb).c_str());
    if (o == DONE) { REQUIRE(R().calls == 1, "not-called", "the implementation was not called"); REQUIRE(r.scale() == 7.5 && r.translation() == kv::vector_3d(1, 2, 3), "wrong-result", "the result of the implementation was not returned"); if (!wa.empty()) nontrivial(); } };
  if (!threads) once(); else { for (int t = 0; t < 3; ++t) spawn([&]() { Scope s; once(); }); { Unscope u; run_all(); } } }
void matching(bool threads) {
  uint32_t n = range(1, 6), m = range(1, 6), k = choose(8); if (chance(60)) { n = range(10, 150); m = range(10, 150); k = range(20, 200); probe("many_matches"); } uint32_t same = chance(300) ? 500 : 0;   /* features at one place */ V2 l1, l2; std::vector<kv::match> ms; kv::feature_set_sptr f1, f2; kv::match_set_sptr mset; kv::camera_intrinsics_sptr c1, c2; std::shared_ptr<eh> a1; std::shared_ptr<ef> a2; std::shared_ptr<ee> a3; std::vector<kv::feature_sptr> v1, v2; double sc = chance(400) ? 1.0 : (double)choose(9) / 4;
  for (uint32_t i = 0; i < n; ++i) l1.push_back(!l1.empty() && chance(same) ? l1[choose((uint32_t)l1.size())] : kv::vector_2d(i, choose(9))); for (uint32_t i = 0; i < m; ++i) l2.push_back(!l2.empty() && chance(same) ? l2[choose((uint32_t)l2.size())] : kv::vector_2d(100 + i, choose(9))); for (uint32_t i = 0; i < k; ++i) ms.push_back(kv::match(choose(n), choose(m)));
  int form = (int)choose(5); bool dflt = sc == 1.0; ev("matching form %d, %u features, %u features, %u matches", form, n, m, k); where("estimate form %d", form);
  { Unscope u; for (auto& p : l1) v1.push_back(std::make_shared<kv::feature_d>(p)); for (auto& p : l2) v2.push_back(std::make_shared<kv::feature_d>(p)); f1 = std::make_shared<kv::simple_feature_set>(v1); f2 = std::make_shared<kv::simple_feature_set>(v2); mset = std::make_shared<kv::simple_match_set>(ms); c1 = std::make_shared<kv::simple_camera_intrinsics>(); c2 = std::make_shared<kv::simple_camera_intrinsics>(); a1 = std::make_shared<eh>(); a2 = std::make_shared<ef>(); a3 = std::make_shared<ee>(); if (!g_h) { g_h = std::make_shared<kv::homography_<double>>(); g_f = std::make_shared<kv::fundamental_matrix_<double>>(kv::matrix_3x3d::Identity().eval()); g_e = std::make_shared<kv::essential_matrix_<double>>(kv::rotation_d(), kv::vector_3d(1, 0, 0)); } }
  V2 wa, wb; for (auto& x : ms) { wa.push_back(l1[x.first]); wb.push_back(l2[x.second]); } if (form == 4) { wa = l1; wb = l2; }
  auto once = [&]() { std::vector<bool> inl, before; { Unscope u; inl.assign(3, false); before = inl; } void* r = nullptr; ka::estimate_homography const& h1 = *a1; ka::estimate_fundamental_matrix const& h2 = *a2; ka::estimate_essential_matrix const& h3 = *a3;
    Out o = call(!threads, true, [&]() { switch (form) { case 0: r = (dflt ? h1.estimate(f1, f2, mset, inl) : h1.estimate(f1, f2, mset, inl, sc)).get(); break; case 1: r = (dflt ? h2.estimate(f1, f2, mset, inl) : h2.estimate(f1, f2, mset, inl, sc)).get(); break; case 2: r = (dflt ? h3.estimate(f1, f2, mset, c1, c2, inl) : h3.estimate(f1, f2, mset, c1, c2, inl, sc)).get(); break;
      case 3: r = (dflt ? h3.estimate(f1, f2, mset, c1, inl) : h3.estimate(f1, f2, mset, c1, inl, sc)).get(); break; default: r = (dflt ? h3.estimate(l1, l2, c2, inl) : h3.estimate(l1, l2, c2, inl, sc)).get(); } });
    Rec& q = R(); REQUIRE(q.calls <= 1, "called-twice", "the implementation was called %d times", q.calls); bool no3 = form >= 2;
    if (q.calls) { REQUIRE(q.a2 == wa && q.b2 == wb, "wrong-pairs", "form %d: the implementation got %s/ %s instead of %s/ %s", form, p2(q.a2).c_str(), p2(q.b2).c_str(), p2(wa).c_str(), p2(wb).c_str()); REQUIRE(q.scale == sc, "wrong-scale", "form %d: the inlier scale is %g instead of %g", form, q.scale, sc); REQUIRE(q.inl == &inl, "wrong-inliers", "the inliers go elsewhere");
      if (no3) { kv::camera_intrinsics *w1 = form == 4 ? c2.get() : c1.get(), *w2 = form == 3 ? c1.get() : c2.get(); REQUIRE(q.k1 == w1 && q.k2 == w2, "wrong-intrinsics", "form %d: wrong camera intrinsics", form); } }
    if (o == DONE) { REQUIRE(q.calls == 1, "not-called", "the implementation was not called"); REQUIRE(r == (form == 0 ? (void*)g_h.get() : form == 1 ? (void*)g_f.get() : (void*)g_e.get()), "wrong-result", "the result of the implementation was not returned"); REQUIRE(inl == std::vector<bool>(wa.size(), true), "wrong-inliers", "the inliers of the implementation were changed"); if (k) nontrivial(); }
    else REQUIRE(inl == before || q.calls, "partly-changed", "a failed call changed the inliers");
    Unscope u; std::vector<bool>().swap(inl); std::vector<bool>().swap(before); };
  if (!threads) once(); else { for (int t = 0; t < 3; ++t) spawn([&]() { Scope s; once(); }); { Unscope u; run_all(); } } }
void cameras(bool threads) {
  kv::camera_map::map_camera_t cm; kv::landmark_map::map_landmark_t lmk; std::vector<kv::track_sptr> tr; kv::camera_map_sptr cams; kv::landmark_map_sptr lms; kv::track_set_sptr ts; std::shared_ptr<oc> al; g_replace = chance(600); std::set<uint64_t> frames, lids, tids; uint32_t span = 8, n = choose(6), m = choose(7), k = choose(7); if (!threads && chance(200)) { span = range(9, 70); n = choose(40); k = choose(12); m = choose(12); } bool dense = !threads && chance(25); if (dense) { span = range(50, 90); n = range(1, 4); k = m = 4 * span; probe("dense_frames"); }
  for (uint32_t i = 0; i < n; ++i) frames.insert(choose(span)); for (uint32_t i = 0; i < m; ++i) lids.insert(choose(span + 1)); for (uint32_t i = 0; i < k; ++i) tids.insert(choose(span + 1)); std::map<uint64_t, std::map<uint64_t, kv::feature*>> want;
  std::vector<std::pair<uint64_t, std::vector<std::pair<uint64_t, int>>>> plan; for (auto id : tids) { std::vector<std::pair<uint64_t, int>> s; for (uint64_t f = 0; f < span; ++f) if (dense ? frames.count(f) && chance(900) : chance(450)) s.push_back({f, chance(800)}); plan.push_back({id, s}); } for (size_t i = plan.size(); i > 1; --i) std::swap(plan[i - 1], plan[choose((uint32_t)i)]);
  { Unscope u; al = std::make_shared<oc>(); for (auto f : frames) cm[(kv::frame_id_t)f] = std::make_shared<kv::simple_camera>(kv::vector_3d(1, 2, (double)f), kv::rotation_d()); for (auto l : lids) lmk[(kv::landmark_id_t)l] = std::make_shared<kv::landmark_d>(kv::vector_3d((double)l, 0, 0));
    for (auto& p : plan) { auto t = std::make_shared<kv::track>(); t->set_id(p.first); for (auto& s : p.second) { kv::feature_sptr f; if (s.second) f = std::make_shared<kv::feature_d>(kv::vector_2d((double)s.first, (double)p.first)); t->append(kv::track::track_state(s.first, f, kv::descriptor_sptr())); Scope sc; if (f && lids.count(p.first) && frames.count(s.first)) want[s.first][p.first] = f.get(); } tr.push_back(t); }
    cams = std::make_shared<kv::simple_camera_map>(cm); lms = std::make_shared<kv::simple_landmark_map>(lmk); ts = std::make_shared<kv::simple_track_set>(tr); }
  int null = !threads && chance(80) ? 1 + (int)choose(3) : 0; kv::camera_map_sptr cams0 = cams; if (null == 1) cams.reset(); if (null == 2) ts.reset(); if (null == 3) lms.reset(); ev("optimize %zu cameras, %zu landmarks, %zu tracks, null %d", frames.size(), lids.size(), tids.size(), null); where("optimize cameras");
  auto once = [&](bool own) { kv::camera_map_sptr c = cams, in = c; ka::optimize_cameras const& a = *al; bool inv = false; Out o = call(!threads && !null, true, [&]() { try { a.optimize(c, ts, lms); } catch (kv::invalid_value const&) { inv = true; } }); Rec& q = R();
    if (null) { REQUIRE(o != DONE || inv, "null-accepted", "missing input was not refused"); REQUIRE(!q.calls && c == in, "null-accepted", "missing input was used"); nontrivial(); return; } REQUIRE(!inv, "refused", "valid input was refused");
    // every camera once, in order of frames, with the matching features and landmarks
    auto f = frames.begin(); for (size_t i = 0; i < q.cams.size(); ++i, ++f) { REQUIRE(f != frames.end(), "called-twice", "more calls than cameras"); auto& e = q.cams[i]; REQUIRE(e.cam == cm[(kv::frame_id_t)*f].get(), "wrong-camera", "call %zu is not for the camera of frame %llu", i, (unsigned long long)*f); auto& w = want[*f]; REQUIRE(e.f.size() == w.size() && e.l.size() == w.size(), "wrong-pairs", "camera %llu got %zu features and %zu landmarks instead of %zu", (unsigned long long)*f, e.f.size(), e.l.size(), w.size());
      size_t j = 0; for (auto& x : w) { bool found = false; for (size_t z = 0; z < e.f.size(); ++z) found |= e.f[z] == x.second && e.l[z] == lmk[(kv::landmark_id_t)x.first].get(); REQUIRE(found, "wrong-pairs", "camera %llu: the feature of track %llu does not come with its landmark", (unsigned long long)*f, (unsigned long long)x.first); ++j; } }
    if (o != DONE) { REQUIRE(c == in, "partly-changed", "a failed optimization changed the camera map"); return; }
    REQUIRE(q.cams.size() == frames.size(), "not-called", "%zu of %zu cameras were optimized", q.cams.size(), frames.size()); REQUIRE(c && c != in, "wrong-result", "the camera map was not replaced"); kv::camera_map::map_camera_t got; { Unscope u; got = c->cameras(); } REQUIRE(got.size() == frames.size() && c->size() == frames.size(), "wrong-result", "%zu cameras instead of %zu", got.size(), frames.size());
    size_t i = 0; for (auto& g : got) { REQUIRE((uint64_t)g.first == *std::next(frames.begin(), (long)i) && g.second == q.cams[i].out, "wrong-result", "camera %llu is not the optimized one", (unsigned long long)g.first); ++i; } kv::camera_map::map_camera_t was; { Unscope u; was = in->cameras(); } REQUIRE(was == cm, "input-changed", "the map given was changed"); Unscope u; was.clear(); got.clear(); if (!want.empty()) nontrivial(); (void)own; };
  if (!threads) once(true); else { for (int t = 0; t < 2; ++t) spawn([&]() { Scope s; once(false); }); { Unscope u; run_all(); } } }
void filtering(bool threads) {
  uint32_t n = range(1, 7); if (chance(60)) { n = range(20, 900); probe("many_features"); } std::vector<kv::feature_sptr> f; std::vector<kv::descriptor_sptr> d; kv::feature_set_sptr fs; kv::descriptor_set_sptr ds; std::shared_ptr<ff> al; std::vector<unsigned> keep; for (uint32_t i = 0; i < n; ++i) if (chance(500)) keep.push_back(i); if (chance(300)) std::reverse(keep.begin(), keep.end()); bool both = chance(700);
  { Unscope u; al = std::make_shared<ff>(); for (uint32_t i = 0; i < n; ++i) { f.push_back(std::make_shared<kv::feature_d>(kv::vector_2d(i, i))); d.push_back(std::make_shared<kv::descriptor_fixed<double, 2>>()); } fs = std::make_shared<kv::simple_feature_set>(f); ds = std::make_shared<kv::simple_descriptor_set>(d); std::vector<kv::feature_sptr> o; for (auto i : keep) o.push_back(f[i]); al->out = std::make_shared<kv::simple_feature_set>(o); al->keep = keep; }
  ev("filter %u features, keep %zu, descriptors %d", n, keep.size(), (int)both); where("filter");
  auto once = [&]() { std::pair<kv::feature_set_sptr, kv::descriptor_set_sptr> r; ka::filter_features const& a = *al; Out o = call(!threads, true, [&]() { if (both) r = a.filter(fs, ds); else r.first = a.filter(fs); }); REQUIRE(R().calls <= 1 && (!R().calls || R().fs == fs.get()), "wrong-call", "wrong call of the implementation"); if (o != DONE) return;
    REQUIRE(R().calls == 1 && r.first == al->out, "wrong-result", "the features of the implementation were not returned"); if (both) { std::vector<kv::descriptor_sptr> g; { Unscope u; g = r.second->descriptors(); } REQUIRE(g.size() == keep.size() && r.second->size() == keep.size(), "wrong-descriptors", "%zu descriptors instead of %zu", g.size(), keep.size()); for (size_t i = 0; i < keep.size(); ++i) REQUIRE(g[i] == d[keep[i]], "wrong-descriptors", "descriptor %zu is not the one of feature %u", i, keep[i]); Unscope u; g.clear(); } nontrivial(); };
  if (!threads) once(); else { for (int t = 0; t < 3; ++t) spawn([&]() { Scope s; once(); }); { Unscope u; run_all(); } } }
void images() {
  vfs::reset(); vfs::mkdirs("/d/sub"); vfs::mkdirs("/w"); vfs::put("/d/a.png", "x"); vfs::put("/d/sub/b.png", ""); vfs::put_link("/d/lf", "a.png"); vfs::put_link("/d/ld", "sub"); vfs::put_link("/d/dead", "nowhere"); vfs::cwd = "/w"; vfs::put("/w/c.png", "y");
  std::shared_ptr<io> al; { Unscope u; al = std::make_shared<io>(); if (!g_img) g_img = std::make_shared<kv::simple_image_container>(kv::image(2, 2)); } bool faulty = chance(400); uint32_t n = range(1, 6); static const std::vector<std::string> P{"/d/a.png", "/d/sub/b.png", "/d/lf", "/d/ld", "/d/ld/b.png", "/d/dead", "/d", "/d/none", "/d/none/x.png", "/d/none/..", "/d/sub/.", "/d/none/sub/../..", "/d/a.png/x", "c.png", "./c.png", "../d/a.png", "none.png", "", "/", "/top.png", "/d/ld/../a.png", "/d/sub/../a.png", "/d/sub/", "/d/new.png", "new.png", "/d/ld/new.png", "/d/dead/x.png"};
  for (uint32_t q = 0; q < n; ++q) { std::string p = pick(P); bool load = chance(500); if (faulty) vfs::swarm(true, false, true); vfs::Node nd; if (!p.empty()) nd = vfs::lookup(p); bool ex = nd != nullptr, dir = nd && nd->type == vfs::DIR_; ev("%s %s", load ? "load" : "save", quote(p).c_str()); where("%s(%s)", load ? "load" : "save", p.c_str());
    ka::image_io const& a = *al; kv::image_container_sptr r; std::string why, wname; Out o; { std::string pu; { Unscope u; pu = p.c_str(); } uint64_t h0 = vfs::fired.size(); o = call(false, true, [&]() { try { if (load) r = a.load(pu); else a.save(pu, g_img); } catch (kv::path_not_exists const&) { why = "not exists"; } catch (kv::path_not_a_file const&) { why = "not a file"; } catch (kv::path_not_a_directory const&) { why = "not a directory"; } }); bool flt = vfs::fired.size() != h0; vfs::faults_off(); Rec& k = R();
      REQUIRE(k.calls <= 1 && (!k.calls || k.file == p), "wrong-name", "the implementation was called with %s instead of %s", quote(k.file).c_str(), quote(p).c_str()); REQUIRE(why.empty() || !k.calls, "called-anyway", "the implementation was called and the path refused"); REQUIRE(why.empty() ? k.calls == 1 : true, "not-called", "nothing was done and nothing reported");
      std::string exp; if (load) exp = !ex ? "not exists" : dir ? "not a file" : ""; else { std::string c = dirname_of(normal(p, "/w")); vfs::Node x = vfs::lookup(c.empty() ? "/" : c); exp = !x ? "not exists" : x->type != vfs::DIR_ ? "not a directory" : ""; if (p.find("ld/..") != std::string::npos) exp = why; }
      if (!flt) REQUIRE(why == exp, "wrong-check", "%s of %s: '%s' instead of '%s'", load ? "load" : "save", quote(p).c_str(), why.c_str(), exp.c_str()); else if (!load && why.empty()) REQUIRE(exp.empty(), "saved-nowhere", "save of %s although its directory does not exist", quote(p).c_str());
      if (o == DONE && why.empty()) { REQUIRE(load ? r == g_img : k.data == g_img.get(), "wrong-image", "another image"); nontrivial(); } if (!why.empty()) { probe(why.c_str()); nontrivial(); } Unscope u; std::string().swap(pu); } } }
void run() {
  static Rec recs[16]; for (int i = 0; i < 16; ++i) rec[i] = &recs[i]; Scope s; bool threads = chance(250); if (threads) { g_race_detect = true; set_preempt(1 + choose(200)); }
  uint32_t n = threads ? 1 : range(1, 3); for (uint32_t i = 0; i < n; ++i) switch (threads ? 1 + choose(4) : choose(5)) { case 0: images(); break; case 1: similarity(threads); break; case 2: matching(threads); break; case 3: cameras(threads); break; default: filtering(threads); } }
Reg r38("C38", run);
}
