// Camera (KRTD), landmark (PLY), track and camera-directory files.
#include "h.h"
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/exceptions.h>
#include <vital/logger/logger.h>
#include <cmath>
#include <limits>
using namespace h;
namespace kv = kwiver::vital;
namespace {
// ------------------------------------------------------------------ numbers
double num() {
  switch (weighted({4, 3, 2, 2, 1})) {
    case 0: return (int)choose(2001) - 1000;
    case 1: return ((int)choose(2000001) - 1000000) / 1000.0;
    case 2: return ((int)choose(2000001) - 1000000) * 1e-9;
    case 3: return ((int)choose(2000001) - 1000000) * 12345.678;
    default: return pick(std::vector<double>{0.0, 1e-30, -1e30, 0.1, 1.0 / 3, 123456.789, 1e15, -0.0}); } }
double pos() { double v = std::fabs(num()); return v < 1e-9 || v > 1e9 ? 1.5 : v; }
bool close(double want, double got, double rel, double abs_ = 0) { return want == got || std::fabs(want - got) <= rel * std::fabs(want) + abs_; }
// ------------------------------------------------------------------ outcome of a call into the code under test
enum Out { OK, NOT_FOUND, NOT_READ, INVALID, WRITE, NO_PATH, OTHER_VITAL };
const char* ON[] = {"success", "file_not_found", "file_not_read", "invalid_data", "file_write", "path_not_exists", "other"};
template <class F> Out outcome(F f, std::string& msg, const char* what) {
  try { f(); return OK; }
  catch (kv::file_not_found_exception const& e) { Scope s; msg = e.what(); return NOT_FOUND; }
  catch (kv::file_not_read_exception const& e) { Scope s; msg = e.what(); return NOT_READ; }
  catch (kv::invalid_data const& e) { Scope s; msg = e.what(); return INVALID; }
  catch (kv::file_write_exception const& e) { Scope s; msg = e.what(); return WRITE; }
  catch (kv::path_not_exists const& e) { Scope s; msg = e.what(); return NO_PATH; }
  catch (kv::vital_core_base_exception const& e) { Scope s; msg = e.what(); return OTHER_VITAL; }
  catch (std::exception const& e) { violation("wrong-exception-type", "%s raised %s", what, e.what()); } }
void warm() { kv::get_logger("warm"); kv::simple_camera c; std::string m; { kv::write_krtd_file(c, "/w/warm.krtd"); kv::read_krtd_file("/w/warm.krtd"); } outcome([&] { kv::read_krtd_file("/w/none"); }, m, "warm"); outcome([&] { kv::read_track_file("/w/warm.krtd"); }, m, "warm"); m = std::string(); vfs::remove_all("/w/warm.krtd"); }
struct LeakCheck { uint64_t live, seq; LeakCheck() : live(alloc_live()), seq(alloc_seq()) {} void done(const char* what) { REQUIRE(alloc_live() == live, "memory-leak", "%s left %lld heap blocks: %s", what, (long long)(alloc_live() - live), alloc_list(seq).c_str()); REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%s left %d descriptors open", what, vfs::open_fds()); } };
void world() { vfs::reset(); for (const char* v : {"PATH", "HOME"}) unsetenv(v); for (auto d : {"/w/adir", "/w/sub", "/cams"}) vfs::mkdirs(d); vfs::put("/w/afile", "x"); vfs::cwd = "/w"; }
// a path to write: sets whether writing there is possible at all
std::string target(const std::string& ext, bool& bad) {
  std::string p = pick(Strs{"/w/out", "out", "/w/new/deep/er/out", "sub/../out2", "./x/y", "/w/out", "/w/sub/out", "/w/adir", "/w/afile/under"}); bad = p == "/w/adir" || p == "/w/afile/under"; if (!bad) p += ext;
  if (!bad && chance(350) && p.find("/new/") == std::string::npos && p[0] == '/') vfs::put(p, std::string(choose(4000), '7') + "\n1 2 3 4 5 6 7 8 9\n");
  return p; }
// write with or without storage faults; true: the file must now be right
template <class F> bool written(const char* what, const std::string& path, bool bad, F f) {
  bool faulty = chance(550); if (faulty) { vfs::swarm(false, true, true); vfs::F.access_err = 0; vfs::F.stat_err = 0; if (chance(300)) vfs::F.budget = 3; }
  where("%s", what); std::string msg; vfs::hard = 0; vfs::fired.clear(); Out o = outcome(f, msg, what); int hard = vfs::hard; vfs::faults_off(); ev("%s %s -> %s %s", what, path.c_str(), ON[o], msg.c_str());
  REQUIRE(vfs::open_fds() == 0, "descriptor-leak", "%s left %d descriptors open", what, vfs::open_fds());
  if (o != OK) { REQUIRE(o == WRITE, "wrong-exception-type", "%s reported %s (%s), not a write error", what, ON[o], msg.c_str()); REQUIRE(hard || bad, "spurious-write-failure", "%s of %s failed without a storage fault: %s", what, path.c_str(), msg.c_str()); count("write_failed"); nontrivial(); return false; }
  REQUIRE(!bad, "impossible-write-succeeded", "%s to %s reported success", what, path.c_str()); REQUIRE(vfs::exists(normal(path, "/w")), "reported-success-no-file", "%s to %s reported success but there is no file", what, path.c_str());
  if (hard) probe("write_survived_error"); return true; }
// read with or without faults. Returns the outcome; with faults an error is acceptable (sets `excused`)
template <class F> Out read_(const char* what, const std::string& path, bool faulty, bool& excused, std::string& msg, F f) {
  if (faulty) { vfs::swarm(true, false, false); vfs::F.access_err = 0; vfs::F.stat_err = 0; }
  where("%s", what); vfs::hard = 0; vfs::fired.clear(); Out o = outcome(f, msg, what); excused = vfs::hard > 0; vfs::faults_off(); ev("%s %s -> %s %s", what, path.c_str(), ON[o], msg.c_str());
  if (o != OK && excused) { probe("read_error_reported"); REQUIRE(o == NOT_READ || o == INVALID || o == NOT_FOUND, "wrong-exception-type", "%s under a read error reported %s: %s", what, ON[o], msg.c_str()); }
  return o; }

// ------------------------------------------------------------------ cameras
struct Cam { double f, px, py, asp, skew; std::vector<double> dist; double ang, ax, ay, az, c[3]; };
Cam gen_cam() { Cam c; c.f = pos(); c.px = num(); c.py = num(); if (std::fabs(c.px) > 1e9) c.px = 2; if (std::fabs(c.py) > 1e9) c.py = 3; c.asp = chance(700) ? 1.0 : 0.25 + choose(400) / 100.0; c.skew = chance(700) ? 0.0 : choose(100) / 7.0; uint32_t nd = pick(std::vector<uint32_t>{0, 0, 1, 2, 3, 4, 5, 8, 12}); for (uint32_t i = 0; i < nd; ++i) c.dist.push_back(chance(100) ? 0.0 : ((int)choose(2001) - 1000) * 1e-4 / 3); if (nd && chance(200)) for (double& q : c.dist) q = pick(std::vector<double>{1e-13, -3e-20, 1e-200, 5e-7, -0.9}); if (nd > 1 && chance(60)) for (double& q : c.dist) q = 0; if (nd == 1 && c.dist[0] == 0) c.dist.clear();
  c.ang = ((int)choose(6283) - 3141) / 1000.0; c.ax = (int)choose(201) - 100; c.ay = (int)choose(201) - 100; c.az = 1 + (int)choose(100); double n = std::sqrt(c.ax * c.ax + c.ay * c.ay + c.az * c.az); c.ax /= n; c.ay /= n; c.az /= n; for (int i = 0; i < 3; ++i) { c.c[i] = num(); if (std::fabs(c.c[i]) > 1e9) c.c[i] = i; } return c; }
std::shared_ptr<kv::simple_camera> make_cam(const Cam& c) { Eigen::VectorXd d((int)c.dist.size()); for (size_t i = 0; i < c.dist.size(); ++i) d[(int)i] = c.dist[i];
  kv::camera_intrinsics_sptr k(new kv::simple_camera_intrinsics(c.f, kv::vector_2d(c.px, c.py), c.asp, c.skew, d)); return std::shared_ptr<kv::simple_camera>(new kv::simple_camera(kv::vector_3d(c.c[0], c.c[1], c.c[2]), kv::rotation_d(c.ang, kv::vector_3d(c.ax, c.ay, c.az)), k)); }
std::string same_cam(kv::camera const& a, kv::camera const& b) {
  kv::matrix_3x3d k1 = a.intrinsics()->as_matrix(), k2 = b.intrinsics()->as_matrix(), r1 = kv::matrix_3x3d(a.rotation()), r2 = kv::matrix_3x3d(b.rotation()); kv::vector_3d t1 = a.translation(), t2 = b.translation(); auto d1 = a.intrinsics()->dist_coeffs(), d2 = b.intrinsics()->dist_coeffs(); Scope s;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { if (!close(k1(i, j), k2(i, j), 1e-9, 1e-30)) return strf("calibration (%d,%d) is %.17g, expected %.17g", i, j, k2(i, j), k1(i, j)); if (!close(r1(i, j), r2(i, j), 1e-9, 1e-9)) return strf("rotation (%d,%d) is %.17g, expected %.17g", i, j, r2(i, j), r1(i, j)); }
  double n = t1.norm(); for (int i = 0; i < 3; ++i) if (!close(t1[i], t2[i], 1e-9, 1e-9 * n)) return strf("translation %d is %.17g, expected %.17g", i, t2[i], t1[i]);
  if (d1.size() != d2.size()) return strf("%zu distortion coefficients, expected %zu", d2.size(), d1.size()); for (size_t i = 0; i < d1.size(); ++i) if (!close(d1[i], d2[i], 1e-9, 1e-30)) return strf("distortion coefficient %zu is %.17g, expected %.17g", i, d2[i], d1[i]);
  return ""; }
std::string cam_text(const Cam& c) { std::ostringstream s; { Unscope u; auto p = make_cam(c); std::ostringstream o; o << *p; std::string r = o.str(); Scope sc; return std::string(r.c_str(), r.size()); } }
// reference reader: 21 numbers, then the numbers of the next non-blank line; false if malformed
bool is_num(const std::string& t) { char* e; strtod(t.c_str(), &e); return !t.empty() && !*e && isdigit((unsigned char)t.back() == '.' ? '0' : t.back()); }
bool ref_krtd(const std::string& text, std::vector<double>& v, std::vector<double>& dist) {
  std::istringstream in(text); std::string t; for (int i = 0; i < 21; ++i) { if (!(in >> t) || !is_num(t)) return false; v.push_back(strtod(t.c_str(), nullptr)); }
  in >> std::ws; std::string line; std::getline(in, line); std::istringstream l(line); while (l >> t) { if (!is_num(t)) return false; dist.push_back(strtod(t.c_str(), nullptr)); } return true; }
// cut, replace or remove a word, cut at a byte, or cut a line
std::string damage(std::string t) {
  auto words = [&] { std::vector<std::pair<size_t, size_t>> w; size_t i = 0; while (i < t.size()) { while (i < t.size() && isspace((unsigned char)t[i])) ++i; size_t b = i; while (i < t.size() && !isspace((unsigned char)t[i])) ++i; if (i > b) w.push_back({b, i}); } return w; };
  auto w = words(); if (w.empty()) return t; auto p = w[choose((uint32_t)w.size())];
  switch (weighted({3, 3, 2, 2, 1})) { case 0: return t.substr(0, p.first); case 1: return t.replace(p.first, p.second - p.first, pick(Strs{"abc", "x1", "#", "end_header"})); case 2: return t.erase(p.first, p.second - p.first); case 3: { size_t e = t.find('\n', p.first); return t.substr(0, e == std::string::npos ? t.size() : e + 1); } default: return ""; } }

void run_c14() {
  Scope s; world(); { Unscope u; warm(); } nontrivial();
  if (chance(200)) { // several threads, each with files of its own
    uint32_t nt = 2 + choose(3); std::vector<Cam> cams; for (uint32_t i = 0; i < nt * 2; ++i) cams.push_back(gen_cam()); g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{200, 40, 1500})); if (chance(300)) { vfs::F.eintr = 60; vfs::F.read_short = vfs::F.write_short = 300; vfs::F.budget = 8; }
    { Unscope u; for (uint32_t t = 0; t < nt; ++t) spawn([t, &cams] { for (int j = 0; j < 2; ++j) { std::string path; { Scope s2; path = strf("/w/t%u/c%d.krtd", t, j); } auto c = make_cam(cams[t * 2 + j]); kv::write_krtd_file(*c, path); auto r = kv::read_krtd_file(path); std::string d = same_cam(*c, *r); Scope s2; REQUIRE(d.empty(), "roundtrip-mismatch", "thread %u: %s", t, d.c_str()); } });
      where("%u threads writing and reading cameras", nt); run_all(); } count("concurrent_cameras", nt * 2); return; }
  if (chance(550)) { // write, then read back
    Cam c = gen_cam(); bool bad; std::string path = target(".krtd", bad); ev("camera f=%g dist=%zu", c.f, c.dist.size()); Unscope u; LeakCheck lk; { auto cam = make_cam(c);
    if (written("write_krtd_file", path, bad, [&] { kv::write_krtd_file(*cam, path); })) {
      kv::camera_sptr r; std::string msg; bool ex, fl = chance(250); Out o = read_("read_krtd_file", path, fl, ex, msg, [&] { r = kv::read_krtd_file(path); });
      if (o != OK) REQUIRE(ex, "roundtrip-unreadable", "the written camera cannot be read back: %s", msg.c_str()); else { std::string d = same_cam(*cam, *r); REQUIRE(d.empty(), "roundtrip-mismatch", "camera written to %s and read back: %s", path.c_str(), d.c_str()); count("roundtrips"); } } } lk.done("writing and reading a camera"); return; }
  Cam c = gen_cam(); std::string text = cam_text(c); bool dam = chance(750); if (dam) text = damage(text); std::string path = pick(Strs{"/w/c.krtd", "/w/missing.krtd", "/w/adir", "/w/c.krtd", "/w/c.krtd"}); vfs::put("/w/c.krtd", text); std::vector<double> v, d; bool good = ref_krtd(text, v, d); ev("file %s", quote(text, 400).c_str());
  Unscope u; LeakCheck lk; { kv::camera_sptr r; std::string msg; bool ex, fl = chance(400); Out o = read_("read_krtd_file", path, fl, ex, msg, [&] { r = kv::read_krtd_file(path); });
    if (path != "/w/c.krtd") { REQUIRE(o == NOT_FOUND, "wrong-outcome", "reading %s: %s", path.c_str(), ON[o]); }
    else if (o == OK) { REQUIRE(good, "malformed-accepted", "a damaged camera file was read as a camera: %s", quote(text, 500).c_str()); auto dc = r->intrinsics()->dist_coeffs(); Scope s2; if (d.size() == 1 && d[0] == 0) d.clear(); REQUIRE(dc.size() == d.size(), "roundtrip-mismatch", "%zu distortion coefficients read, the file has %zu", dc.size(), d.size()); if (!dam) count("files_read"); }
    else REQUIRE(ex || (!good && o == INVALID), "wrong-outcome", "reading %s: %s (%s), expected %s", path.c_str(), ON[o], msg.c_str(), good ? "success" : "invalid_data"); }
  lk.done("reading a camera"); }
sim::Reg r14("C14", run_c14);

// ------------------------------------------------------------------ landmarks
struct Lm { double x[3], n[3]; int col[3]; uint32_t obs; };
bool same6(double a, double b) { return close(a, b, 1e-5, 1e-300); }
std::string same_lm(int64_t id, const Lm& a, kv::landmark const& b, double rel) { kv::vector_3d l = b.loc(), n = b.normal(); kv::rgb_color c = b.color(); unsigned ob = b.observations(); Scope s;
  for (int i = 0; i < 3; ++i) { if (!close(a.x[i], l[i], rel, 1e-300)) return strf("landmark %lld coordinate %d is %.9g, expected %.9g", (long long)id, i, l[i], a.x[i]); if (!close(a.n[i], n[i], rel, 1e-300)) return strf("landmark %lld normal %d is %.9g, expected %.9g", (long long)id, i, n[i], a.n[i]); }
  if (c.r != a.col[0] || c.g != a.col[1] || c.b != a.col[2]) return strf("landmark %lld colour is %d %d %d, expected %d %d %d", (long long)id, c.r, c.g, c.b, a.col[0], a.col[1], a.col[2]); if (ob != a.obs) return strf("landmark %lld has %u observations, expected %u", (long long)id, ob, a.obs); return ""; }
std::string same_lms(const std::map<int64_t, Lm>& want, kv::landmark_map_sptr got, double rel) { auto m = got->landmarks(); if (m.size() != want.size()) return strf("%zu landmarks, expected %zu", m.size(), want.size()); for (auto& e : want) { auto it = m.find(e.first); if (it == m.end()) return strf("landmark %lld is missing", (long long)e.first); Unscope u; std::string d = same_lm(e.first, e.second, *it->second, rel); if (!d.empty()) return d; } return ""; }
Lm gen_lm() { Lm l; for (int i = 0; i < 3; ++i) { l.x[i] = num(); l.n[i] = chance(500) ? 0 : ((int)choose(2001) - 1000) / 1000.0; l.col[i] = chance(500) ? 255 : (int)choose(256); } l.obs = chance(500) ? choose(50) : choose(3) * 2147483647u; return l; }
int64_t gen_id() { return pick(std::vector<int64_t>{(int64_t)choose(20), (int64_t)choose(20), (int64_t)choose(100000), 2147483647LL, 4294967295LL, (int64_t)1 << 40, ((int64_t)1 << 53) + 1}); }
void run_c15() {
  Scope s; world(); { Unscope u; warm(); } nontrivial();
  if (chance(1)) { uint32_t n = 65534 + choose(chance(500) ? 4 : 9000); std::string t = strf("ply\nformat ascii 1.0\nelement vertex %u\nproperty double x\nend_header\n", n); for (uint32_t i = 0; i < n; ++i) { t += (char)('1' + i % 9); t += '\n'; } vfs::put("/w/big.ply", t); ev("file with %u vertices", n); probe("many_vertices"); where("read_ply_file"); Unscope u; kv::landmark_map_sptr r; std::string msg; Out o = outcome([&] { r = kv::read_ply_file("/w/big.ply"); }, msg, "read_ply_file");
    REQUIRE(o == OK, "wrong-outcome", "reading %u vertices: %s (%s)", n, ON[o], msg.c_str()); REQUIRE(r->size() == n, "roundtrip-mismatch", "%zu landmarks instead of %u", r->size(), n); auto m = r->landmarks(); REQUIRE(m.begin()->first == 0 && m.rbegin()->first == (int64_t)n - 1 && m.rbegin()->second->loc().x() == 1 + (n - 1) % 9 && m[n / 2]->loc().x() == 1 + (n / 2) % 9, "roundtrip-mismatch", "wrong landmarks among %u", n); return; }
  std::map<int64_t, Lm> want; uint32_t n = choose(chance(30) ? 300 : 7); bool crowd = n > 20; for (uint32_t i = 0; i < n; ++i) want[crowd && chance(900) ? (int64_t)choose(100000) : gen_id()] = gen_lm(); ev("%zu landmarks, first %s", want.size(), want.empty() ? "-" : strf("%lld at %g", (long long)want.begin()->first, want.begin()->second.x[0]).c_str());
  if (chance(500)) { bool bad; std::string path = target(".ply", bad); Unscope u; LeakCheck lk; { kv::landmark_map::map_landmark_t m; for (auto& e : want) { auto const& l = e.second; std::shared_ptr<kv::landmark_d> p(new kv::landmark_d(kv::vector_3d(l.x[0], l.x[1], l.x[2]))); p->set_normal(kv::vector_3d(l.n[0], l.n[1], l.n[2])); p->set_color(kv::rgb_color((unsigned char)l.col[0], (unsigned char)l.col[1], (unsigned char)l.col[2])); p->set_observations(l.obs); m[e.first] = p; }
      kv::landmark_map_sptr lm(new kv::simple_landmark_map(m)); if (want.empty() && chance(300)) lm.reset(); if (want.empty()) bad = true;
      if (written("write_ply_file", path, bad, [&] { kv::write_ply_file(lm, path); })) { kv::landmark_map_sptr r; std::string msg; bool ex, fl = chance(250); Out o = read_("read_ply_file", path, fl, ex, msg, [&] { r = kv::read_ply_file(path); }); if (o != OK) REQUIRE(ex, "roundtrip-unreadable", "the written landmarks cannot be read back: %s", msg.c_str()); else { Scope s2; std::string d = same_lms(want, r, 1e-5); REQUIRE(d.empty(), "roundtrip-mismatch", "landmarks written to %s and read back: %s", path.c_str(), d.c_str()); count("roundtrips"); } } }
    lk.done("writing and reading landmarks"); return; }
  // a foreign PLY file: properties in any order and spelling, unknown ones, comments, more elements after the vertices
  static const std::vector<Strs> names = {{"x", "X"}, {"y", "Y"}, {"z", "Z"}, {"nx", "vsfm_cnx", "NX"}, {"ny", "vsfm_cny"}, {"nz", "vsfm_cnz"}, {"red", "diffuse_red", "Red"}, {"green", "diffuse_green"}, {"blue", "diffuse_blue"}, {"track_id"}, {"observations", "number_of_camera_sees_this_point"}};
  std::vector<int> props; for (int i = 0; i < 11; ++i) if (i < 3 ? !chance(40) : chance(600)) props.push_back(i); if (props.empty()) props.push_back(0); if (chance(500)) for (size_t i = props.size(); i > 1; --i) std::swap(props[i - 1], props[choose((uint32_t)i)]); uint32_t extra = chance(400) ? 1 + choose(2) : 0; if (chance(30)) { extra = 30 + choose(30); probe("many_properties"); } for (uint32_t i = 0; i < extra; ++i) props.insert(props.begin() + choose((uint32_t)props.size() + 1), 11);
  std::string t = "ply\nformat ascii 1.0\n"; if (chance(400)) t += pick(Strs{"comment element vertex 7\n", "comment vertex 7\n", "comment end_header\n", "obj_info vertex 9\n", "comment property x\n", "comment element face\n"}); if (chance(200)) t += "\n"; uint32_t count_ = choose(6); if (chance(250)) t += strf("element %s 0\n%s", pick(Strs{"camera", "vertices", "face"}).c_str(), pick(Strs{"property double y\n", "property double x\nproperty double z\n", "property uint track_id\n", ""}).c_str()); t += strf("element vertex %u\n", count_); int k = 0; for (int p : props) t += (p == 10 || p == 9 ? "property uint " : p >= 6 && p <= 8 ? "property uchar " : "property double ") + (p == 11 ? strf("unknown_%d", k++) : pick(names[p])) + "\n" + (chance(50) ? pick(Strs{"comment property x\n", "comment vertex 7\n", "comment property double y\n", "\n"}) : ""); uint32_t faces = chance(400) ? 1 + choose(3) : 0; if (faces) t += strf("element face %u\nproperty list uchar int vertex_indices\n%s", faces, pick(Strs{"", "property double x\n", "property uchar red\nproperty double z\n"}).c_str()); if (chance(200)) t += "comment made for element face 3\n"; t += "end_header\n"; std::string head = t;
  std::map<int64_t, Lm> ref; Strs lines; for (uint32_t i = 0; i < count_; ++i) { Lm l; for (int j = 0; j < 3; ++j) { l.x[j] = l.n[j] = 0; l.col[j] = 255; } l.obs = 0; int64_t id = i; std::string line; Lm g = gen_lm(); for (size_t q = 0; q < props.size(); ++q) { int p = props[q]; if (q) line += pick(Strs{" ", " ", "  ", "\t"}); if (p < 3) { l.x[p] = g.x[p]; line += strf("%.17g", g.x[p]); } else if (p < 6) { l.n[p - 3] = g.n[p - 3]; line += strf("%.17g", g.n[p - 3]); } else if (p < 9) { l.col[p - 6] = g.col[p - 6]; line += strf("%d", g.col[p - 6]); } else if (p == 9) { id = gen_id(); line += strf("%lld", (long long)id); } else if (p == 10) { l.obs = g.obs; line += strf("%u", g.obs); } else line += pick(Strs{"0", "junk", "-3.5"}); } lines.push_back(line); ref[id] = l; }
  bool cut = count_ > 0 && chance(250), headcut = !cut && chance(80); uint32_t keep = cut ? choose(count_) : count_; for (uint32_t i = 0; i < keep; ++i) { if (chance(60)) t += pick(Strs{"\n", "  \n"}); t += lines[i] + "\n"; } if (!cut) for (uint32_t i = 0; i < faces; ++i) t += "3 0 1 2\n"; if (!cut && chance(200) && t.size() > head.size()) t.pop_back(); if (headcut) t = head.substr(0, choose((uint32_t)head.size() - 11));
  std::string path = pick(Strs{"/w/l.ply", "/w/l.ply", "/w/l.ply", "/w/missing.ply", "/w/adir"}); vfs::put("/w/l.ply", t); ev("file %s", quote(t, 900).c_str()); bool good = !cut && !headcut;
  Unscope u; LeakCheck lk; { kv::landmark_map_sptr r; std::string msg; bool ex, fl = chance(350); Out o = read_("read_ply_file", path, fl, ex, msg, [&] { r = kv::read_ply_file(path); });
    if (path == "/w/missing.ply") REQUIRE(o == NOT_FOUND, "wrong-outcome", "reading a missing file: %s", ON[o]); else if (path == "/w/adir") REQUIRE(o == NOT_FOUND || o == NOT_READ, "wrong-outcome", "reading a directory: %s", ON[o]);
    else if (o == OK) { REQUIRE(good, "truncated-accepted", "a truncated PLY file was accepted: %s", quote(t, 700).c_str()); Scope s2; std::string d = same_lms(ref, r, 1e-12); REQUIRE(d.empty(), "wrong-contents", "%s in %s", d.c_str(), quote(t, 700).c_str()); count("files_read"); }
    else REQUIRE(ex || (!good && (o == NOT_READ || o == INVALID)), "wrong-outcome", "reading %s: %s (%s)", path.c_str(), ON[o], msg.c_str()); }
  lk.done("reading landmarks"); }
sim::Reg r15("C15", run_c15);

// ------------------------------------------------------------------ tracks
struct St { int64_t frame; double v[5]; int col[3]; };     // x y magnitude scale angle
typedef std::vector<std::pair<int64_t, std::vector<St>>> Tracks;
Tracks gen_tracks() { Tracks r; std::set<int64_t> ids; uint32_t n = choose(chance(30) ? 60 : 6); bool crowd = chance(40); if (crowd) { n = 70 + choose(200); probe("many_tracks"); } for (uint32_t i = 0; i < n; ++i) { int64_t id = crowd && chance(950) ? (int64_t)choose(100000) : gen_id(); if (!ids.insert(id).second) continue; std::vector<St> st; uint32_t m = choose(5); int64_t f = (int64_t)choose(20) - 5; if (chance(60)) f += pick(std::vector<int64_t>{INT64_MIN + 10, -2147483650LL, 2147483646LL, 4294967290LL, 9007199254740990LL, INT64_MAX - 1000000}); for (uint32_t j = 0; j < m; ++j) { St x; x.frame = f; f += 1 + choose(chance(100) ? 100000 : 4); for (double& q : x.v) q = num(); for (int& q : x.col) q = chance(500) ? 255 : (int)choose(256); st.push_back(x); } r.push_back({id, st}); } return r; }
kv::track_set_sptr make_tracks(const Tracks& t) { std::vector<kv::track_sptr> v; for (auto& e : t) { kv::track_sptr k(new kv::track); k->set_id(e.first); for (auto& x : e.second) { std::shared_ptr<kv::feature_d> f(new kv::feature_d(kv::vector_2d(x.v[0], x.v[1]), x.v[2], x.v[3], x.v[4], kv::rgb_color((unsigned char)x.col[0], (unsigned char)x.col[1], (unsigned char)x.col[2]))); k->append(kv::track::track_state(x.frame, f, kv::descriptor_sptr())); } v.push_back(k); } return kv::track_set_sptr(new kv::simple_track_set(v)); }
std::string same_tracks(const Tracks& want, kv::track_set_sptr got, double rel) { std::map<int64_t, std::vector<St>> w; for (auto& e : want) if (!e.second.empty()) w[e.first] = e.second; std::vector<kv::track_sptr> g; { Unscope u; g = got->tracks(); } if (g.size() != w.size()) return strf("%zu tracks, expected %zu", g.size(), w.size());
  for (auto& t : g) { auto it = w.find(t->id()); if (it == w.end()) return strf("unexpected track %lld", (long long)t->id()); if (t->size() != it->second.size()) return strf("track %lld has %zu states, expected %zu", (long long)t->id(), t->size(), it->second.size()); size_t j = 0; for (auto& s : *t) { const St& x = it->second[j++]; if (s.frame_id != x.frame) return strf("track %lld has frame %lld, expected %lld", (long long)t->id(), (long long)s.frame_id, (long long)x.frame); double v[5] = {s.feat->loc().x(), s.feat->loc().y(), s.feat->magnitude(), s.feat->scale(), s.feat->angle()}; for (int q = 0; q < 5; ++q) if (!close(x.v[q], v[q], rel, 1e-300)) return strf("track %lld frame %lld value %d is %.9g, expected %.9g", (long long)t->id(), (long long)x.frame, q, v[q], x.v[q]); auto c = s.feat->color(); if (c.r != x.col[0] || c.g != x.col[1] || c.b != x.col[2]) return strf("track %lld frame %lld: wrong colour", (long long)t->id(), (long long)x.frame); } w.erase(it); }
  return ""; }
void run_c16() {
  Scope s; world(); { Unscope u; warm(); } nontrivial(); Tracks want = gen_tracks(); bool empty = true; for (auto& e : want) if (!e.second.empty()) empty = false; ev("%zu tracks, first %s", want.size(), want.empty() ? "-" : strf("%lld with %zu states, %g", (long long)want[0].first, want[0].second.size(), want[0].second.empty() ? 0.0 : want[0].second[0].v[0]).c_str());
  if (chance(500)) { bool bad; std::string path = target(".tracks", bad); Unscope u; LeakCheck lk; { kv::track_set_sptr ts = make_tracks(want); if (want.empty()) { bad = true; if (chance(300)) ts.reset(); }
      if (written("write_track_file", path, bad, [&] { kv::write_track_file(ts, path); })) { kv::track_set_sptr r; std::string msg; bool ex, fl = chance(250); Out o = read_("read_track_file", path, fl, ex, msg, [&] { r = kv::read_track_file(path); }); if (o != OK) REQUIRE(ex, "roundtrip-unreadable", "the written tracks cannot be read back: %s", msg.c_str()); else { Scope s2; std::string d = same_tracks(want, r, 1e-5); REQUIRE(d.empty(), "roundtrip-mismatch", "tracks written to %s and read back: %s", path.c_str(), d.c_str()); count("roundtrips"); } } }
    lk.done("writing and reading tracks"); return; }
  std::string t; std::vector<std::pair<size_t, size_t>> order; for (size_t i = 0; i < want.size(); ++i) for (size_t j = 0; j < want[i].second.size(); ++j) order.push_back({i, j});
  if (chance(500)) for (size_t i = 0; i + 1 < order.size(); ++i) if (order[i].first != order[i + 1].first && chance(500)) std::swap(order[i], order[i + 1]);   // interleave tracks, keeping the order within each
  Strs lines; for (auto& o : order) { auto& x = want[o.first].second[o.second]; lines.push_back(strf("%lld %lld %.17g %.17g %.17g %.17g %.17g %d %d %d", (long long)want[o.first].first, (long long)x.frame, x.v[0], x.v[1], x.v[2], x.v[3], x.v[4], x.col[0], x.col[1], x.col[2])); if (chance(80)) lines.back() += pick(Strs{"  ", " trailing", "\r"}); }
  bool bad = !lines.empty() && chance(300); if (bad) { std::string& l = lines[choose((uint32_t)lines.size())]; std::istringstream in(l); Strs w; std::string q; while (w.size() < 10 && in >> q) w.push_back(q); uint32_t i = choose(10); if (chance(500)) w[i] = pick(Strs{"abc", "-", "x7"}); else w.resize(chance(300) ? 0 : i); l = w.empty() ? pick(Strs{"?", "", " ", "# comment", "#1 2 3"}) : join(w, " "); }
  for (auto& l : lines) t += l + "\n"; if (chance(200) && !lines.empty() && !lines.back().empty()) t.pop_back(); std::string path = pick(Strs{"/w/t", "/w/t", "/w/t", "/w/missing", "/w/adir"}); vfs::put("/w/t", t); ev("file %s", quote(t, 700).c_str()); (void)empty;
  Unscope u; LeakCheck lk; { kv::track_set_sptr r; std::string msg; bool ex, fl = chance(350); Out o = read_("read_track_file", path, fl, ex, msg, [&] { r = kv::read_track_file(path); });
    if (path != "/w/t") REQUIRE(o == NOT_FOUND, "wrong-outcome", "reading %s: %s", path.c_str(), ON[o]);
    else if (o == OK) { REQUIRE(!bad, "malformed-accepted", "a track file with a malformed line was accepted: %s", quote(t, 500).c_str()); Scope s2; std::string d = same_tracks(want, r, 1e-12); REQUIRE(d.empty(), "wrong-contents", "%s in %s", d.c_str(), quote(t, 500).c_str()); count("files_read"); }
    else REQUIRE(ex || (bad && (o == NOT_READ || o == INVALID)), "wrong-outcome", "reading %s: %s (%s)", path.c_str(), ON[o], msg.c_str()); }
  lk.done("reading tracks"); }
sim::Reg r16("C16", run_c16);

// ------------------------------------------------------------------ directories of cameras
void run_c17() {
  Scope s; world(); { Unscope u; warm(); } nontrivial();
  static const Strs base = {"img1", "img2", "frame.0001", "noext", "a b", "img10", ".hidden", "x"}; std::map<std::string, Cam> files; std::map<std::string, int> kind;   // 0 good 1 missing 2 directory 3 damaged
  for (auto& b : base) { int k = (int)weighted({5, 4, 1, 1}); kind[b] = k; if (k == 0) { files[b] = gen_cam(); vfs::put("/cams/" + b + ".krtd", cam_text(files[b])); } else if (k == 2) vfs::mkdirs("/cams/" + b + ".krtd"); else if (k == 3) { std::string t; std::vector<double> v, d; do { v.clear(); d.clear(); t = damage(cam_text(gen_cam())); } while (ref_krtd(t, v, d)); vfs::put("/cams/" + b + ".krtd", t); } }
  Strs imgs, stem; uint32_t n = choose(7); uint32_t gone = 0; if (chance(60)) { n = 20 + choose(180); gone = pick(std::vector<uint32_t>{0, 500, 950}); probe("many_images"); } for (uint32_t i = 0; i < n; ++i) { std::string b = gone && chance(gone) ? "gone" : pick(base), p = pick(Strs{"", "", "/data/images/", "rel/dir.d/", "../"}), e = b == "noext" || b == ".hidden" ? "" : pick(Strs{".png", ".jpg", ".x"}); imgs.push_back(p + b + e); std::string st = b; if (e.empty()) { auto dot = st.rfind('.'); if (dot != std::string::npos) st = st.substr(0, dot); } stem.push_back(st); }
  std::string dir = pick(Strs{"/cams", "/cams", "/cams", "../cams", "/nosuch", "/w/afile"}); std::map<int64_t, Cam> want; bool bad = false; for (size_t i = 0; i < imgs.size(); ++i) if (dir.find("cams") != std::string::npos && kind.count(stem[i])) { if (kind[stem[i]] == 0) { if (!bad) want[(int64_t)i] = files[stem[i]]; } else if (kind[stem[i]] == 3) bad = true; }
  ev("images [%s] dir %s", join(imgs).c_str(), dir.c_str());
  Unscope u; LeakCheck lk; { kv::camera_map_sptr r; std::string msg; bool ex, fl = chance(350); Out o = read_("read_krtd_files", dir, fl, ex, msg, [&] { r = kv::read_krtd_files(imgs, dir); });
    if (dir == "/nosuch") REQUIRE(o == NO_PATH, "wrong-outcome", "directory that does not exist: %s", ON[o]);
    else if (o == OK) { REQUIRE(!bad, "malformed-accepted", "a damaged camera file was skipped or accepted"); auto m = r->cameras(); REQUIRE(m.size() == want.size() && r->size() == want.size(), "wrong-contents", "%zu cameras, expected %zu", m.size(), want.size()); REQUIRE(!want.empty(), "wrong-contents", "an empty camera map was returned"); for (auto& e : want) { auto it = m.find(e.first); REQUIRE(it != m.end(), "wrong-contents", "no camera for frame %lld", (long long)e.first); REQUIRE(!!it->second, "wrong-contents", "null camera for frame %lld", (long long)e.first); auto c = make_cam(e.second); std::string d = same_cam(*c, *it->second); REQUIRE(d.empty(), "wrong-contents", "frame %lld: %s", (long long)e.first, d.c_str()); } count("maps_read"); }
    else REQUIRE(ex || (o == INVALID && (bad || want.empty())), "wrong-outcome", "reading cameras: %s (%s)", ON[o], msg.c_str()); }
  lk.done("reading a camera directory"); }
sim::Reg r17("C17", run_c17);
}
