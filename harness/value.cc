// Value types (features, landmarks, cameras, homographies, descriptors) and their collections: histories of copying, cloning,
// converting, streaming and collecting, with failing allocations, damaged streams and concurrent readers.
#include "h.h"
#include <vital/types/feature_set.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/match_set.h>
#include <vital/types/landmark_map.h>
#include <vital/types/camera_map.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/homography_f2w.h>
#include <vital/types/similarity.h>
#include <vital/exceptions.h>
#include <vital/io/eigen_io.h>
#include <vital/logger/logger.h>
#include <functional>
#include <iomanip>
#include <limits>
namespace {
using namespace h; namespace kv = kwiver::vital;
bool attempt(bool may_fail, const std::function<void()>& fn) {
  bool oom = may_fail && chance(150), ok = true; if (oom) alloc_arm(1 + choose(5));
  try { Unscope u; fn(); } catch (std::bad_alloc const&) { ok = false; }
  if (oom) { bool f = alloc_fired(); alloc_disarm(); if (f) fault("alloc"); REQUIRE(ok || f, "unexpected-exception", "bad_alloc without a failed allocation"); if (!ok) { count("refused_without_memory"); return false; } }
  REQUIRE(ok, "unexpected-exception", "bad_alloc without a failed allocation"); return true; }
int ir(int a, int b) { return a + (int)choose((uint32_t)(b - a + 1)); }
double number() { switch (choose(6)) { case 0: return 0; case 1: return (double)ir(-5, 5); case 2: return ir(-1000000, 1000000) / 1024.0; case 3: return range(1, 9) * 1e25; case 4: return -ir(1, 999) * 1e-20; default: return ir(-100000000, 100000000) / 7.0; } }
template <class T> T num() { return (T)number(); }
struct Colour { int v[3]; }; Colour colour() { Colour c; for (int& x : c.v) x = chance(300) ? (chance(500) ? 0 : 255) : (int)choose(256); return c; }
kv::rgb_color real(const Colour& c) { return kv::rgb_color((unsigned char)c.v[0], (unsigned char)c.v[1], (unsigned char)c.v[2]); }
// ------------------------------------------------------------------ features and landmarks
struct Val { bool lm, flt; kv::feature_sptr f; kv::landmark_sptr l; std::vector<double> n; std::vector<double> cov; Colour c; unsigned obs = 0; };   // n: the numbers in stream order
std::vector<Val> vals;
std::string say(const Val& v) { return strf("%s_%c", v.lm ? "landmark" : "feature", v.flt ? 'f' : 'd'); }
template <class T> kv::feature_<T>* F(const Val& v) { return static_cast<kv::feature_<T>*>(v.f.get()); }
template <class T> kv::landmark_<T>* L(const Val& v) { return static_cast<kv::landmark_<T>*>(v.l.get()); }
template <class A> bool same(const A& a, const double* b, int n) { for (int i = 0; i < n; ++i) if (!(a[i] == b[i])) return false; return true; }
template <class C> bool same_cov(const C& c, const std::vector<double>& w, int n) { if (w.empty()) return true; size_t k = 0; for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i, ++k) if (!(c(i, j) == w[k] && c(j, i) == w[k])) return false; return true; }
bool same_col(const kv::rgb_color& c, const Colour& w) { return c.r == w.v[0] && c.g == w.v[1] && c.b == w.v[2]; }
const char* differs(const Val& v) {
  if (!v.lm) { kv::feature& f = *v.f; kv::vector_2d loc; double m, s, a; kv::rgb_color c; kv::covariance_2d cv; { Unscope u; loc = f.loc(); m = f.magnitude(); s = f.scale(); a = f.angle(); c = f.color(); cv = f.covar(); if (f.data_type() != (v.flt ? typeid(float) : typeid(double))) return "type"; }
    if (!same(loc, &v.n[0], 2)) return "location"; if (!(m == v.n[2])) return "magnitude"; if (!(s == v.n[3])) return "scale"; if (!(a == v.n[4])) return "angle"; if (!same_col(c, v.c)) return "colour"; if (!same_cov(cv, v.cov, 2)) return "covariance"; }
  else { kv::landmark& l = *v.l; kv::vector_3d loc, nm; double s; kv::rgb_color c; kv::covariance_3d cv; unsigned o; { Unscope u; loc = l.loc(); nm = l.normal(); s = l.scale(); c = l.color(); cv = l.covar(); o = l.observations(); }
    if (!same(loc, &v.n[0], 3)) return "location"; if (!(s == v.n[3])) return "scale"; if (!same(nm, &v.n[4], 3)) return "normal"; if (!same_col(c, v.c)) return "colour"; if (!same_cov(cv, v.cov, 3)) return "covariance"; if (o != v.obs) return "number of observations"; }
  return nullptr; }
void check(const Val& v, const char* at) { const char* d = differs(v); REQUIRE(!d, "value-changed", "after %s the %s of a %s is wrong", at, d, say(v).c_str()); }
template <class T, unsigned N> kv::covariance_<N, T> make_cov(std::vector<double>& w) { Eigen::Matrix<T, N, N> m; w.clear(); for (unsigned j = 0; j < N; ++j) for (unsigned i = 0; i <= j; ++i) { T x = num<T>() / 64; m(i, j) = m(j, i) = x; w.push_back(x); } bool direct = chance(500), skew = chance(300); for (double x : w) if (std::fabs(x) > 1e5 || (x != 0 && std::fabs(x) < 1e-3) || (T)((T)x + 2) - 2 != (T)x || (T)((T)x - 2) + 2 != (T)x) skew = false; Unscope u; if (direct) { kv::covariance_<N, T> c(T(1)); for (unsigned j = 0; j < N; ++j) for (unsigned i = 0; i <= j; ++i) c(j, i) = m(i, j); return c; } if (skew) for (unsigned j = 0; j < N; ++j) for (unsigned i = 0; i < j; ++i) { m(i, j) += 2; m(j, i) -= 2; } return kv::covariance_<N, T>(m); }
template <class T> void setters(Val& v, uint32_t k) {
  if (!v.lm) { auto* f = F<T>(v); switch (k) { case 0: { T x = num<T>(), y = num<T>(); v.n[0] = x; v.n[1] = y; Unscope u; f->set_loc(Eigen::Matrix<T, 2, 1>(x, y)); break; } case 1: { T x = num<T>(); v.n[2] = x; Unscope u; f->set_magnitude(x); break; } case 2: { T x = num<T>(); v.n[3] = x; Unscope u; f->set_scale(x); break; } case 3: { T x = num<T>(); v.n[4] = x; Unscope u; f->set_angle(x); break; } case 4: { v.c = colour(); auto c = real(v.c); Unscope u; f->set_color(c); break; } default: { auto c = make_cov<T, 2>(v.cov); Unscope u; f->set_covar(c); break; } } }
  else { auto* l = L<T>(v); switch (k) { case 0: { T x = num<T>(), y = num<T>(), z = num<T>(); v.n[0] = x; v.n[1] = y; v.n[2] = z; Unscope u; l->set_loc(Eigen::Matrix<T, 3, 1>(x, y, z)); break; } case 1: { T x = num<T>(); v.n[3] = x; Unscope u; l->set_scale(x); break; } case 2: { T x = num<T>(), y = num<T>(), z = num<T>(); v.n[4] = x; v.n[5] = y; v.n[6] = z; Unscope u; l->set_normal(Eigen::Matrix<T, 3, 1>(x, y, z)); break; } case 3: { v.obs = choose(3) ? choose(100) : ~0u - choose(3); Unscope u; l->set_observations(v.obs); break; } case 4: { v.c = colour(); auto c = real(v.c); Unscope u; l->set_color(c); break; } default: { auto c = make_cov<T, 3>(v.cov); Unscope u; l->set_covar(c); break; } } } }
void mutate(Val& v) { uint32_t k = choose(6); if (v.flt) setters<float>(v, k); else setters<double>(v, k); }
template <class T> bool create(Val& v) {
  v.c = Colour{{255, 255, 255}}; bool full = chance(600); if (!v.lm) { T x = 0, y = 0, m = 0, s = 1, a = 0; if (full) { x = num<T>(); y = num<T>(); m = num<T>(); s = num<T>(); a = num<T>(); v.c = colour(); } v.n = {x, y, m, s, a}; auto c = real(v.c); return attempt(true, [&] { if (full) v.f = std::make_shared<kv::feature_<T>>(Eigen::Matrix<T, 2, 1>(x, y), m, s, a, c); else v.f = std::make_shared<kv::feature_<T>>(); }); }
  T x = 0, y = 0, z = 0, s = 1; if (full) { x = num<T>(); y = num<T>(); z = num<T>(); s = num<T>(); } v.n = {x, y, z, s, 0, 0, 0}; return attempt(true, [&] { if (full) v.l = std::make_shared<kv::landmark_<T>>(Eigen::Matrix<T, 3, 1>(x, y, z), s); else v.l = std::make_shared<kv::landmark_<T>>(); }); }
template <class T> bool convert(const Val& a, Val& b) { b = a; b.f.reset(); b.l.reset(); b.flt = sizeof(T) == 4; auto cast = [](double& x) { x = (T)x; }; for (double& x : b.n) cast(x); for (double& x : b.cov) cast(x); return attempt(true, [&] { if (a.lm) b.l = std::make_shared<kv::landmark_<T>>(static_cast<kv::landmark const&>(*a.l)); else b.f = std::make_shared<kv::feature_<T>>(static_cast<kv::feature const&>(*a.f)); }); }
bool duplicate(const Val& a, Val& b) { b = a; b.f.reset(); b.l.reset(); bool cl = a.lm && chance(600); return attempt(true, [&] { if (cl) b.l = a.l->clone(); else if (a.lm) { if (a.flt) b.l = std::make_shared<kv::landmark_f>(*L<float>(a)); else b.l = std::make_shared<kv::landmark_d>(*L<double>(a)); } else { if (a.flt) b.f = std::make_shared<kv::feature_f>(*F<float>(a)); else b.f = std::make_shared<kv::feature_d>(*F<double>(a)); } }); }
// ---- streams
struct Source : std::streambuf {   // gives the text in pieces and fails or ends at some place
  std::string t; size_t at = 0, piece; long bad; Source(const std::string& s, size_t p, long b) : t(s), piece(p), bad(b) {}
  int_type underflow() override { if (bad >= 0 && at >= (size_t)bad) throw std::runtime_error("read error"); if (at >= t.size()) return traits_type::eof(); size_t n = std::min(piece, t.size() - at); if (bad >= 0) n = std::min(n, (size_t)bad - at); char* p = &t[at]; setg(p, p, p + n); at += n; return traits_type::to_int_type(*p); } };
std::string spaced(const std::string& s) { std::string r; for (char c : s) { if (isspace((unsigned char)c)) { if (chance(100)) r += pick(std::vector<const char*>{"  ", "\t", "\n", " \r\n"}); else r += c; } else r += c; } return r; }
std::string damaged(std::string s, long& bad) { bad = -1; switch (choose(6)) {
    case 0: s.resize(choose((uint32_t)s.size() + 1)); fault("stream_cut"); break;
    case 1: bad = choose((uint32_t)s.size() + 1); fault("stream_error"); break;
    case 2: s[choose((uint32_t)s.size())] = "x;#-"[choose(4)]; fault("stream_damage"); break;
    case 3: { size_t p = s.find_last_of(' '); p = p == std::string::npos ? 0 : p; if (chance(600)) { size_t q = s.find_last_of(" \n", p ? p - 1 : 0); if (q != std::string::npos) p = q; } s = s.substr(0, p) + pick(std::vector<const char*>{" 256", " -1", " 300", " 99999999999999", " 1.5"}) + s.substr(std::min(s.size(), s.find_first_of(" \n", p + 1))); fault("stream_damage"); break; }
    case 4: s.insert(choose((uint32_t)s.size() + 1), 1, "x;#-."[choose(5)]); fault("stream_damage"); break;
    default: break; } return s; }
// what the text gives: ok, with numbers nn of type T, then nc colours and nu unsigneds
struct Parsed { bool ok; std::vector<double> n; Colour c; unsigned u; };
template <class T> Parsed parse(const std::string& s, long bad, size_t nn, bool col, bool obs) { Parsed p; p.ok = true; Source b(s, 1000000, bad); std::istream i(&b); for (size_t k = 0; k < nn && p.ok; ++k) { T x; if (i >> x) p.n.push_back(x); else p.ok = false; } if (col) for (int k = 0; k < 3 && p.ok; ++k) { int x; if (i >> x && x >= 0 && x <= 255) p.c.v[k] = x; else p.ok = false; } if (obs && p.ok) { if (!(i >> p.u)) p.ok = false; } return p; }
// reads an object; 0 refused, 1 accepted
template <class O> int take(const std::string& s, long bad, O& o) { size_t piece = chance(300) ? 1 + choose(7) : 100000; Unscope u; Source b(s, piece, bad); std::istream i(&b); try { i >> o; } catch (kv::invalid_data const&) { return 0; } return i.fail() ? 0 : 1; }
template <class T> std::string print(const std::function<void(std::ostream&)>& f) { std::string r; Unscope u; { std::ostringstream o; o << std::setprecision(std::numeric_limits<T>::max_digits10); f(o); std::string t = o.str(); Scope s; r = t; r.reserve(r.size()); } return r; }
template <class T> void streamed(Val& v, Val& onto) {
  bool base = chance(400); std::string s = print<T>([&](std::ostream& o) { if (v.lm) { if (base) o << static_cast<kv::landmark const&>(*v.l); else o << *L<T>(v); } else { if (base) o << static_cast<kv::feature const&>(*v.f); else o << *F<T>(v); } });
  s = spaced(s); long bad = -1; bool dmg = chance(500); if (dmg) s = damaged(s, bad); ev("stream %s '%s' bad %ld", say(v).c_str(), quote(s).c_str(), bad); where("reading a %s from '%s'%s", say(v).c_str(), quote(s).c_str(), bad >= 0 ? strf(" failing at %ld", bad).c_str() : "");
  Parsed p = parse<T>(s, bad, v.n.size(), true, v.lm); if (!dmg) { REQUIRE(p.ok && p.n == v.n && !memcmp(&p.c, &v.c, sizeof p.c) && (!v.lm || p.u == v.obs), "stream-wrong", "a %s is written as '%s'", say(v).c_str(), quote(s).c_str()); }
  int r = v.lm ? take(s, bad, *L<T>(onto)) : take(s, bad, *F<T>(onto)); REQUIRE(r == (int)p.ok, p.ok ? "stream-refused" : "damage-accepted", "reading a %s from '%s' (failing at %ld) is %s", say(v).c_str(), quote(s).c_str(), bad, r ? "accepted" : "refused");
  if (p.ok) { onto.n = p.n; onto.c = p.c; if (v.lm) onto.obs = p.u; count("streamed"); } else count("damage_refused"); nontrivial(); check(onto, p.ok ? "reading it from a stream" : "a failed read"); }
template <class T> std::vector<double> coeffs(const kv::similarity_<T>& s) { std::vector<double> r; r.push_back(s.scale()); for (int i = 0; i < 4; ++i) r.push_back(s.rotation().quaternion().coeffs()[i]); for (int i = 0; i < 3; ++i) r.push_back(s.translation()[i]); return r; }
template <class T> void streamed_sim() {
  std::vector<double> w; for (int i = 0; i < 8; ++i) w.push_back(num<T>()); typedef kv::similarity_<T> S; typedef kv::rotation_<T> R; auto mk = [&] { return S((T)w[0], R(Eigen::Matrix<T, 4, 1>((T)w[1], (T)w[2], (T)w[3], (T)w[4])), Eigen::Matrix<T, 3, 1>((T)w[5], (T)w[6], (T)w[7])); };
  std::unique_ptr<S> a, b; { Unscope u; a.reset(new S(mk())); b.reset(new S()); } REQUIRE(coeffs(*a) == w, "value-changed", "a similarity does not hold what it was made of"); bool rot = chance(400); int lo = rot ? 1 : 0, n = rot ? 4 : 8; std::vector<double> init = coeffs(*b);
  std::string s = spaced(print<T>([&](std::ostream& o) { if (rot) o << a->rotation(); else o << *a; })); long bad = -1; bool dmg = chance(500); if (dmg) s = damaged(s, bad); where("reading a %s from '%s'", rot ? "rotation" : "similarity", quote(s).c_str()); Parsed p = parse<T>(s, bad, n, false, false); std::vector<double> part(w.begin() + lo, w.begin() + lo + n); if (!dmg) REQUIRE(p.ok && p.n == part, "stream-wrong", "a %s is written as '%s'", rot ? "rotation" : "similarity", quote(s).c_str());
  int r; std::vector<double> got; if (rot) { std::unique_ptr<R> q; { Unscope u; q.reset(new R()); } init = {0, 0, 0, 1}; r = take(s, bad, *q); for (int i = 0; i < 4; ++i) got.push_back(q->quaternion().coeffs()[i]); Unscope u; q.reset(); } else { r = take(s, bad, *b); got = coeffs(*b); }
  REQUIRE(r == (int)p.ok, p.ok ? "stream-refused" : "damage-accepted", "reading from '%s' (failing at %ld) is %s", quote(s).c_str(), bad, r ? "accepted" : "refused"); REQUIRE(got == (p.ok ? p.n : init), "value-changed", "reading from '%s' gives something else", quote(s).c_str());
  typedef typename std::conditional<sizeof(T) == 4, double, float>::type T2; kv::similarity_<T2>* c; { Unscope u; c = new kv::similarity_<T2>(*a); } std::vector<double> w2; for (double x : w) w2.push_back((T2)x); REQUIRE(coeffs(*c) == w2, "value-changed", "a similarity changes when its precision is converted"); { Unscope u; delete c; a.reset(); b.reset(); } nontrivial(); count("streamed"); }
// rotations and similarities through their other forms, and composition undone
template <class T> void forms() {
  typedef kv::similarity_<T> S; typedef kv::rotation_<T> R; typedef Eigen::Matrix<T, 3, 1> V3; double tol = sizeof(T) == 4 ? 2e-3 : 1e-7; auto quat = [] { Eigen::Matrix<double, 4, 1> q; do for (int i = 0; i < 4; ++i) q[i] = ir(-9, 9) * (chance(200) ? 0 : 1); while (q.norm() == 0); q /= q.norm(); return q; };
  Eigen::Matrix<double, 4, 1> qa = quat(), qb = quat(); double sa = std::ldexp(1.0 + choose(8) / 8.0, ir(-3, 3)), sb = std::ldexp(1.0 + choose(8) / 8.0, ir(-3, 3)); V3 ta, tb, p; for (int i = 0; i < 3; ++i) { ta[i] = (T)(ir(-400, 400) / 16.0); tb[i] = (T)(ir(-400, 400) / 16.0); p[i] = (T)ir(-20, 20); }
  where("forms of a transform"); double d[8] = {}; const char* n[8] = {"matrix", "Rodrigues vector", "angle and axis", "4x4 matrix", "inverse", "composition", "matrix form", "inverse rotation"}; size_t had = choose(4), steps = choose(20), got; double gap = 0; bool kept = true;
  auto apart = [](R const& x, R const& y) { Eigen::Matrix<T, 4, 1> a = x.quaternion().coeffs(), b = y.quaternion().coeffs(); return (double)std::min((a - b).norm(), (a + b).norm()); };
  auto off = [&](S const& x, S const& y) { return apart(x.rotation(), y.rotation()) + std::fabs((double)(x.scale() / y.scale()) - 1) + (double)(x.translation() - y.translation()).norm() / 100; };
  { Unscope u; R a(Eigen::Matrix<T, 4, 1>(qa.cast<T>())), b(Eigen::Matrix<T, 4, 1>(qb.cast<T>())); S s((T)sa, a, ta), t((T)sb, b, tb), id; Eigen::Matrix<T, 3, 3> m = a; Eigen::Matrix<T, 4, 4> mm = s; d[0] = apart(a, R(m)); d[1] = apart(a, R(a.rodrigues())); d[2] = apart(a, R(a.angle(), a.axis())); d[3] = off(s, S(mm)); d[4] = off(id, s * s.inverse()) + off(id, s.inverse() * s); d[5] = (double)((s * t) * p - s * (t * p)).norm() / 1000; Eigen::Matrix<T, 4, 1> hp(p[0], p[1], p[2], (T)1); d[6] = (double)((mm * hp).template head<3>() - s * p).norm() / 1000; d[7] = apart(R(), a * a.inverse());
    std::vector<R> v(had, b); kv::interpolated_rotations(a, b, steps, v); got = v.size(); for (size_t i = 0; i < had; ++i) kept = kept && v[i] == b; if (got == had + steps && steps) { R step = R(); double w = 0; R at = a; for (size_t i = 0; i < steps; ++i) { double g = apart(at.inverse() * v[had + i], step); if (i) w = std::max(w, g); else step = at.inverse() * v[had]; at = v[had + i]; } w = std::max(w, apart(at.inverse() * b, step)); gap = w; } v.clear(); v.shrink_to_fit(); }
  for (int i = 0; i < 8; ++i) REQUIRE(d[i] < tol, "form-wrong", "a transform taken through its %s differs by %g", n[i], d[i]);
  REQUIRE(got == had + steps && kept, "form-wrong", "%zu interpolated rotations after %zu others are %zu", steps, had, got); REQUIRE(gap < 2 * tol, "form-wrong", "%zu interpolated rotations are not evenly spaced (%g)", steps, gap); nontrivial(); count("transform forms"); }
// vectors of any length, a line each, read one after the other into the same one
template <class T> void vectors() { typedef Eigen::Matrix<T, Eigen::Dynamic, 1> VX; std::vector<std::vector<double>> rows; std::string s; for (int k = 1 + choose(4); k--;) { std::vector<double> r; for (int n = chance(60) ? 100 + choose(300) : 1 + choose(6); n--;) r.push_back(num<T>()); rows.push_back(r); s += print<T>([&](std::ostream& o) { for (size_t i = 0; i < r.size(); ++i) o << (i ? " " : "") << (T)r[i]; }) + (chance(300) ? " " : "") + (chance(300) ? "\n\n" : "\n"); } if (chance(300)) while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); bool bad = chance(300); if (bad) { s += "\n1 x\n"; fault("stream_damage"); } where("reading vectors from '%s'", quote(s).c_str()); size_t piece = chance(300) ? 1 + choose(7) : 100000;
  std::vector<std::vector<double>> g; bool refused = false; size_t rest; { Unscope u; Source b(s, piece, -1); std::istream i(&b); VX v = VX::Constant(3, (T)7); for (size_t k = 0; k < rows.size(); ++k) { i >> v; Scope sc; g.push_back(std::vector<double>(v.data(), v.data() + v.size())); } VX z; try { i >> z; } catch (kv::invalid_data const&) { refused = true; } rest = z.size(); } REQUIRE(g == rows, "stream-wrong", "vectors of any length read wrongly from '%s'", quote(s).c_str()); REQUIRE(refused == bad && (bad || rest == 0), bad ? "damage-accepted" : "stream-refused", "a %s vector after '%s' is %s", bad ? "damaged" : "missing", quote(s).c_str(), refused ? "refused" : "accepted"); nontrivial(); count("streamed"); }
void streamed_colour() { Colour c = colour(), o = colour(); kv::rgb_color k = real(c), t = real(o); std::string s = spaced(print<double>([&](std::ostream& os) { os << k; })); long bad = -1; if (chance(600)) s = damaged(s, bad); where("reading a colour from '%s'", quote(s).c_str()); Parsed p = parse<double>(s, bad, 0, true, false); int r = take(s, bad, t); REQUIRE(r == (int)p.ok, p.ok ? "stream-refused" : "damage-accepted", "reading a colour from '%s' (failing at %ld) is %s", quote(s).c_str(), bad, r ? "accepted" : "refused"); REQUIRE(same_col(t, p.ok ? p.c : o), "value-changed", "reading a colour from '%s' gives %d %d %d", quote(s).c_str(), t.r, t.g, t.b); Unscope u; bool e = k == real(c), n = k != t; Scope sc; REQUIRE(e && n == !same_col(t, c), "value-changed", "colours compare wrongly"); }
// ------------------------------------------------------------------ collections
template <class Set, class P, class Get> struct Coll { std::unique_ptr<Set> s; std::vector<P> w; };
std::vector<std::function<void(const char*)>> checks; std::vector<std::function<void()>> drops;
void watch(std::function<void(const char*)> c, std::function<void()> d) { checks.push_back(c); drops.push_back(d); }
template <class V, class Set, class Get> void list_set(const char* name, V src, Get get, const std::function<void(V&)>& scramble) {
  Set* s = nullptr; V* in = nullptr; { Unscope u; in = new V(src); } bool empty = chance(100); V want = empty ? V() : src; if (!attempt(true, [&] { s = empty ? new Set() : new Set(*in); })) { Unscope u; delete in; return; } scramble(*in); { Unscope u; delete in; } ev("%s of %zu", name, want.size());
  if (chance(300)) { Set* t = nullptr; if (attempt(true, [&] { t = new Set(*s); })) { Unscope u; delete s; s = t; } else { } }
  std::string nm = name; watch([=](const char* at) { size_t n = 0; V* got = nullptr; if (!attempt(true, [&] { n = s->size(); got = new V(get(*s)); })) return; REQUIRE(n == want.size() && *got == want, "collection-wrong", "after %s a %s of %zu elements has %zu and gives %zu that %s", at, nm.c_str(), want.size(), n, got->size(), *got == want ? "agree" : "differ"); Unscope u; delete got; }, [=] { Unscope u; delete s; }); nontrivial(); count("collections"); }
template <class V> void shake(V& v) { if (!v.empty()) { v.erase(v.begin()); } }
void collection() {
  switch (choose(5)) {
    case 0: { std::vector<kv::feature_sptr> v; for (auto& x : vals) if (!x.lm) v.push_back(x.f); if (chance(300)) v.push_back(nullptr); if (!v.empty() && chance(300)) v.push_back(v[0]); if (!v.empty() && chance(40)) { while (v.size() < 290) v.push_back(v[choose((uint32_t)v.size())]); probe("large_collection"); } list_set<decltype(v), kv::simple_feature_set>("feature set", v, [](kv::feature_set const& s) { return s.features(); }, shake<decltype(v)>); break; }
    case 1: { std::vector<kv::match> v; for (uint32_t n = chance(40) ? 250 + choose(60) : choose(12), i = 0; i < n; ++i) v.push_back(kv::match(choose(n > 200 ? 400 : 5), chance(100) ? ~0u : choose(7))); list_set<decltype(v), kv::simple_match_set>("match set", v, [](kv::match_set const& s) { return s.matches(); }, shake<decltype(v)>); break; }
    case 2: { kv::landmark_map::map_landmark_t v; for (auto& x : vals) if (x.lm) v[chance(100) ? -1 - (int64_t)choose(3) : chance(60) ? ((int64_t)1 << 32) + choose(30) : choose(30)] = x.l; if (!v.empty() && chance(40)) for (int i = 0; i < 280; ++i) v[100 + i] = v.begin()->second; list_set<decltype(v), kv::simple_landmark_map>("landmark map", v, [](kv::landmark_map const& s) { return s.landmarks(); }, shake<decltype(v)>); break; }
    case 3: { std::vector<kv::descriptor_sptr> v; for (uint32_t n = chance(30) ? 270 : choose(5), i = 0; i < n; ++i) { Unscope u; v.push_back(kv::descriptor_sptr(new kv::descriptor_dynamic<float>(3))); } list_set<decltype(v), kv::simple_descriptor_set>("descriptor set", v, [](kv::descriptor_set const& s) { return s.descriptors(); }, shake<decltype(v)>); { Unscope u; v.clear(); } break; }
    default: { kv::camera_map::map_camera_t v; for (uint32_t n = choose(5), i = 0; i < n; ++i) { int64_t id; { Scope s2; id = chance(60) ? ((int64_t)1 << 32) + choose(20) : chance(60) ? -(int64_t)choose(4) : choose(20); } Unscope u; v[id] = kv::camera_sptr(new kv::simple_camera()); } list_set<decltype(v), kv::simple_camera_map>("camera map", v, [](kv::camera_map const& s) { return s.cameras(); }, shake<decltype(v)>); { Unscope u; v.clear(); } break; } } }
// ------------------------------------------------------------------ descriptors
template <class T, class D> void descriptor_values(D* d, size_t n, const char* name) {
  std::vector<T> w; for (size_t i = 0; i < n; ++i) { T x = (T)(std::is_integral<T>::value ? (double)choose(200) : number()); w.push_back(x); Unscope u; d->raw_data()[i] = x; }
  kv::descriptor* b = d; std::string nm = name; watch([=](const char* at) { std::vector<kv::byte>* by = nullptr; std::vector<double>* db = nullptr; size_t sz = 0, nb = 0; bool ok = attempt(true, [&] { sz = b->size(); nb = b->num_bytes(); by = new std::vector<kv::byte>(b->as_bytes()); }); if (ok) ok = attempt(true, [&] { db = new std::vector<double>(b->as_double()); }); if (ok) { std::vector<kv::byte> wb((const kv::byte*)w.data(), (const kv::byte*)(w.data() + w.size())); std::vector<double> wd(w.begin(), w.end()); REQUIRE(sz == w.size() && nb == w.size() * sizeof(T) && *by == wb && *db == wd, "descriptor-wrong", "after %s a %s of %zu elements gives %zu, %zu bytes", at, nm.c_str(), w.size(), sz, nb); } Unscope u; delete by; delete db; }, [=] { Unscope u; delete b; }); nontrivial(); count("descriptors"); }
// a copy made by construction or assignment does not follow the original
template <class D> void twin(D* d, D* o) { D* c = nullptr; bool asg = chance(400); if (!attempt(true, [&] { if (asg) { *o = *d; c = o; o = nullptr; } else c = new D(*d); })) { Unscope u; delete o; return; } std::vector<kv::byte> w, g; size_t n; { Unscope u; delete o; if (chance(200)) *c = *c; w = d->as_bytes(); for (size_t i = 0; i < d->size(); ++i) d->raw_data()[i] = d->raw_data()[i] + 1; g = c->as_bytes(); n = d->size(); for (size_t i = 0; i < n; ++i) d->raw_data()[i] = d->raw_data()[i] - 1; } bool same = g == w; REQUIRE(same, "shared", "a copied descriptor of %zu elements changes with the original", n); Unscope u; w = {}; g = {}; delete c; count("descriptors copied"); }
size_t dlen() { if (!chance(60)) return choose(9); probe("long_descriptor"); return 60 + choose(600); }
void descriptors() { switch (choose(4)) { case 0: { size_t n = dlen(); kv::descriptor_dynamic<double>* d = nullptr; if (attempt(true, [&] { d = new kv::descriptor_dynamic<double>(n); })) { size_t m = dlen(); kv::descriptor_dynamic<double>* o = nullptr; if (attempt(true, [&] { o = new kv::descriptor_dynamic<double>(m); })) { { Unscope u; for (size_t i = 0; i < n; ++i) d->raw_data()[i] = (double)i; } twin(d, o); } descriptor_values<double>(d, n, "dynamic descriptor"); } break; } case 1: { size_t n = dlen(); kv::descriptor_dynamic<kv::byte>* d = nullptr; if (attempt(true, [&] { d = new kv::descriptor_dynamic<kv::byte>(n); })) { size_t m = dlen(); kv::descriptor_dynamic<kv::byte>* o = nullptr; if (attempt(true, [&] { o = new kv::descriptor_dynamic<kv::byte>(m); })) { { Unscope u; for (size_t i = 0; i < n; ++i) d->raw_data()[i] = (kv::byte)i; } twin(d, o); } descriptor_values<kv::byte>(d, n, "dynamic byte descriptor"); } break; } case 2: { kv::descriptor_fixed<float, 5>* d = nullptr; if (attempt(true, [&] { d = new kv::descriptor_fixed<float, 5>(); })) descriptor_values<float>(d, 5, "fixed descriptor"); break; } default: { kv::descriptor_fixed<int, 3>* d = nullptr; if (attempt(true, [&] { d = new kv::descriptor_fixed<int, 3>(); })) descriptor_values<int>(d, 3, "fixed integer descriptor"); break; } } }
// ------------------------------------------------------------------ homographies
typedef Eigen::Matrix<double, 3, 3> M3;
struct Hom { kv::homography_sptr h; bool flt; M3 w; };
M3 small_matrix(bool singular) { M3 m; for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = (double)ir(-8, 8); if (singular) m.row(2) = m.row(0); return m; }
void homographies() {
  bool flt = chance(400), sing = chance(200); M3 w = small_matrix(sing); kv::homography_sptr h; if (!attempt(true, [&] { if (flt) h = kv::homography_sptr(new kv::homography_<float>(w.cast<float>())); else h = kv::homography_sptr(new kv::homography_<double>(w)); })) return; where("homography");
  kv::homography_sptr c; if (!attempt(true, [&] { c = h->clone(); })) return; auto fid = []() { long r = ir(-2, 5); return chance(150) ? r + ((long)ir(-1, 1) << 32) : r; }; long from = fid(), to = fid(); kv::f2f_homography *f = nullptr, *f2 = nullptr; kv::f2w_homography *g = nullptr, *g2 = nullptr;
  bool okf = attempt(true, [&] { f = new kv::f2f_homography(h, from, to); }), okg = attempt(true, [&] { g = new kv::f2w_homography(h, from); }); if (okf) attempt(true, [&] { f2 = new kv::f2f_homography(*f); }); if (okg) attempt(true, [&] { g2 = new kv::f2w_homography(*g); });
  // the same by assignment; one that fails may leave either
  if (f2 && chance(400)) { kv::f2f_homography* t = nullptr; if (attempt(true, [&] { t = new kv::f2f_homography(77); })) { if (attempt(true, [&] { *t = *f; })) { Unscope u; delete f2; f2 = t; if (chance(200)) *t = *t; } else { long a; { Unscope u; a = t->from_id(); } REQUIRE(a == 77, "value-changed", "a failed assignment of a homography changes it"); Unscope u; delete t; } } }
  if (g2 && chance(400)) { kv::f2w_homography* t = nullptr; if (attempt(true, [&] { t = new kv::f2w_homography(77); })) { if (attempt(true, [&] { *t = *g; })) { Unscope u; delete g2; g2 = t; if (chance(200)) *t = *t; } else { long a; { Unscope u; a = t->frame_id(); } REQUIRE(a == 77, "value-changed", "a failed assignment of a homography changes it"); Unscope u; delete t; } } }
  auto is = [](kv::homography const& x, const M3& m) { Unscope u; return x.matrix() == m; };
  // changing the original, and one copy, leaves the others
  { Unscope u; if (flt) static_cast<kv::homography_<float>*>(h.get())->get_matrix()(1, 2) += 3; else static_cast<kv::homography_<double>*>(h.get())->get_matrix()(1, 2) += 3; } M3 w2 = w; w2(1, 2) += 3; REQUIRE(is(*h, w2), "value-changed", "a homography does not hold what was stored: (1,2) is %g instead of %g, flt %d", h->matrix()(1, 2), w2(1, 2), flt); REQUIRE(is(*c, w), "shared", "a clone of a homography changes with the original");
  for (auto* x : {f, f2}) if (x) { kv::homography_sptr k; long a, b; { Unscope u; k = x->homography(); a = x->from_id(); b = x->to_id(); } REQUIRE(is(*k, w) && a == from && b == to, "shared", "a frame to frame homography %ld to %ld does not keep what it was made of (%ld to %ld)", from, to, a, b); Unscope u; k.reset(); }
  for (auto* x : {g, g2}) if (x) { kv::homography_sptr k; long a; { Unscope u; k = x->homography(); a = x->frame_id(); } REQUIRE(is(*k, w) && a == from, "shared", "a frame to world homography of %ld does not keep what it was made of (%ld)", from, a); Unscope u; k.reset(); }
  if (f && f2) { { Unscope u; auto k = f->homography(); if (flt) static_cast<kv::homography_<float>*>(k.get())->get_matrix()(0, 0) = 99; else static_cast<kv::homography_<double>*>(k.get())->get_matrix()(0, 0) = 99; } REQUIRE(is(*f2->homography(), w), "shared", "a copied frame to frame homography changes with the original"); 
    long a2 = chance(700) ? to : chance(200) ? to + (1l << 32) : fid(), b2 = fid(); M3 m2 = small_matrix(false), got = M3::Zero(); long gf = 0, gt = 0; bool thrown = false; { Unscope u; kv::f2f_homography second(m2, a2, b2); try { kv::f2f_homography p = second * *f2; got = p.homography()->matrix(); gf = p.from_id(); gt = p.to_id(); } catch (kv::invalid_matrix_operation const&) { thrown = true; } }
    REQUIRE(thrown == (a2 != to), "composition-wrong", "composing %ld to %ld with %ld to %ld is %s", from, to, a2, b2, thrown ? "refused" : "accepted"); if (!thrown) REQUIRE(got == m2 * w && gf == from && gt == b2, "composition-wrong", "composing %ld to %ld with %ld to %ld gives %ld to %ld", from, to, a2, b2, gf, gt);
    double det = w.determinant(); if (std::abs(det) > 0.5) { M3 inv; { Unscope u; kv::f2f_homography i = f2->inverse(); inv = i.homography()->matrix(); gf = i.from_id(); gt = i.to_id(); } REQUIRE((inv * w - M3::Identity()).norm() < 1e-2 && gf == to && gt == from, "composition-wrong", "the inverse of %ld to %ld is %ld to %ld, error %g", from, to, gf, gt, (inv * w - M3::Identity()).norm()); } }
  { Unscope u; delete f; delete f2; delete g; delete g2; h.reset(); c.reset(); } nontrivial(); count("homographies"); }
// ------------------------------------------------------------------ cameras
struct Cam { kv::camera_sptr c; double ctr[3], q[4], foc; kv::camera_intrinsics_sptr k; std::vector<double> cov; };
void check_cam(const Cam& m, const char* at) { kv::vector_3d ctr; kv::rotation_d r; kv::camera_intrinsics_sptr k; double f; kv::covariance_3d cv; { Unscope u; ctr = m.c->center(); r = m.c->rotation(); k = m.c->intrinsics(); f = k->focal_length(); cv = m.c->center_covar(); } bool same_k = k == m.k; { Unscope u; k.reset(); } REQUIRE(same(ctr, m.ctr, 3), "value-changed", "after %s the centre of a camera has changed", at); bool rot = true; for (int i = 0; i < 4; ++i) rot = rot && r.quaternion().coeffs()[i] == m.q[i]; REQUIRE(rot, "value-changed", "after %s the rotation of a camera has changed", at); REQUIRE(same_k && f == m.foc, "value-changed", "after %s the intrinsics of a camera have changed", at); REQUIRE(same_cov(cv, m.cov, 3), "value-changed", "after %s the covariance of the centre of a camera has changed", at); }
void cameras() {
  Cam a; where("camera"); for (double& x : a.ctr) x = number(); double nq = 0; for (double& x : a.q) { x = ir(-9, 9); nq += x * x; } if (nq == 0) a.q[3] = 1; a.foc = 1 + choose(1000); int how = choose(3); kv::simple_camera* raw = nullptr; kv::camera_intrinsics_sptr mine; { Unscope u; mine = kv::camera_intrinsics_sptr(new kv::simple_camera_intrinsics(a.foc, kv::vector_2d(3, 4), 1.5, 0.25)); }
  if (!attempt(true, [&] { kv::rotation_d r(Eigen::Matrix<double, 4, 1>(a.q[0], a.q[1], a.q[2], a.q[3])); kv::vector_3d c(a.ctr[0], a.ctr[1], a.ctr[2]); if (how == 0) raw = new kv::simple_camera(c, r, mine); else if (how == 1) raw = new kv::simple_camera(c, r, *mine); else { raw = new kv::simple_camera(); kv::camera_sptr hold; try { raw->set_center(c); raw->set_rotation(r); raw->set_intrinsics(mine); } catch (...) { delete raw; throw; } } })) { Unscope u; mine.reset(); return; }
  { Unscope u; a.c.reset(raw); a.k = raw->intrinsics(); } REQUIRE((a.k == mine) == (how != 1), "shared", "a camera made from %s intrinsics %s them", how == 1 ? "a copy of" : "shared", a.k == mine ? "shares" : "copies"); if (chance(600)) { auto c = make_cov<double, 3>(a.cov); Unscope u; raw->set_center_covar(c); } check_cam(a, "making it");
  Cam b = a; { Unscope u; b.c.reset(); } bool cl = chance(500); if (attempt(true, [&] { if (cl) b.c = a.c->clone(); else b.c = std::make_shared<kv::simple_camera>(static_cast<kv::camera const&>(*a.c)); })) { check_cam(b, "copying it"); Cam& t = chance(500) ? a : b; auto* r = static_cast<kv::simple_camera*>(t.c.get()); for (double& x : t.ctr) x = number(); { Unscope u; r->set_center(kv::vector_3d(t.ctr[0], t.ctr[1], t.ctr[2])); } if (chance(500)) { t.foc = 2000 + choose(9); Unscope u; kv::camera_intrinsics_sptr k(new kv::simple_camera_intrinsics(t.foc, kv::vector_2d(1, 2), 1.0, 0.0)); r->set_intrinsics(k); t.k = k; } if (chance(500)) { for (double& x : t.q) x = range(1, 9); Unscope u; r->set_rotation(kv::rotation_d(Eigen::Matrix<double, 4, 1>(t.q[0], t.q[1], t.q[2], t.q[3]))); } if (chance(500)) { auto c = make_cov<double, 3>(t.cov); Unscope u; r->set_center_covar(c); } check_cam(a, "changing a copy or the original"); check_cam(b, "changing a copy or the original"); }
  Unscope u; a.c.reset(); a.k.reset(); b.c.reset(); b.k.reset(); mine.reset(); { Scope s; nontrivial(); count("cameras"); } }
// ------------------------------------------------------------------ concurrent readers
void readers() {
  std::vector<Val> v; for (int i = 0; i < 4; ++i) { Val x; x.lm = i % 2; x.flt = false; Unscope u; if (x.lm) x.l = std::make_shared<kv::landmark_d>(kv::vector_3d(i, 2, 3), 4); else x.f = std::make_shared<kv::feature_d>(kv::vector_2d(i, 2), 3, 4, 5, kv::rgb_color(1, 2, 3)); Scope s; v.push_back(x); }
  kv::simple_feature_set* fs; kv::simple_landmark_map* lm; { Unscope u; std::vector<kv::feature_sptr> f{v[0].f, v[2].f}; std::map<kv::landmark_id_t, kv::landmark_sptr> l{{1, v[1].l}, {7, v[3].l}}; fs = new kv::simple_feature_set(f); lm = new kv::simple_landmark_map(l); for (auto& x : v) { x.f.reset(); x.l.reset(); } }
  g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{5, 30, 200})); uint32_t nt = range(2, 3); for (uint32_t t = 0; t < nt; ++t) { std::vector<uint32_t> ops; for (int i = range(1, 4); i > 0; --i) ops.push_back(choose(4)); spawn([=] { for (uint32_t o : ops) switch (o) {
        case 0: { auto f = fs->features(); REQUIRE(f.size() == 2 && f[1]->loc()[0] == 2 && f[0]->color().b == 3, "collection-wrong", "a feature set read by several threads"); break; }
        case 1: { auto l = lm->landmarks(); auto c = l[7]->clone(); REQUIRE(l.size() == 2 && c->loc()[0] == 3 && c->scale() == 4, "collection-wrong", "a landmark map read by several threads"); static_cast<kv::landmark_d*>(c.get())->set_scale(9); break; }
        case 2: { std::stringstream s; s << *fs->features()[0]; kv::feature_d d; s >> d; REQUIRE(!s.fail() && d.loc()[1] == 2 && d.get_angle() == 5, "stream-wrong", "a feature streamed by one of several threads"); break; }
        default: { kv::landmark_f f(*lm->landmarks()[1]); REQUIRE(f.get_loc()[0] == 1 && f.get_loc()[2] == 3, "value-changed", "a landmark converted by one of several threads"); break; } } }); }
  where("%u threads reading collections", nt); { Unscope u; run_all(); delete fs; delete lm; } nontrivial(); count("threaded_runs"); }
void run_c48() {
  vfs::reset(); { kv::get_logger("warm"); kv::get_logger("vital.similarity"); kv::simple_camera c; kv::simple_descriptor_set d; std::ostringstream o; o << 1.5 << 2u; int x; std::istringstream("1") >> x; } { Scope s; vals.clear(); checks.clear(); drops.clear(); vals.reserve(64); } uint64_t live = alloc_live(), seq = alloc_seq(); Scope s;
  if (chance(150)) readers(); else {
    int steps = range(4, 16); for (int st = 0; st < steps; ++st) { const char* what = "";
      if (vals.empty() || (vals.size() < 8 && chance(200))) { Val v; v.lm = chance(500); v.flt = chance(400); if (v.flt ? create<float>(v) : create<double>(v)) { check(v, "construction"); vals.push_back(v); } continue; }
      size_t i = choose((uint32_t)vals.size()); where("step %d", st); switch (weighted({5, 4, 4, 6, 2, 3, 3, 2, 2, 2, 2})) {
        case 0: what = "setting a property"; mutate(vals[i]); break;
        case 1: { what = "a conversion"; if (vals.size() > 10) break; Val b; if (chance(500) ? convert<float>(vals[i], b) : convert<double>(vals[i], b)) { vals.push_back(b); nontrivial(); count("conversions"); } break; }
        case 2: { what = "a copy"; if (vals.size() > 10) break; Val b; if (duplicate(vals[i], b)) { vals.push_back(b); nontrivial(); count("copies"); } break; }
        case 3: { what = "streaming"; size_t j = i; for (size_t k = 0; k < vals.size(); ++k) { size_t z = (i + 1 + k) % vals.size(); if (vals[z].lm == vals[i].lm && vals[z].flt == vals[i].flt) { j = z; break; } } if (vals[i].flt) streamed<float>(vals[i], vals[j]); else streamed<double>(vals[i], vals[j]); break; }
        case 4: { what = "dropping a handle"; Unscope u; vals[i].f.reset(); vals[i].l.reset(); Scope s2; vals.erase(vals.begin() + i); break; }
        case 5: what = "making a collection"; if (checks.size() < 6) collection(); break;
        case 6: what = "making a descriptor"; if (checks.size() < 6) descriptors(); break;
        case 7: what = "homographies"; homographies(); break; case 8: what = "cameras"; cameras(); break;
        case 9: what = "streaming transforms"; switch (choose(8)) { case 0: forms<float>(); break; case 1: forms<double>(); break; case 2: vectors<double>(); break; case 3: vectors<float>(); break; default: if (chance(500)) streamed_sim<float>(); else streamed_sim<double>(); break; } break;
        default: what = "streaming colours"; streamed_colour(); break; }
      ev("%s", what); for (auto& v : vals) check(v, what); if (chance(400)) for (auto& c : checks) c(what); if (!drops.empty() && chance(150)) { size_t k = choose((uint32_t)drops.size()); checks[k](what); drops[k](); drops.erase(drops.begin() + k); checks.erase(checks.begin() + k); } }
    for (auto& c : checks) c("the history"); { Unscope u; for (auto& v : vals) { v.f.reset(); v.l.reset(); } } for (auto& d : drops) d(); checks.clear(); drops.clear(); vals.clear(); }
  alloc_check_all(); REQUIRE(alloc_live() == live, "memory-leak", "%lld blocks left: %s", (long long)(alloc_live() - live), alloc_list(seq).c_str()); }
Reg r48("C48", run_c48);
}
