// kwiversys containers: hash maps and sets under histories of changes, failing allocations and concurrent readers.
#include "h.h"
#include <kwiversys/hash_map.hxx>
#include <kwiversys/hash_set.hxx>
#include <functional>
#include <list>
#include <iterator>
namespace {
using namespace h;
bool attempt(bool may_fail, const std::function<void()>& fn) {
  bool oom = may_fail && chance(250), ok = true; if (oom) alloc_arm(1 + choose(chance(300) ? 40 : 5));
  try { Unscope u; fn(); } catch (std::bad_alloc const&) { ok = false; }
  if (oom) { bool f = alloc_fired(); if (f) fault("alloc"); alloc_disarm(); REQUIRE(ok || f, "unexpected-exception", "bad_alloc without a failed allocation"); return ok; }
  REQUIRE(ok, "unexpected-exception", "bad_alloc without a failed allocation"); return true; }
// repeats an operation that leaves everything as it was when it fails, failing each of its allocations in turn
bool attempt_each(const std::function<void()>& fn) {
  for (uint32_t k = 1;; ++k) { REQUIRE(k < 200, "endless", "an operation fails after 200 failed allocations"); alloc_arm(k); bool ok = true; try { Unscope u; fn(); } catch (std::bad_alloc const&) { ok = false; } bool f = alloc_fired(); alloc_disarm(); if (f) fault("alloc"); REQUIRE(ok || f, "unexpected-exception", "bad_alloc without a failed allocation"); if (ok) { count("every_allocation_failed"); return true; } } }
struct Mod { size_t m; Mod(size_t m_ = 1000000007) : m(m_) {} size_t operator()(int k) const { return (size_t)k % m; } };
struct EqS { bool operator()(const std::string& a, const std::string& b) const { return a == b; } };
typedef std::pair<std::string, std::string> KV;
// conversions between model strings and element types
void key_of(const std::string& s, int& k) { k = atoi(s.c_str()); } void key_of(const std::string& s, std::string& k) { k.assign(s.data(), s.size()); }
std::string str(int k) { return strf("%d", k); } std::string str(const std::string& k) { return std::string(k.data(), k.size()); }
template <class V> struct El { typedef V K; static const V& key(const V& v) { return v; } static std::string val(const V&) { return ""; } static V make(const KV& kv) { V k; key_of(kv.first, k); return k; } static const bool map = false; };
template <class A, class B> struct El<std::pair<const A, B> > { typedef A K; static const A& key(const std::pair<const A, B>& v) { return v.first; } static std::string val(const std::pair<const A, B>& v) { return str(v.second); } static const bool map = true;
  static std::pair<const A, B> make(const KV& kv) { A k; key_of(kv.first, k); B b; key_of(kv.second, b); return std::pair<const A, B>(k, b); } };
std::string gen_key(bool ints) {
  if (ints) { switch (weighted({4, 3, 2, 1, 1})) { case 0: return strf("%u", choose(12)); case 1: return strf("%u", 55 * choose(8)); case 2: return strf("%u", 5 * choose(10)); case 3: return strf("%d", (int)choose(40) * 1000003 - 20000000); default: return strf("%u", choose(400)); } }
  if (chance(30)) return std::string("\xe9\xff", 1 + choose(2)); std::string s = text(3, "abc"); if (chance(200)) s += std::string(20 + choose(3), 'k'); if (chance(50)) s += strf("%u", choose(50)); return s; }
uint32_t g_val; std::string gen_val() { return strf("v%u%s", ++g_val, chance(400) ? "-------------------------------" : ""); }
template <class It> struct In : public std::iterator<std::input_iterator_tag, typename std::iterator_traits<It>::value_type> { It i; explicit In(It x) : i(x) {} typename std::iterator_traits<It>::reference operator*() const { return *i; } In& operator++() { ++i; return *this; } In operator++(int) { In r(*this); ++i; return r; } bool operator==(const In& o) const { return i == o.i; } bool operator!=(const In& o) const { return i != o.i; } };

template <class C, bool UNIQ, bool INTS> struct Driver {
  typedef typename C::value_type V; typedef El<V> E; typedef typename E::K K; typedef typename C::iterator It; typedef typename C::const_iterator CIt;
  typedef std::map<const void*, KV> M;
  struct Held { It it; const void* p; };
  struct B { C* c; M m; std::vector<Held> held; size_t mod; };
  std::vector<B> bs; bool oom; const char* kind;
  static const void* adr(const V& v) { return &v; }
  static size_t n_of(const M& m, const std::string& k) { size_t n = 0; for (auto& x : m) n += x.second.first == k; return n; }
  static std::multiset<KV> bag(const M& m) { std::multiset<KV> r; for (auto& x : m) r.insert(x.second); return r; }
  static KV kv(const V& v) { return KV(str(E::key(v)), E::val(v)); }
  static M contents(const C& c, const char* after) { M r; CIt i = c.begin(), e = c.end(); size_t n = 0; for (;;) { bool end; const V* p = nullptr; { Unscope u; end = i == e; if (!end) p = &*i; } if (end) break; REQUIRE(++n < 5000, "endless", "after %s: iterating does not end", after); REQUIRE(r.count(p) == 0, "iterated-twice", "after %s: the element with key %s is met twice", after, quote(str(E::key(*p))).c_str()); r[p] = kv(*p); Unscope u; if (n & 1) ++i; else i++; } return r; }
  void check(B& b, const char* after) {
    M g = contents(*b.c, after); std::multiset<KV> gb = bag(g), wb = bag(b.m);
    if (gb != wb) { std::string d; for (auto& x : wb) if (gb.count(x) != wb.count(x)) d += " " + quote(x.first, 30) + "=" + quote(x.second, 20) + strf(" is met %zu times instead of %zu;", gb.count(x), wb.count(x)); for (auto& x : gb) if (!wb.count(x)) d += " unexpected " + quote(x.first, 30) + "=" + quote(x.second, 20) + ";"; violation("wrong-elements", "%s after %s:%s", kind, after, d.substr(0, 400).c_str()); }
    REQUIRE(g == b.m, "moved-elements", "%s after %s: elements are not where they were", kind, after);
    size_t sz, nb, sum = 0, mx; bool em; { Unscope u; const C& c = *b.c; sz = c.size(); em = c.empty(); nb = c.bucket_count(); mx = c.max_bucket_count(); } REQUIRE(sz == b.m.size() && em == b.m.empty(), "wrong-size", "%s after %s: size() is %zu, empty() %d with %zu elements", kind, after, sz, (int)em, b.m.size());
    REQUIRE(nb >= 1 && nb <= mx, "wrong-buckets", "%s after %s: %zu buckets", kind, after, nb); for (size_t i = 0; i < nb; ++i) { Unscope u; sum += b.c->elems_in_bucket(i); } REQUIRE(sum == sz, "wrong-buckets", "%s after %s: the buckets hold %zu of %zu elements", kind, after, sum, sz);
    for (auto& h : b.held) { const void* p; { Unscope u; p = &*h.it; } REQUIRE(p == h.p && b.m.count(p), "lost-iterator", "%s after %s: an iterator does not point at its element", kind, after); }
    if (!b.held.empty()) { Held h = b.held[choose((uint32_t)b.held.size())]; std::set<const void*> seen; for (size_t n = 0; n < 5000; ++n) { bool e; const void* p = nullptr; { Unscope u; e = h.it == b.c->end(); if (!e) p = &*h.it; } if (e) break; REQUIRE(b.m.count(p) && seen.insert(p).second, "wrong-elements", "%s after %s: iterating on from a kept iterator", kind, after); Unscope u; ++h.it; } REQUIRE(seen.count(h.p) && seen.size() <= b.m.size(), "wrong-elements", "%s after %s: iterating on from a kept iterator", kind, after); count("kept_iterators"); }
    count("checks"); }
  void query(const C& cc, C* c, const M& m, const char* who) {
    KV k(gen_key(INTS), ""); if (!m.empty() && chance(600)) { auto i = m.begin(); std::advance(i, choose((uint32_t)m.size())); k = i->second; } size_t want = n_of(m, k.first); where("%s: query of %s", kind, quote(k.first).c_str());
    K key = K(); { Unscope u; key_of(k.first, key); }
    size_t n; bool f1, f2 = false; const V* p = nullptr; { Unscope u; n = cc.count(key); CIt i = cc.find(key); f1 = i != cc.end(); if (f1) p = &*i; if (c) { It j = c->find(key); f2 = j != c->end(); } } if (!c) f2 = f1;
    REQUIRE(n == want, "wrong-count", "%s (%s): count(%s) is %zu instead of %zu", kind, who, quote(k.first).c_str(), n, want); REQUIRE(f1 == (want > 0) && f2 == f1 && (!f1 || (m.count(p) && m.at(p).first == k.first)), "wrong-find", "%s (%s): find(%s) with %zu such elements", kind, who, quote(k.first).c_str(), want);
    std::set<const void*> r; size_t steps = 0; { Unscope u; std::pair<CIt, CIt> q = cc.equal_range(key); for (CIt i = q.first; i != q.second; ++i) { const void* a = &*i; Scope s; REQUIRE(++steps < 5000, "endless", "%s: equal_range does not end", kind); r.insert(a); } } bool good = r.size() == want && steps == want; for (auto a : r) good = good && m.count(a) && m.at(a).first == k.first; REQUIRE(good, "wrong-range", "%s (%s): equal_range(%s) has %zu of %zu elements", kind, who, quote(k.first).c_str(), steps, want);
    if (c) { size_t st2 = 0; bool g2 = true; { Unscope u; std::pair<It, It> q = c->equal_range(key); for (It i = q.first; i != q.second && st2 < 5000; ++i) { const void* a = &*i; Scope s; g2 = g2 && r.count(a); ++st2; } } REQUIRE(g2 && st2 == want, "wrong-range", "%s (%s): equal_range(%s) has %zu of %zu elements", kind, who, quote(k.first).c_str(), st2, want); }
    if (want > 1) probe("several_equal"); count("queries"); nontrivial(); }
  void forget(B& b, const void* p) { b.m.erase(p); for (size_t i = 0; i < b.held.size();) if (b.held[i].p == p) b.held.erase(b.held.begin() + (long)i); else ++i; }
  void put(B& b, const It& it, const KV& k) { b.m[&*it] = k; if (chance(200)) b.held.push_back(Held{it, &*it}); }
  // one of insert's two result types
  static It first(const It& i) { return i; } static It first(const std::pair<It, bool>& p) { return p.first; } static bool second(const It&) { return true; } static bool second(const std::pair<It, bool>& p) { return p.second; }
  typename std::conditional<UNIQ, std::pair<It, bool>, It>::type ins_(C& c, const V& v, bool noresize) { return noresize ? c.insert_noresize(v) : c.insert(v); }
  // about to grow: each allocation of the operation is failed in turn
  bool each(B& b) { if (!oom) return false; size_t nb; { Unscope u; nb = b.c->bucket_count(); } return chance(b.m.size() == nb ? 600 : 60); }
  template <class CC> void subscript(B& b, CC* c, typename std::enable_if<UNIQ && El<typename CC::value_type>::map, int>::type = 0) {
    KV k(gen_key(INTS), gen_val()); ev("[%s]", quote(k.first).c_str()); where("%s[%s]", kind, quote(k.first).c_str()); std::string* r = nullptr; K key = K(); { Unscope u; key_of(k.first, key); } auto fn = [&]() { r = &(*c)[key]; }; if (!(each(b) ? attempt_each(fn) : attempt(oom, fn))) { check(b, "a failed []"); return; }
    const void* p = nullptr; for (auto& x : b.m) if (x.second.first == k.first) p = x.first; if (p) REQUIRE(&((V*)p)->second == r, "wrong-reference", "[%s] of a present key refers to another value", quote(k.first).c_str()); else { REQUIRE(r->empty(), "wrong-value", "[%s] of a new key gives %s", quote(k.first).c_str(), quote(*r).c_str()); It it; { Unscope u; it = c->find(key); } REQUIRE(&it->second == r, "wrong-reference", "[%s] of a new key refers to another value", quote(k.first).c_str()); p = &*it; }
    { Unscope u; r->assign(k.second.data(), k.second.size()); } b.m[p] = k; }
  template <class CC> void subscript(B&, CC*, typename std::enable_if<!(UNIQ && El<typename CC::value_type>::map), int>::type = 0) {}
  template <class F> void insert_range(B& b, F fn, const std::vector<KV>& ks, bool ok) {   // some prefix of ks may have been inserted if it failed
    M g = contents(*b.c, "a range insertion"); M m = b.m; std::vector<KV> added; size_t done = 0; std::multiset<KV> fresh; for (auto& x : g) if (!m.count(x.first)) fresh.insert(x.second); for (auto& x : m) REQUIRE(g.count(x.first) && g[x.first] == x.second, "wrong-elements", "%s: inserting a range changed or lost %s", kind, quote(x.second.first).c_str());
    std::multiset<KV> want; std::set<std::string> have; if (UNIQ) for (auto& x : m) have.insert(x.second.first); bool match = fresh == want && !ok; for (auto& k : ks) { if (match) break; if (!UNIQ || have.insert(k.first).second) want.insert(E::map ? k : KV(k.first, "")); ++done; if (!ok && fresh == want) match = true; } REQUIRE(ok ? fresh == want : match, "wrong-elements", "%s: %s insertion of %zu elements added %zu, expected %zu", kind, ok ? "the" : "a failed", ks.size(), fresh.size(), want.size()); b.m = g; }
  C* make(size_t n, size_t mod) { return make_(n, mod, (typename C::hasher*)nullptr); }
  C* make_(size_t n, size_t mod, Mod*) { return n ? new C(n, Mod(mod)) : new C(5, Mod(mod), typename C::key_equal()); } template <class H> C* make_(size_t n, size_t, H*) { return n ? new C(n) : new C(); }
  C* make_range(const std::vector<V>& v, size_t n, size_t mod) { return make_range_(v, n, mod, (typename C::hasher*)nullptr); }
  C* make_range_(const std::vector<V>& v, size_t n, size_t mod, Mod*) { return new C(v.begin(), v.end(), n, Mod(mod)); } template <class H> C* make_range_(const std::vector<V>& v, size_t n, size_t, H*) { return n ? new C(v.begin(), v.end(), n) : new C(v.begin(), v.end()); }
  size_t mod() { return pick(std::vector<size_t>{1000000007, 1, 2, 7, 53}); }
  bool add() {
    B b; b.mod = mod(); b.c = nullptr; size_t n = pick(std::vector<size_t>{1, 0, 6, 12, 100, 200}); ev("new %s, %zu buckets, mod %zu", kind, n, b.mod); where("construction of %s(%zu)", kind, n);
    if (chance(250)) { std::vector<KV> ks; uint32_t c = choose(chance(200) ? 120 : 12); for (uint32_t i = 0; i < c; ++i) ks.push_back(KV(gen_key(INTS), gen_val())); std::vector<V>* v; { Unscope u; v = new std::vector<V>(); v->reserve(ks.size()); for (auto& k : ks) v->push_back(E::make(k)); }
      bool ok = attempt(oom, [&]() { b.c = make_range(*v, n, b.mod); }); { Unscope u; delete v; } if (!ok) return false; insert_range(b, 0, ks, true); bs.push_back(b); check(bs.back(), "construction from a range"); count("range_constructions"); return true; }
    if (!attempt(oom, [&]() { b.c = make(n, b.mod); })) return false; bs.push_back(b); check(bs.back(), "construction"); return true; }
  void adopt_copy(B& b, const M& from, const char* what) { M g = contents(*b.c, what); REQUIRE(bag(g) == bag(from), "wrong-elements", "%s: %s of %zu elements has %zu", kind, what, from.size(), g.size()); for (auto& x : g) REQUIRE(!from.count(x.first), "shared-elements", "%s: %s shares an element", kind, what); b.m = g; b.held.clear(); check(b, what); }
  void history() {
    oom = chance(500); { bool o = oom; oom = false; add(); oom = o; } uint32_t n = range(5, 60); bool bulk = chance(150);
    for (uint32_t q = 0; q < n; ++q) {
      if (bs.empty()) { add(); continue; }
      size_t x = choose((uint32_t)bs.size()); B& b = bs[x]; const char* what = "nothing";
      switch (weighted({8, 4, 4, 3, 3, 3, 3, 1, 2, 2, 2, 2, 2, 1, 1})) {
        case 0: { what = "an insertion"; uint32_t rep = bulk ? range(1, 40) : 1; while (rep--) { KV k(gen_key(INTS), gen_val()); if (!E::map) k.second.clear(); bool nr = chance(200), was = n_of(b.m, k.first) > 0; ev("insert %s", quote(k.first).c_str()); where("%s: insert %s", kind, quote(k.first).c_str()); It it; bool fresh = false; const V* self = nullptr; if (chance(100) && !b.m.empty()) { auto i = b.m.begin(); std::advance(i, choose((uint32_t)b.m.size())); self = (const V*)i->first; k = i->second; was = true; probe("inserted_own_element"); }
            auto fn = [&]() { auto r = self ? ins_(*b.c, *self, nr) : ins_(*b.c, E::make(k), nr); it = first(r); fresh = second(r); }; if (!(!nr && each(b) ? attempt_each(fn) : attempt(oom, fn))) { what = "a failed insertion"; break; }
            bool want = !UNIQ || !was; REQUIRE(fresh == want, "wrong-result", "%s: insert(%s) reports %d", kind, quote(k.first).c_str(), (int)fresh); const void* p = &*it; if (want) { REQUIRE(!b.m.count(p) && kv(*it) == k, "wrong-result", "%s: insert(%s) returns another element", kind, quote(k.first).c_str()); put(b, it, k); } else REQUIRE(b.m.count(p) && b.m[p].first == k.first, "wrong-result", "%s: insert(%s) returns another element than the present one", kind, quote(k.first).c_str()); count("insertions"); nontrivial(); } break; }
        case 1: query(*b.c, b.c, b.m, "query"); break;
        case 2: { what = "erasing a key"; KV k(gen_key(INTS), ""); const V* self = nullptr; if (!b.m.empty() && chance(700)) { auto i = b.m.begin(); std::advance(i, choose((uint32_t)b.m.size())); k = i->second; if (chance(400)) { self = (const V*)i->first; probe("erased_by_own_key"); } } size_t want = n_of(b.m, k.first), got; ev("erase %s%s", quote(k.first).c_str(), self ? " by its own key" : ""); where("%s: erase(%s)%s", kind, quote(k.first).c_str(), self ? " given its own key" : ""); K key = K(); { Unscope u; key_of(k.first, key); got = b.c->erase(self ? E::key(*self) : key); } REQUIRE(got == want, "wrong-result", "%s: erase(%s) reports %zu instead of %zu", kind, quote(k.first).c_str(), got, want); std::vector<const void*> ps; for (auto& y : b.m) if (y.second.first == k.first) ps.push_back(y.first); for (auto p : ps) forget(b, p); count("erased", want); break; }
        case 3: { what = "erasing an element"; if (b.m.empty()) break; It it; uint32_t at = choose((uint32_t)b.m.size()); { Unscope u; it = b.c->begin(); for (uint32_t i = 0; i < at; ++i) ++it; } if (!b.held.empty() && chance(400)) it = b.held[choose((uint32_t)b.held.size())].it; const void* p = &*it; ev("erase at"); where("%s: erase(iterator)", kind); { Unscope u; b.c->erase(it); } forget(b, p); count("erased"); break; }
        case 4: { what = "erasing a range"; uint32_t z = (uint32_t)b.m.size(), lo = choose(z + 1), hi = chance(200) ? z : lo + choose(z - lo + 1); if (chance(150)) lo = 0; std::vector<const void*> ps; It i, j; { Unscope u; i = b.c->begin(); for (uint32_t a = 0; a < lo; ++a) ++i; j = i; for (uint32_t a = lo; a < hi; ++a) { const void* p = &*j; { Scope s; ps.push_back(p); } ++j; } } ev("erase range %u-%u of %u", lo, hi, z); where("%s: erase of elements %u to %u of %u", kind, lo, hi, z); { Unscope u; b.c->erase(i, j); } for (auto p : ps) forget(b, p); count("erased", ps.size()); if (ps.size() > 1) probe("erased_range"); break; }
        case 5: { what = "inserting a range"; std::vector<KV> ks; uint32_t c = choose(bulk ? 150 : 10); for (uint32_t i = 0; i < c; ++i) ks.push_back(KV(gen_key(INTS), gen_val())); uint32_t how = choose(4); std::vector<V>* v; std::list<V>* l; { Unscope u; v = new std::vector<V>(); v->reserve(ks.size()); l = new std::list<V>(); for (auto& k : ks) { v->push_back(E::make(k)); l->push_back(E::make(k)); } } ev("insert a range of %u, kind %u", c, how); where("%s: insert of %u elements, kind %u", kind, c, how); typedef typename std::list<V>::iterator L;
          bool ok; if (how == 3) { C* o; size_t y = choose((uint32_t)bs.size()); if (y == x) { how = 0; } else { o = bs[y].c; ks.clear(); { CIt i; { Unscope u; i = ((const C*)o)->begin(); } for (size_t a = 0; a < bs[y].m.size(); ++a) { ks.push_back(kv(*i)); Unscope u; ++i; } } ok = attempt(oom, [&]() { b.c->insert(((const C*)o)->begin(), ((const C*)o)->end()); }); } }
          if (how != 3) ok = attempt(oom, [&]() { if (how == 0) b.c->insert(v->begin(), v->end()); else if (how == 1) b.c->insert(l->begin(), l->end()); else b.c->insert(In<L>(l->begin()), In<L>(l->end())); });
          { Unscope u; delete v; delete l; } insert_range(b, 0, ks, ok); count("range_insertions"); break; }
        case 6: { what = "[]"; uint32_t rep = bulk || chance(150) ? range(1, 20) : 1; while (rep--) subscript(b, b.c); break; }
        case 7: { what = "clear"; ev("clear"); { Unscope u; b.c->clear(); } b.m.clear(); b.held.clear(); break; }
        case 8: { what = "resize"; size_t h = chance(100) ? 0 : choose(chance(100) ? 2000 : 130), nb; ev("resize %zu", h); where("%s: resize(%zu)", kind, h); bool ok = attempt(oom, [&]() { b.c->resize(h); }); { Unscope u; nb = b.c->bucket_count(); } REQUIRE(!ok || nb >= h, "wrong-buckets", "%s: %zu buckets after resize(%zu)", kind, nb, h); count("resizes"); break; }
        case 9: { what = "a copy"; if (bs.size() > 4) break; B c; c.mod = b.mod; c.c = nullptr; M from = b.m; ev("copy %zu", x); where("copy of a %s", kind); C* src = b.c; if (!attempt(oom, [&]() { c.c = new C(*src); })) { what = "a failed copy"; break; } bool eq, ne; { Unscope u; eq = *c.c == *src; ne = *c.c != *src; } REQUIRE(eq && !ne, "copy-differs", "%s: a copy does not compare equal", kind); adopt_copy(c, from, "a copy"); bs.push_back(c); count("copies"); nontrivial(); break; }
        case 10: { what = "an assignment"; size_t y = choose((uint32_t)bs.size()); B& t = bs[y]; M from = b.m; ev("assign %zu to %zu", x, y); where("assignment of a %s of %zu elements to one of %zu", kind, b.m.size(), t.m.size()); if (!attempt(oom, [&]() { *t.c = *b.c; })) { what = "a failed assignment"; M g = contents(*t.c, what); if (g.empty()) { t.m.clear(); t.held.clear(); } check(t, what); query(*t.c, t.c, t.m, what); break; } if (x == y) { probe("assigned_to_itself"); break; } t.mod = b.mod; adopt_copy(t, from, "an assignment"); count("assignments"); nontrivial(); break; }
        case 11: { what = "a swap"; size_t y = choose((uint32_t)bs.size()); ev("swap %zu %zu", x, y); where("swap of %ss", kind); bool mem = chance(500); { Unscope u; if (mem) bs[x].c->swap(*bs[y].c); else { using std::swap; swap(*bs[x].c, *bs[y].c); } } if (x != y) { std::swap(bs[x].m, bs[y].m); std::swap(bs[x].mod, bs[y].mod); bs[x].held.clear(); bs[y].held.clear(); } check(bs[y], what); break; }
        case 12: { what = "a comparison"; size_t y = choose((uint32_t)bs.size()); bool eq, ne; { Unscope u; eq = *bs[x].c == *bs[y].c; ne = *bs[x].c != *bs[y].c; } REQUIRE(eq != ne, "wrong-comparison", "%s: == and != agree", kind); REQUIRE(!eq || bag(bs[x].m) == bag(bs[y].m), "wrong-comparison", "%s: different ones compare equal", kind); REQUIRE(eq || x != y, "wrong-comparison", "%s: does not compare equal to itself", kind); break; }
        case 13: { what = "destruction"; ev("destroy %zu", x); C* c = b.c; bs.erase(bs.begin() + (long)x); { Unscope u; delete c; } break; }
        default: if (bs.size() < 4) add(); break; }
      for (auto& z : bs) check(z, what); }
    state_hash(bs.empty() ? 0 : bs[0].m.size() * 31 + bs.size()); }
  void threads() {
    oom = false; add(); B& b = bs[0]; uint32_t n = range(3, 25); for (uint32_t i = 0; i < n; ++i) { KV k(gen_key(INTS), gen_val()); if (!E::map) k.second.clear(); bool was = n_of(b.m, k.first) > 0; It it; { Unscope u; it = first(ins_(*b.c, E::make(k), false)); } if (!UNIQ || !was) b.m[&*it] = k; }
    g_race_detect = true; set_preempt(pick(std::vector<uint32_t>{5, 30, 200})); uint32_t nt = range(2, 3); for (uint32_t t = 0; t < nt; ++t) { uint32_t q = range(1, 4); bool own = chance(500); spawn([=, &b]() { Scope s; for (uint32_t i = 0; i < q; ++i) { if (own && i == 0) { C* c; { Unscope u; c = new C(*b.c); } M g = contents(*c, "a copy by one of several threads"); REQUIRE(bag(g) == bag(b.m), "wrong-elements", "%s: a copy made by one of several threads", kind); { Unscope u; c->clear(); delete c; } } else if (i & 1) { M g = contents(*b.c, "reading by several threads"); REQUIRE(g == b.m, "wrong-elements", "%s read by several threads", kind); } else query(*b.c, nullptr, b.m, "one of several threads"); } }); }
    where("%u threads reading a %s", nt, kind); { Unscope u; run_all(); } count("threaded_runs"); }
  void run(const char* k) { kind = k; if (chance(120)) threads(); else history(); while (!bs.empty()) { C* c = bs.back().c; bs.pop_back(); { Unscope u; delete c; } for (auto& z : bs) check(z, "destroying another"); } }
};
template <class C, bool U, bool I> void go(const char* k) { Driver<C, U, I> d; d.run(k); }
void run_c43() {
  vfs::reset(); { Scope s; g_val = 0; } uint64_t live = alloc_live(), seq = alloc_seq(); Scope s; using namespace kwiversys; typedef std::string S; typedef std::equal_to<int> EI;
  switch (choose(8)) {
    case 0: go<hash_map<int, S, Mod>, true, true>("hash_map<int>"); break; case 1: go<hash_map<S, S>, true, false>("hash_map<string>"); break; case 2: go<hash_multimap<int, S, Mod>, false, true>("hash_multimap<int>"); break; case 3: go<hash_multimap<S, S, hash<S>, EqS>, false, false>("hash_multimap<string>"); break;
    case 4: go<hash_set<int, Mod>, true, true>("hash_set<int>"); break; case 5: go<hash_set<S>, true, false>("hash_set<string>"); break; case 6: go<hash_multiset<S>, false, false>("hash_multiset<string>"); break; default: go<hash_multiset<int, Mod, EI>, false, true>("hash_multiset<int>"); break; }
  alloc_check_all(); REQUIRE(alloc_live() == live, "memory-leak", "%lld blocks left: %s", (long long)(alloc_live() - live), alloc_list(seq).c_str());
}
Reg r43("C43", run_c43);
}
