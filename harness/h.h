// Shared helpers of the harnesses.
#pragma once
#include "core.h"
#include "vfs.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <algorithm>
#include <cstring>
#include <cstdlib>
namespace h {
using namespace sim;
typedef std::vector<std::string> Strs;
// "expr must hold" with a stable signature and a message
#define REQUIRE(cond, sig, ...) do { if (!(cond)) sim::violation(sig, __VA_ARGS__); } while (0)
inline std::string join(const Strs& v, const char* sep = ",") { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? sep : "") + v[i]; return r; }
// small strings biased to boundary shapes
inline std::string text(uint32_t maxlen, const char* alphabet) { uint32_t n = choose(maxlen + 1), a = (uint32_t)strlen(alphabet); std::string r; for (uint32_t i = 0; i < n; ++i) r += alphabet[choose(a)]; return r; }
inline std::string isolate(const std::string& s) { return s; }
inline std::string trim(std::string s) {
  size_t b = 0, e = s.size(); auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (b < e && sp(s[b])) ++b; while (e > b && sp(s[e - 1])) --e; return s.substr(b, e - b); }
inline std::string dirname_of(const std::string& p) { auto q = p.rfind('/'); return q == std::string::npos ? "" : q == 0 ? "/" : p.substr(0, q); }
// lexical normalisation of an absolute or cwd-relative path
inline std::string normal(const std::string& p, const std::string& cwd = "/") {
  std::string a = p.empty() || p[0] != '/' ? cwd + "/" + p : p; Strs st; std::string c;
  for (size_t i = 0; i <= a.size(); ++i) { if (i == a.size() || a[i] == '/') { if (c == "..") { if (!st.empty()) st.pop_back(); } else if (!c.empty() && c != ".") st.push_back(c); c.clear(); } else c += a[i]; }
  std::string r; for (auto& x : st) r += "/" + x; return r.empty() ? "/" : r; }
template <class M> std::string show(const M& m) { std::string r = "{"; for (auto& kv : m) r += kv.first + "=" + quote(kv.second, 60) + " "; return r + "}"; }
}
