// @entry h_ops : capacity 4, int elements: any contents (0..4 elements, any stale storage), then any 2 (thorough 3) operations at any position with any values, compared with a plain sequence
// @entry h_str : capacity 4, std::string elements: any contents, then any 1 (thorough 2) operations
// @entry h_cmp : two sequences of 0..3 elements: all six comparisons, swap, copy, move, construction
// @entry h_iter : iterator arithmetic and ordering at every pair of positions of sequences of 0..4 elements
// @entry h_limit : any contents of 0..4 elements, any one operation that needs more room than there is or an element that is not there (counts: any 64-bit number): stops at an assertion, touching nothing outside
#include "util.h"
#include <wordring/static_vector/static_vector.hpp>
#include <stdexcept>
using wordring::static_vector;
static const size_t CAP = 4;
template <class T> static T val(const char* n);
template <> int val<int>(const char* n) { return (int)vp_u8(n); }
template <> std::string val<std::string>(const char* n) { std::string s(1, (char)vp_u8(n)); return s; }
template <class T> static void eq(static_vector<T, CAP>& v, std::vector<T> const& m, char const* msg) {
  static_vector<T, CAP> const& c = v;
  vp_check(v.size() == m.size(), msg); vp_check(v.empty() == m.empty(), msg); vp_check(v.max_size() == CAP && v.capacity() == CAP, "fixed capacity");
  bool ok = true; size_t i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) ok &= i < m.size() && *it == m[i]; ok &= i == m.size();
  for (i = 0; i < m.size(); i++) { ok &= v[i] == m[i]; ok &= c[i] == m[i]; ok &= v.at(i) == m[i]; ok &= c.at(i) == m[i]; ok &= v.data()[i] == m[i]; ok &= c.data()[i] == m[i]; }
  i = m.size(); for (auto it = c.rbegin(); it != c.rend(); ++it) ok &= i > 0 && *it == m[--i];
  i = 0; for (auto it = c.cbegin(); it != c.cend(); it++) ok &= *it == m[i++];
  if (!m.empty()) { ok &= v.front() == m.front() && v.back() == m.back(); ok &= c.front() == m.front() && c.back() == m.back(); }
  vp_check(ok, msg);
}
template <class T> static void fill(static_vector<T, CAP>& v, std::vector<T>& m) {
  size_t top = vp_len(0, CAP, "top"); for (size_t i = 0; i < top; i++) { T x = val<T>("e"); v.push_back(x); m.push_back(x); }
  size_t n = vp_len(0, top, "n"); while (m.size() > n) { v.pop_back(); m.pop_back(); }
}
template <class T> static void op(static_vector<T, CAP>& v, std::vector<T>& m) {
  size_t n = m.size(); size_t p = 0;
  auto ret = [&](auto it, size_t at) { vp_check(it - v.begin() == (long)at, "returned position"); };
  switch (vp_choose(18, "op")) {
  case 0: { vp_assume(n < CAP); T x = val<T>("x"); v.push_back(x); m.push_back(x); break; }
  case 1: { vp_assume(n < CAP); T x = val<T>("x"); m.push_back(x); v.push_back(std::move(x)); break; }
  case 2: { vp_assume(n > 0); v.pop_back(); m.pop_back(); break; }
  case 3: { vp_assume(n < CAP); p = vp_len(0, n, "p"); T x = val<T>("x"); ret(v.insert(v.cbegin() + p, x), p); m.insert(m.begin() + p, x); break; }
  case 4: { vp_assume(n < CAP); p = vp_len(0, n, "p"); T x = val<T>("x"); m.insert(m.begin() + p, x); ret(v.insert(v.cbegin() + p, std::move(x)), p); break; }
  case 5: { p = vp_len(0, n, "p"); size_t k = vp_len(0, CAP - n, "k"); T x = val<T>("x"); ret(v.insert(v.cbegin() + p, k, x), p); m.insert(m.begin() + p, k, x); break; }
  case 6: { p = vp_len(0, n, "p"); size_t k = vp_len(0, CAP - n, "k"); std::vector<T> s; for (size_t i = 0; i < k; i++) s.push_back(val<T>("x")); ret(v.insert(v.cbegin() + p, s.begin(), s.end()), p); m.insert(m.begin() + p, s.begin(), s.end()); break; }
  case 7: { p = vp_len(0, n, "p"); vp_assume(n + 2 <= CAP); T x = val<T>("x"), y = val<T>("y"); ret(v.insert(v.cbegin() + p, { x, y }), p); m.insert(m.begin() + p, { x, y }); break; }
  case 8: { vp_assume(n > 0); p = vp_len(0, n - 1, "p"); ret(v.erase(v.cbegin() + p), p); m.erase(m.begin() + p); break; }
  case 9: { p = vp_len(0, n, "p"); size_t q = vp_len(p, n, "q"); ret(v.erase(v.cbegin() + p, v.cbegin() + q), p); m.erase(m.begin() + p, m.begin() + q); break; }
  case 10: { v.clear(); m.clear(); break; }
  case 11: { size_t k = vp_len(0, CAP, "k"); T x = val<T>("x"); v.resize(k, x); m.resize(k, x); break; }
  case 12: { size_t k = vp_len(0, CAP, "k"); v.resize(k); m.resize(k); break; }
  case 13: { size_t k = vp_len(0, CAP, "k"); T x = val<T>("x"); v.assign(k, x); m.assign(k, x); break; }
  case 14: { size_t k = vp_len(0, CAP, "k"); std::vector<T> s; for (size_t i = 0; i < k; i++) s.push_back(val<T>("x")); v.assign(s.begin(), s.end()); m = s; break; }
  case 15: { vp_assume(0 < n && n < CAP); p = vp_len(0, n, "p"); size_t q = vp_len(0, n - 1, "q"); T x = m[q]; ret(v.insert(v.cbegin() + p, v[q]), p); m.insert(m.begin() + p, x); break; } // the value is an element of the sequence itself
  case 16: { vp_assume(0 < n && n < CAP); p = vp_len(0, n, "p"); size_t q = vp_len(0, n - 1, "q"), k = vp_len(0, CAP - n, "k"); T x = m[q]; ret(v.insert(v.cbegin() + p, k, v[q]), p); m.insert(m.begin() + p, k, x); break; }
  default: { T x = val<T>("x"), y = val<T>("y"); if (vp_choose(2, "form")) v = { x, y }; else v.assign({ x, y }); m = { x, y }; break; }
  }
  eq(v, m, "same contents as a plain sequence after the operation"); vp_cover("op");
}
extern "C" void h_ops() { static_vector<int, CAP> v; std::vector<int> m; fill(v, m); eq(v, m, "contents after push/pop"); int k = vp_thorough() ? 3 : 2; for (int i = 0; i < k; i++) op(v, m); }
extern "C" void h_str() { static_vector<std::string, CAP> v; std::vector<std::string> m; size_t n = vp_len(0, CAP, "n"); for (size_t i = 0; i < n; i++) { m.push_back(std::string(1, 'a' + i)); v.push_back(m.back()); } int k = vp_thorough() ? 2 : 1; for (int i = 0; i < k; i++) op(v, m); }
extern "C" void h_cmp() {
  using SV = static_vector<int, CAP>; std::vector<int> a, b; size_t n = vp_len(0, 3, "n"), k = vp_len(0, 3, "k"); for (size_t i = 0; i < n; i++) a.push_back(val<int>("a")); for (size_t i = 0; i < k; i++) b.push_back(val<int>("b"));
  SV x(a.begin(), a.end()), y(b.begin(), b.end());
  bool eqv = a == b, lt = a < b, gt = b < a;
  vp_check((x == y) == eqv, "=="); vp_check((x != y) == !eqv, "!="); vp_check((x < y) == lt, "<"); vp_check((x > y) == gt, ">"); vp_check((x <= y) == !gt, "<="); vp_check((x >= y) == !lt, ">=");
  SV z(x); eq(z, a, "copy"); SV w(std::move(z)); eq(w, a, "move"); z = y; eq(z, b, "copy assignment"); w = std::move(z); eq(w, b, "move assignment");
  x.swap(y); eq(x, b, "swap left"); eq(y, a, "swap right"); int f = val<int>("f"); SV c1(n, f); eq(c1, std::vector<int>(n, f), "count construction"); SV c2(n); eq(c2, std::vector<int>(n), "default count construction"); SV c3{ f, 1 }; eq(c3, { f, 1 }, "list construction");
  bool th = false; try { (void)x.at(vp_len(x.size(), CAP + 1, "at")); } catch (std::out_of_range const&) { th = true; } vp_check(th, "checked access rejects positions past the end"); vp_cover("cmp");
}
extern "C" void h_iter() {
  static_vector<int, CAP> v; std::vector<int> m; size_t n = vp_len(0, CAP, "n"); for (size_t i = 0; i < n; i++) { m.push_back(val<int>("e")); v.push_back(m.back()); }
  size_t p = vp_len(0, n, "p"), q = vp_len(0, n, "q"); auto a = v.begin() + p, b = v.begin() + q; static_vector<int, CAP>::const_iterator ca = a;
  vp_check(a - b == (long)p - (long)q, "difference"); vp_check((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "ordering"); vp_check(ca == a && !(ca != a), "const conversion");
  auto c = a; if (q >= p) { c += q - p; vp_check(c == b, "+="); c -= q - p; vp_check(c == a, "-="); vp_check((a + (q - p)) == b && ((q - p) + a) == b && (b - (q - p)) == a, "+ and -"); }
  c = v.begin(); std::advance(c, q); vp_check(c == b, "advance");
  if (p < n) { vp_check(*a == m[p], "dereference"); vp_check(v.begin()[p] == m[p], "subscript"); auto d = a; vp_check(d++ == a && d - a == 1, "post-increment"); vp_check(d-- - a == 1 && d == a, "post-decrement"); vp_check(++d - a == 1 && --d == a, "pre"); *a = 7; m[p] = 7; eq(v, m, "write through iterator"); vp_cover("write"); }
  vp_cover("iter");
}
extern "C" void h_limit() {
  using SV = static_vector<int, CAP>; SV v; size_t n = vp_len(0, CAP, "n"); for (size_t i = 0; i < n; i++) v.push_back((int)i); size_t p = vp_len(0, n, "p"); int x = val<int>("x"); std::vector<int> s(CAP + 1, x);
  uint64_t k = vp_u64("count"); int op = (int)vp_choose(17, "op");
  switch (op) { case 0: case 1: case 2: case 3: vp_assume(n == CAP); break; case 4: vp_assume(k > CAP - n); break; case 6: vp_assume(n + 2 > CAP); break; case 7: vp_assume(n == 0); break; case 9: vp_assume(p > 0); break; case 10: case 11: case 12: case 15: vp_assume(k > CAP); break; default: break; }
  vp_cover("limit"); vp_expect_stop();
  switch (op) {
  case 0: v.push_back(x); break; case 1: v.push_back(std::move(x)); break; case 2: v.insert(v.cbegin() + p, x); break; case 3: v.insert(v.cbegin() + p, std::move(x)); break;
  case 4: v.insert(v.cbegin() + p, (size_t)k, x); break; case 5: v.insert(v.cbegin() + p, s.begin(), s.begin() + (CAP - n + 1)); break; case 6: v.insert(v.cbegin() + p, { x, x }); break;
  case 7: v.pop_back(); break; case 8: v.erase(v.cend()); break; case 9: v.erase(v.cbegin() + p, v.cbegin() + (p - 1)); break;
  case 10: v.resize((size_t)k); break; case 11: v.resize((size_t)k, x); break; case 12: v.assign((size_t)k, x); break; case 13: v.assign(s.begin(), s.end()); break; case 14: v = { x, x, x, x, x }; break;
  case 15: { SV w((size_t)k, x); break; } default: { SV w(s.begin(), s.end()); break; }
  }
  vp_fail("an operation beyond the limits of the vector went through");
}
