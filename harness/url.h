// Shared by the URL harnesses: reference host parsing and writing, from the text of the URL standard (2020/21).
#pragma once
#include "enc.h"
#include <array>
#include <cmath>
#include <algorithm>
#include <optional>
#include <wordring/whatwg/url/api.hpp>
using namespace wordring::whatwg; using std::uint8_t; using std::uint16_t; using std::uint32_t; using std::uint64_t;
namespace ru {
inline int hexv(char32_t b) { return b >= '0' && b <= '9' ? (int)b - '0' : b >= 'a' && b <= 'f' ? (int)b - 'a' + 10 : b >= 'A' && b <= 'F' ? (int)b - 'A' + 10 : -1; }
inline std::vector<std::u32string> split(std::u32string const& s, char32_t d) { std::vector<std::u32string> v(1); for (char32_t c : s) if (c == d) v.emplace_back(); else v.back().push_back(c); return v; }
constexpr uint64_t BIG = 0x100000000ull; // any number above 2^32-1
// -1: not a number
inline bool number(std::u32string s, uint64_t& v) {
  uint32_t r = 10; if (s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s.erase(0, 2); r = 16; } else if (s.size() >= 2 && s[0] == '0') { s.erase(0, 1); r = 8; }
  v = 0; for (char32_t c : s) { int h = hexv(c); if (h < 0 || (uint32_t)h >= r) return false; }
  for (char32_t c : s) { v = v * r + (uint32_t)hexv(c); if (v >= BIG) v = BIG; }
  return true;
}
enum kind { fail, notip, ok };
inline kind ipv4(std::u32string const& in, uint32_t& a) {
  auto p = split(in, '.'); if (p.back().empty() && p.size() > 1) p.pop_back(); if (p.size() > 4) return notip;
  std::vector<uint64_t> n; for (auto& x : p) { uint64_t v; if (x.empty() || !number(x, v)) return notip; n.push_back(v); }
  uint64_t last = n.back(), lim = 1ull << (8 * (5 - n.size())); n.pop_back(); for (uint64_t v : n) if (v > 255) return fail; if (last >= lim) return fail;
  a = (uint32_t)last; unsigned sh = 24; for (uint64_t v : n) { a += (uint32_t)(v << sh); sh -= 8; } return ok;
}
inline std::u32string dec(uint32_t v) { std::u32string s; do s.insert(s.begin(), (char32_t)('0' + v % 10)); while (v /= 10); return s; }
inline std::u32string ipv4s(uint32_t a) { return dec(a >> 24) + U"." + dec((a >> 16) & 255) + U"." + dec((a >> 8) & 255) + U"." + dec(a & 255); }
// pieces of one side of "::"; v4: a dotted tail may end it
inline bool side(std::u32string const& s, bool v4, std::vector<uint16_t>& out) {
  if (s.empty()) return true;
  auto p = split(s, ':');
  for (size_t i = 0; i < p.size(); i++) {
    bool dot = false; for (char32_t c : p[i]) if (c == '.') { dot = true; break; }
    if (dot) { if (!v4 || i + 1 != p.size()) return false; auto q = split(p[i], '.'); if (q.size() != 4) return false; uint32_t a = 0;
      for (auto& x : q) { if (x.empty() || (x.size() > 1 && x[0] == '0') || x.size() > 3) return false; uint32_t v = 0; for (char32_t c : x) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); } if (v > 255) return false; a = a * 256 + v; }
      out.push_back((uint16_t)(a >> 16)); out.push_back((uint16_t)a); continue; }
    if (p[i].empty() || p[i].size() > 4) return false; uint32_t v = 0; for (char32_t c : p[i]) { int h = hexv(c); if (h < 0) return false; v = v * 16 + (uint32_t)h; } out.push_back((uint16_t)v);
  }
  return true;
}
inline bool ipv6(std::u32string const& s, std::array<uint16_t, 8>& a) {
  size_t k = std::u32string::npos; for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == ':' && s[i + 1] == ':') { k = i; break; }
  std::vector<uint16_t> l, r; a = {};
  if (k == std::u32string::npos) { if (s.empty() || !side(s, true, l) || l.size() != 8) return false; std::copy(l.begin(), l.end(), a.begin()); return true; }
  if (!side(s.substr(0, k), false, l) || !side(s.substr(k + 2), true, r) || l.size() + r.size() > 7) return false;
  std::copy(l.begin(), l.end(), a.begin()); std::copy(r.begin(), r.end(), a.end() - r.size()); return true;
}
inline std::u32string hex(uint32_t v) { std::u32string s; do { uint32_t d = v & 15; s.insert(s.begin(), (char32_t)(d < 10 ? '0' + d : 'a' + d - 10)); } while (v >>= 4); return s; }
inline std::u32string ipv6s(std::array<uint16_t, 8> const& a) {
  bool z[8]; for (int i = 0; i < 8; i++) z[i] = a[i] == 0 ? true : false;
  int best = -1, len = 1; for (int i = 0; i < 8; i++) { int n = 0; while (i + n < 8 && z[i + n]) n++; if (n > len) { best = i; len = n; } }
  std::u32string o; for (int i = 0; i < 8;) { if (i == best) { o += U"::"; i += len; continue; } if (!o.empty() && o.back() != ':') o += U":"; o += hex(a[i]); i++; } return o;
}
}
inline bool failedHost(host_base const& h) { return h.type() == static_cast<host_type_name>(0); }
