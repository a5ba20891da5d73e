// Shared by the harnesses: reference UTF codecs (written from RFC 3629 / RFC 2781, independently of the library) and input generators.
#pragma once
#include "vp.h"
#include <string>
#include <string_view>
#include <vector>
namespace ref {
using std::size_t;
template <class S> inline void put(S& s, char32_t c) {
  using T = typename S::value_type;
  if constexpr (sizeof(T) == 1) {
    if (c < 0x80) s.push_back((T)c);
    else if (c < 0x800) { s.push_back((T)(0xC0 | (c >> 6))); s.push_back((T)(0x80 | (c & 63))); }
    else if (c < 0x10000) { s.push_back((T)(0xE0 | (c >> 12))); s.push_back((T)(0x80 | ((c >> 6) & 63))); s.push_back((T)(0x80 | (c & 63))); }
    else { s.push_back((T)(0xF0 | (c >> 18))); s.push_back((T)(0x80 | ((c >> 12) & 63))); s.push_back((T)(0x80 | ((c >> 6) & 63))); s.push_back((T)(0x80 | (c & 63))); }
  } else if constexpr (sizeof(T) == 2) {
    if (c < 0x10000) s.push_back((T)c);
    else { char32_t d = c - 0x10000; s.push_back((T)(0xD800 | (d >> 10))); s.push_back((T)(0xDC00 | (d & 0x3FF))); }
  } else s.push_back((T)c);
}
template <class S> inline S enc(std::u32string_view u) { S s; for (char32_t c : u) put(s, c); return s; }
// element-wise comparison with a single disjunction-free result (no early exit, so no path split per element)
template <class A, class B> inline bool same(A const& a, B const& b) {
  if (a.size() != b.size()) return false;
  bool r = true; auto i = a.begin(); auto j = b.begin();
  for (; i != a.end(); ++i, ++j) r &= (*i == *j);
  return r;
}
inline bool ws(char32_t c) { return (c == 9) | (c == 10) | (c == 12) | (c == 13) | (c == 32); }
}
inline std::u32string vp_scalars(size_t n, const char* name) { std::u32string s; for (size_t i = 0; i < n; i++) s.push_back(vp_scalar(name)); return s; }
inline size_t vp_len(size_t lo, size_t hi, const char* name) { return lo + (size_t)vp_choose(hi - lo + 1, name); }
