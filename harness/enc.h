// Shared by the encoding harnesses.
#pragma once
#include <cassert>
#include <cstdint>
#include <limits>
#include <map>
#include <stdexcept>
#include "util.h"
#include <wordring/whatwg/encoding/api.hpp>
namespace we = wordring::whatwg::encoding;
using we::encoding_name;
// UTF-8 decoding written from Unicode table 3-7: one U+FFFD per maximal subpart of an ill-formed sequence
inline std::u32string utf8_oracle(std::string const& in, bool* bad = nullptr) {
  std::u32string out; size_t n = in.size(), i = 0; if (bad) *bad = false;
  auto at = [&](size_t k) { return (std::uint32_t)(std::uint8_t)in[k]; };
  while (i < n) {
    std::uint32_t b = at(i); size_t len = 0; std::uint32_t lo = 0x80, hi = 0xBF;
    if (b < 0x80) { out.push_back(b); i++; continue; }
    if (b >= 0xC2 && b <= 0xDF) len = 2;
    else if (b == 0xE0) { len = 3; lo = 0xA0; } else if (b == 0xED) { len = 3; hi = 0x9F; } else if (b >= 0xE1 && b <= 0xEF) len = 3;
    else if (b == 0xF0) { len = 4; lo = 0x90; } else if (b == 0xF4) { len = 4; hi = 0x8F; } else if (b >= 0xF1 && b <= 0xF3) len = 4;
    size_t k = 1; std::uint32_t cp = len == 2 ? b & 31 : len == 3 ? b & 15 : b & 7;
    for (; k < len && i + k < n; k++) { std::uint32_t x = at(i + k); if (x < lo || x > hi) break; cp = cp * 64 + (x & 63); lo = 0x80; hi = 0xBF; }
    if (len && k == len) out.push_back((char32_t)cp); else { out.push_back(0xFFFD); if (bad) *bad = true; }
    i += len ? k : 1;
  }
  return out;
}
inline we::io_queue<char> bytes_queue(std::string const& s) { return we::to_io_queue_convert(s.begin(), s.end()); }
inline we::io_queue<char32_t> text_queue(std::u32string const& s) { return we::to_io_queue_convert(s.begin(), s.end()); }
inline std::u32string text_of(we::io_queue<char32_t> q) { std::u32string s; we::from_io_queue_convert(q, std::back_inserter(s)); return s; }
inline std::string bytes_of(we::io_queue<char> q) { std::string s; we::from_io_queue_convert(q, std::back_inserter(s)); return s; }
template <class R> inline bool finished(R const& r) { return std::holds_alternative<we::result_finished>(r); }
template <class R> inline bool waiting(R const& r) { return std::holds_alternative<we::result_continue>(r); }
template <class R> inline bool failed(R const& r) { return std::holds_alternative<we::result_error>(r); }
