// Reference CSS tokenizer, written from CSS Syntax Level 3 section 4 (index based, independently of the library).
#pragma once
#include "util.h"
#include <cassert>
#include <limits>
#include <algorithm>
#include <iterator>
#include <stdexcept>
#include <cmath>
#include <wordring/wwwc/css_syntax/tokenization.hpp>
namespace rc {
namespace css = wordring::wwwc::css; using N = css::syntax_primitive_name; using S = std::u32string; using std::size_t;
struct tk { N t; S v; char32_t d = 0; bool id = false, integer = true; int sign = 1; S ip, fp; int esign = 1; S ep; tk(N n = (N)0) : t(n) {} tk(N n, S s) : t(n), v(std::move(s)) {} };
inline bool dig(char32_t c) { return c - U'0' <= 9u; }
inline bool hex(char32_t c) { return (c - U'0' <= 9u) | ((c | 32) - U'a' <= 5u); }
inline bool wsp(char32_t c) { return (c == 10) | (c == 9) | (c == 32); }
inline bool start(char32_t c) { return ((c | 32) - U'a' <= 25u && c < 128) | (c >= 128) | (c == U'_'); }
inline bool name(char32_t c) { return start(c) | dig(c) | (c == U'-'); }
struct lex {
  S const& s; size_t p = 0; explicit lex(S const& x) : s(x) {}
  static constexpr char32_t END = 0xFFFFFFFF;
  char32_t at(size_t i) const { return i < s.size() ? s[i] : END; }
  bool nameAt(size_t i) const { return i < s.size() && name(s[i]); } bool startAt(size_t i) const { return i < s.size() && start(s[i]); } bool digAt(size_t i) const { return i < s.size() && dig(s[i]); }
  bool wsAt(size_t i) const { return i < s.size() && wsp(s[i]); }
  bool esc(size_t i) const { return at(i) == U'\\' && at(i + 1) != 10; }
  bool identAt(size_t i) const { if (at(i) == U'-') return startAt(i + 1) || at(i + 1) == U'-' || esc(i + 1); if (startAt(i)) return true; return esc(i); }
  bool numAt(size_t i) const { if (at(i) == U'+' || at(i) == U'-') return digAt(i + 1) || (at(i + 1) == U'.' && digAt(i + 2)); if (at(i) == U'.') return digAt(i + 1); return digAt(i); }
  char32_t escaped() { // p after the backslash
    if (p == s.size()) return 0xFFFD; char32_t c = s[p++]; if (!hex(c)) return c;
    char32_t v = 0; size_t k = 0; --p; while (k < 6 && p < s.size() && hex(s[p])) { char32_t h = s[p]; v = v * 16 + (h <= U'9' ? h - U'0' : (h | 32) - U'a' + 10); ++p; ++k; }
    if (wsAt(p)) ++p; if ((v == 0) | ((v >= 0xD800) & (v <= 0xDFFF)) | (v > 0x10FFFF)) return 0xFFFD; return v; }
  S ident() { S r; for (;;) { if (nameAt(p)) r.push_back(s[p++]); else if (esc(p)) { ++p; r.push_back(escaped()); } else return r; } }
  void number(tk& t) {
    if (at(p) == U'+' || at(p) == U'-') t.sign = s[p++] == U'-' ? -1 : 1;
    while (digAt(p)) t.ip.push_back(s[p++]);
    if (at(p) == U'.' && digAt(p + 1)) { ++p; t.integer = false; while (digAt(p)) t.fp.push_back(s[p++]); }
    if (at(p) == U'e' || at(p) == U'E') { size_t q = p + 1; if (at(q) == U'+' || at(q) == U'-') ++q; if (digAt(q)) { if (s[p + 1] == U'-') t.esign = -1; p = q; t.integer = false; while (digAt(p)) t.ep.push_back(s[p++]); } } }
  tk numeric() { tk t(N::NumberToken); number(t); if (identAt(p)) { t.t = N::DimensionToken; t.v = ident(); } else if (at(p) == U'%') { ++p; t.t = N::PercentageToken; } return t; }
  void remnants() { while (p < s.size()) { if (s[p] == U')') { ++p; return; } if (esc(p)) { ++p; escaped(); } else ++p; } }
  tk identlike() {
    S n = ident(); bool u = n.size() == 3 && (n[0] == U'u' || n[0] == U'U') && (n[1] == U'r' || n[1] == U'R') && (n[2] == U'l' || n[2] == U'L');
    if (at(p) != U'(') return tk(N::IdentToken, n); ++p; if (!u) return tk(N::FunctionToken, n);
    size_t q = p; while (wsAt(q)) ++q; if (at(q) == U'"' || at(q) == U'\'') { p = q > p ? q - 1 : p; return tk(N::FunctionToken, n); }
    p = q; S r;
    for (;;) {
      if (p == s.size()) return tk(N::UrlToken, r); char32_t c = s[p];
      if (c == U')') { ++p; return tk(N::UrlToken, r); }
      if (wsp(c)) { while (wsAt(p)) ++p; if (p == s.size()) return tk(N::UrlToken, r); if (s[p] == U')') { ++p; return tk(N::UrlToken, r); } remnants(); return tk(N::BadUrlToken); }
      if (c == U'"' || c == U'\'' || c == U'(' || c <= 8 || c == 11 || (c >= 14 && c <= 31) || c == 127) { ++p; remnants(); return tk(N::BadUrlToken); }
      if (c == U'\\') { if (!esc(p)) { ++p; remnants(); return tk(N::BadUrlToken); } ++p; r.push_back(escaped()); }
      else { r.push_back(c); ++p; } } }
  tk str(char32_t q) { S r; for (;;) { if (p == s.size()) return tk(N::StringToken, r); char32_t c = s[p++]; if (c == q) return tk(N::StringToken, r); if (c == 10) { --p; return tk(N::BadStringToken); }
    if (c != U'\\') r.push_back(c); else if (p < s.size()) { if (s[p] == 10) ++p; else r.push_back(escaped()); } } }
  tk next() {
    while (at(p) == U'/' && at(p + 1) == U'*') { p += 2; while (p < s.size() && !(at(p) == U'*' && at(p + 1) == U'/')) ++p; p = p < s.size() ? p + 2 : p; }
    if (p == s.size()) return tk(N::EofToken); char32_t c = s[p];
    if (wsp(c)) { while (wsAt(p)) ++p; return tk(N::WhitespaceToken); }
    auto one = [&](N n) { ++p; return tk(n); };
    switch (c) {
    case U'"': case U'\'': ++p; return str(c);
    case U'#': if (nameAt(p + 1) || esc(p + 1)) { tk t(N::HashToken); t.id = identAt(p + 1); ++p; t.v = ident(); return t; } break;
    case U'(': return one(N::OpenParenToken); case U')': return one(N::CloseParenToken); case U',': return one(N::CommaToken); case U':': return one(N::ColonToken); case U';': return one(N::SemicolonToken);
    case U'[': return one(N::OpenSquareToken); case U']': return one(N::CloseSquareToken); case U'{': return one(N::OpenCurlyToken); case U'}': return one(N::CloseCurlyToken);
    case U'+': case U'.': if (numAt(p)) return numeric(); break;
    case U'-': if (numAt(p)) return numeric(); if (at(p + 1) == U'-' && at(p + 2) == U'>') { p += 3; return tk(N::CdcToken); } if (identAt(p)) return identlike(); break;
    case U'<': if (at(p + 1) == U'!' && at(p + 2) == U'-' && at(p + 3) == U'-') { p += 4; return tk(N::CdoToken); } break;
    case U'@': if (identAt(p + 1)) { ++p; return tk(N::AtKeywordToken, ident()); } break;
    case U'\\': if (esc(p)) return identlike(); break;
    default: break; }
    if (dig(c)) return numeric(); if (start(c)) return identlike();
    ++p; tk t(N::DelimToken); t.d = c; return t; }
};
inline std::vector<tk> tokens(S const& s) { std::vector<tk> r; lex l(s); for (;;) { tk t = l.next(); if (t.t == N::EofToken) return r; r.push_back(t); } }
// kind, text and flags of one token; numeric values are compared by the caller
inline bool numeric(N n) { return n == N::NumberToken || n == N::PercentageToken || n == N::DimensionToken; }
inline double value(css::syntax_primitive const& a) { return a.type() == N::NumberToken ? a.get<css::number_token>().m_value : a.type() == N::PercentageToken ? a.get<css::percentage_token>().m_value : a.get<css::dimension_token>().m_value; }
inline void check(css::syntax_primitive const& a, tk const& b) {
  vp_check(a.type() == b.t, "kind of token"); bool r = true;
  switch (b.t) {
  case N::IdentToken: r = ref::same(a.get<css::ident_token>().m_value, b.v); break; case N::FunctionToken: r = ref::same(a.get<css::function_token>().m_value, b.v); break; case N::AtKeywordToken: r = ref::same(a.get<css::at_keyword_token>().m_value, b.v); break;
  case N::HashToken: r = ref::same(a.get<css::hash_token>().m_value, b.v); vp_check((a.get<css::hash_token>().m_type_flag == css::hash_token::type_flag_name::id) == b.id, "id flag of a hash token"); break;
  case N::StringToken: r = ref::same(a.get<css::string_token>().m_value, b.v); break; case N::UrlToken: r = ref::same(a.get<css::url_token>().m_value, b.v); break; case N::DelimToken: r = a.get<css::delim_token>().m_value == b.d; break;
  case N::NumberToken: vp_check((a.get<css::number_token>().m_type_flag == css::number_type_flag_name::integer) == b.integer, "integer flag of a number"); break;
  case N::DimensionToken: vp_check((a.get<css::dimension_token>().m_type_flag == css::number_type_flag_name::integer) == b.integer, "integer flag of a dimension"); r = ref::same(a.get<css::dimension_token>().m_unit, b.v); break;
  default: break; }
  vp_check(r, "text of the token"); }
inline std::vector<css::syntax_primitive> run(S const& s) { std::vector<css::syntax_primitive> v; css::tokenize(s.begin(), s.end(), std::back_inserter(v), nullptr); return v; }
inline void both(S const& s) { std::vector<tk> w = tokens(s); auto v = run(s); vp_check(v.size() == w.size(), "number of tokens"); for (size_t i = 0; i < v.size(); i++) check(v[i], w[i]); }
}
