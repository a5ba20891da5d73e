// @libs lib/wwwc/css_syntax/token.cpp lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp
// @entry h_any : any string of 0..3 (thorough 4) ASCII characters: the same tokens as the reference tokenizer
// @entry h_scalar : any scalar value before, between and after other characters
// @entry h_punct : strings of 1..5 characters of + - . # @ digits, letters, e % and backslash
// @entry h_string : quoted strings with escapes, newlines and the other quote, up to 5 characters inside, closed or not
// @entry h_escape : escapes of zero to seven hexadecimal digits (quick: the first three symbolic), with and without white space after them, in identifiers, hashes, strings and URLs
// @entry h_url : url( in any letter case followed by up to 4 characters
// @entry h_comment : comments of up to 6 characters of / * and others, closed or not, before, between and after tokens
// @entry h_number : numbers with sign, integer part, fraction and exponent: the value they name, whatever the number of digits
// @entry h_filter : any 0..4 (thorough 5) code points preprocessed: newlines unified, null and surrogates replaced
// @entry h_charset : @charset rules: the fallback encoding of any label within the first 1024 bytes, UTF-16 read as UTF-8
#include "cssref.h"
#include <wordring/wwwc/css_syntax/input_stream.hpp>
using rc::S;
static S pick(S const& from, size_t n, char const* name) { S s; for (size_t i = 0; i < n; i++) s.push_back(from[vp_choose(from.size(), name)]); return s; }
extern "C" void h_any() { rc::both(vp_ascii<S>(vp_len(0, vp_thorough() ? 4 : 3, "n"), "c")); vp_cover("tokenized"); }
extern "C" void h_scalar() { static S const A[] = { U"", U"a", U"#", U"-", U"\\", U"1", U"'", U"url(", U"/*", U"@", U"--" }, B[] = { U"", U"a", U" ", U"'" }; S s = A[vp_choose(std::size(A), "before")]; s.push_back(vp_scalar("c")); s += B[vp_choose(std::size(B), "after")]; rc::both(s); vp_cover("tokenized"); }
extern "C" void h_punct() { rc::both(pick(U"+-.#@1eE%\\a", vp_len(1, vp_thorough() ? 6 : 5, "n"), "c")); vp_cover("tokenized"); }
extern "C" void h_string() { S s = pick(U"\"'", 1, "quote"); s += pick(U"\"'\\\na1 ", vp_len(0, vp_thorough() ? 6 : 5, "n"), "c"); rc::both(s); vp_cover("tokenized"); }
extern "C" void h_escape() {
  static S const A[] = { U"\\", U"a\\", U"#\\", U"'\\", U"url(\\", U"@\\", U"-\\", U"1\\", U"url('\\" }, B[] = { U"", U" ", U"\n", U"\t ", U"x", U")", U"'", U"\\" };
  S s = A[vp_choose(std::size(A), "before")]; size_t n = vp_len(0, 7, "digits"); for (size_t i = 0; i < n; i++) if (i < 3 || vp_thorough()) { char32_t c = (char32_t)vp_sym(7, "h"); vp_assume(rc::hex(c)); s.push_back(c); } else s.push_back(U"9aF0"[i & 3]); s += B[vp_choose(std::size(B), "after")]; rc::both(s); vp_cover("escape"); }
extern "C" void h_url() { static S const A[] = { U"url", U"URL", U"uRl", U"u\\72l", U"urlx", U"ur" }; S s = A[vp_choose(std::size(A), "name")] + (vp_choose(2, "paren") ? U"(" : U""); s += pick(U" )\"'(\\\na\x7F", vp_len(0, vp_thorough() ? 5 : 4, "n"), "c"); rc::both(s); vp_cover("tokenized"); }
extern "C" void h_comment() { static S const A[] = { U"", U"a", U" ", U"/*" }; S s = A[vp_choose(std::size(A), "before")] + pick(U"/*a ", vp_len(0, vp_thorough() ? 7 : 6, "n"), "c"); rc::both(s); vp_cover("tokenized"); }
extern "C" void h_number() {
  static S const SG[] = { U"", U"+", U"-" }, I[] = { U"", U"0", U"7", U"10", U"007", U"4294967295", U"4294967296", U"99999999999", U"12345678901234567890", U"184467440737095516160" }, F[] = { U"", U".0", U".5", U".25", U".000001", U".99999999999", U".12345678901234567890" }, X[] = { U"", U"e0", U"E2", U"e+3", U"e-3", U"E-10", U"e4294967296", U"e-4294967296" }, T[] = { U"", U"%", U"em", U" " };
  S i = I[vp_choose(std::size(I), "i")], f = F[vp_choose(std::size(F), "f")], x = X[vp_choose(std::size(X), "e")]; unsigned g = (unsigned)vp_choose(3, "sign"); vp_assume(!(i.empty() && f.empty())); S s = SG[g] + i + f + x + T[vp_choose(std::size(T), "tail")];
  rc::both(s); auto v = rc::run(s); vp_check(rc::numeric(v[0].type()), "a numeric token"); double got = rc::value(v[0]);
  double m = 0, q = 0; for (char32_t c : i) m = m * 10 + (double)(c - U'0'); for (size_t k = f.size(); k > 1; k--) q = (q + (double)(f[k - 1] - U'0')) / 10; m += q; int e = 0; bool big = false; for (char32_t c : x) if (rc::dig(c)) { e = e * 10 + (int)(c - U'0'); if (e > 1000) { big = true; break; } } bool en = x.size() > 1 && x[1] == U'-';
  if (m == 0) vp_check(got == 0, "zero"); else if (big && en) vp_check(got == 0, "too small"); else if (big) vp_check(g == 2 ? got < -1e300 : got > 1e300, "too large");
  else { for (int k = 0; k < e; k++) m = en ? m / 10 : m * 10; if (g == 2) m = -m; double d = got - m, tol = m < 0 ? -m * 1e-12 : m * 1e-12; vp_check(d <= tol && -d <= tol, "value of the number"); } vp_cover("number"); }
extern "C" void h_filter() {
  size_t n = vp_len(0, vp_thorough() ? 5 : 4, "n"); S s; for (size_t i = 0; i < n; i++) s.push_back((char32_t)vp_sym(21, "c")); S w; for (size_t i = 0; i < n; i++) { char32_t c = s[i]; if (c == 13) { w.push_back(10); if (i + 1 < n && s[i + 1] == 10) ++i; } else if (c == 12) w.push_back(10); else w.push_back((c == 0) | ((c >= 0xD800) & (c <= 0xDFFF)) ? 0xFFFD : c); }
  S g = s; g.erase(wordring::wwwc::filter_code_points(g.begin(), g.end()), g.end()); vp_check(ref::same(g, w), "preprocessed text"); vp_cover("filtered"); }
extern "C" void h_charset() {
  using wordring::encoding_name; using wordring::wwwc::determine_fallback_encoding; unsigned how = (unsigned)vp_choose(4, "how");
  if (how == 0) { static struct { char const* l; encoding_name e; } const L[] = { { "utf-8", encoding_name::UTF_8 }, { "Shift_JIS", encoding_name::Shift_JIS }, { " euc-jp ", encoding_name::EUC_JP }, { "utf-16", encoding_name::UTF_8 }, { "UTF-16BE", encoding_name::UTF_8 }, { "latin1", encoding_name::windows_1252 }, { "nothing", encoding_name::UTF_8 }, { "", encoding_name::UTF_8 } };
    auto& l = L[vp_choose(std::size(L), "label")]; static char const* const T[] = { "\";", "\";a{}", "\"", "\" ;", ";", "\"\";" }; unsigned t = (unsigned)vp_choose(std::size(T), "tail"); std::string in = std::string("@charset \"") + l.l + T[t]; encoding_name w = t < 2 ? l.e : encoding_name::UTF_8; vp_check(determine_fallback_encoding(in.begin(), in.end()) == w, "encoding of the rule");
    vp_check(determine_fallback_encoding(in.begin(), in.end(), encoding_name::ISO_2022_JP) == encoding_name::ISO_2022_JP, "a given fallback wins"); }
  else if (how == 1) { std::string in = "@charset \"koi8-r\";"; size_t p = (size_t)vp_choose(10, "at"); char c = (char)vp_u8("c"); bool same = c == in[p]; in[p] = c; vp_check(determine_fallback_encoding(in.begin(), in.end()) == (same ? encoding_name::KOI8_R : encoding_name::UTF_8), "only the exact rule counts"); }
  else if (how == 2) { std::string in = "@charset \"koi8-r\";"; size_t n = (size_t)vp_choose(in.size() + 1, "n"); in.resize(n); vp_check(determine_fallback_encoding(in.begin(), in.end()) == (n == 18 ? encoding_name::KOI8_R : encoding_name::UTF_8), "a cut rule does not count"); }
  else { size_t n = vp_len(1000, 1012, "spaces"); std::string in = "@charset \"" + std::string(n, ' ') + "koi8-r\";"; vp_check(determine_fallback_encoding(in.begin(), in.end()) == (in.size() <= 1024 ? encoding_name::KOI8_R : encoding_name::UTF_8), "only the first 1024 bytes count"); }
  vp_cover("fallback"); }
