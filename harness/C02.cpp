// @entry h_classes : every code point 0..0x10FFFF: all character classes; every byte for the byte class
// @entry h_bytecase : byte strings of 0..4 arbitrary bytes: lower/upper-casing, case-insensitive comparison, isomorphic decode/encode
// @entry h_asciicase : strings of 0..2 (thorough 0..3) scalar values in UTF-8, UTF-16 or UTF-32
// @entry h_newlines : strings of 0..4 scalar values: newline stripping and normalisation in UTF-8, UTF-16, UTF-32
// @entry h_strip : strings of 0..4 scalar values: whitespace stripping and collapsing in UTF-8, UTF-16, UTF-32
// @entry h_split : strings of 0..4 scalar values: strict split on an arbitrary delimiter, split on whitespace, split on commas
// @entry h_collect : strings of 0..3 scalar values: collecting / skipping runs of code points
#include "util.h"
#include <wordring/whatwg/infra/infra.hpp>
using namespace wordring::whatwg;
static size_t N(size_t q, size_t t) { return vp_len(0, vp_thorough() ? t : q, "len"); }
extern "C" void h_classes() {
  char32_t c = (char32_t)vp_sym(21, "c"); vp_assume(c <= 0x10FFFF);
  auto in = [&](char32_t a, char32_t b) { return (c >= a) & (c <= b); };
  bool up = in('A', 'Z'), lo = in('a', 'z'), dg = in('0', '9'), uh = dg | in('A', 'F'), lh = dg | in('a', 'f');
  bool c0 = c <= 0x1F;
  vp_check(is_surrogate(c) == in(0xD800, 0xDFFF), "surrogate");
  vp_check(is_scalar_value(c) == !in(0xD800, 0xDFFF), "scalar value");
  vp_check(is_noncharacter(c) == (in(0xFDD0, 0xFDEF) | ((c & 0xFFFE) == 0xFFFE)), "noncharacter");
  vp_check(is_ascii_code_point(c) == (c <= 0x7F), "ASCII code point");
  vp_check(is_ascii_tab_or_newline(c) == ((c == 9) | (c == 10) | (c == 13)), "ASCII tab or newline");
  vp_check(is_ascii_white_space(c) == ref::ws(c), "ASCII whitespace");
  vp_check(is_c0_control(c) == c0, "C0 control");
  vp_check(is_c0_control_or_space(c) == (c0 | (c == 0x20)), "C0 control or space");
  vp_check(is_control(c) == (c0 | in(0x7F, 0x9F)), "control");
  vp_check(is_ascii_digit(c) == dg, "digit");
  vp_check(is_ascii_upper_hex_digit(c) == uh, "upper hex digit");
  vp_check(is_ascii_lower_hex_digit(c) == lh, "lower hex digit");
  vp_check(is_ascii_hex_digit(c) == (uh | lh), "hex digit");
  vp_check(is_ascii_upper_alpha(c) == up, "upper alpha");
  vp_check(is_ascii_lower_alpha(c) == lo, "lower alpha");
  vp_check(is_ascii_alpha(c) == (up | lo), "alpha");
  vp_check(is_ascii_alphanumeric(c) == (up | lo | dg), "alphanumeric");
  unsigned char b = vp_u8("b"); vp_check(is_ascii_byte((char)b) == (b <= 0x7F), "ASCII byte");
  vp_cover("classes");
}
static char32_t low(char32_t c) { return c + (((c >= 'A') & (c <= 'Z')) ? 32u : 0u); }
static char32_t upp(char32_t c) { return c - (((c >= 'a') & (c <= 'z')) ? 32u : 0u); }
extern "C" void h_bytecase() {
  size_t n = N(4, 6), m = vp_len(n ? n - 1 : 0, n + 1, "len2"); if (!vp_thorough()) vp_assume(m <= 4);
  std::string a = vp_bytes(n, "a"), b = vp_bytes(m, "b"), l, u; std::u32string d;
  to_byte_lowercase(a.begin(), a.end(), std::back_inserter(l)); to_byte_uppercase(a.begin(), a.end(), std::back_inserter(u));
  std::string wl = a, wu = a; bool eq = n == m;
  for (size_t i = 0; i < n; i++) { wl[i] = (char)low((unsigned char)a[i]); wu[i] = (char)upp((unsigned char)a[i]); }
  for (size_t i = 0; i < n && i < m; i++) eq &= low((unsigned char)a[i]) == low((unsigned char)b[i]);
  vp_check(ref::same(l, wl), "byte-lowercase"); vp_check(ref::same(u, wu), "byte-uppercase");
  vp_check(is_byte_case_insensitive_match(a.begin(), a.end(), b.begin(), b.end()) == eq, "byte-case-insensitive match");
  isomorphic_decode(a.begin(), a.end(), std::back_inserter(d));
  bool ok = d.size() == n; for (size_t i = 0; ok && i < n; i++) ok = ok & (d[i] == (unsigned char)a[i]);
  vp_check(ok, "isomorphic decode"); std::string back; isomorphic_encode(d.begin(), d.end(), std::back_inserter(back));
  vp_check(ref::same(back, a), "isomorphic encode inverts decode");
  vp_cover("bytes");
}
template <class S> static void asciicase() {
  size_t n = N(2, 3), m = vp_len(n ? n - 1 : 0, n, "len2"); std::u32string u = vp_scalars(n, "a"), v;
  for (size_t i = 0; i < m; i++) { char32_t c = vp_scalar("b"); v.push_back(c); }
  S s = ref::enc<S>(u), t = ref::enc<S>(v), l, up; std::u32string wl, wu; bool eq = n == m, asc = true;
  for (char32_t c : u) { wl.push_back(low(c)); wu.push_back(upp(c)); asc &= c < 0x80; }
  for (size_t i = 0; i < m; i++) eq &= low(u[i]) == low(v[i]);
  to_ascii_lowercase(s.begin(), s.end(), std::back_inserter(l)); vp_check(ref::same(l, ref::enc<S>(wl)), "ASCII lowercase");
  to_ascii_uppercase(s.begin(), s.end(), std::back_inserter(up)); vp_check(ref::same(up, ref::enc<S>(wu)), "ASCII uppercase");
  vp_check(is_ascii_string(s.begin(), s.end()) == asc, "ASCII string");
  vp_check(is_ascii_case_insensitive_match(s.begin(), s.end(), t.begin(), t.end()) == eq, "ASCII case-insensitive match");
  vp_check(is_ascii_case_insensitive_match(t.begin(), t.end(), s.begin(), s.end()) == eq, "ASCII case-insensitive match, operands exchanged");
  vp_check(is_ascii_case_insensitive_match(s.begin(), s.end(), v.begin(), v.end()) == eq, "ASCII case-insensitive match, different encodings");
  if (asc) { std::string e; ascii_encode(s.begin(), s.end(), std::back_inserter(e)); vp_check(ref::same(e, ref::enc<std::string>(u)), "ASCII encode");
    std::u32string d; ascii_decode(e.begin(), e.end(), std::back_inserter(d)); vp_check(ref::same(d, u), "ASCII decode"); vp_cover("ascii"); }
  vp_cover("asciicase");
}
extern "C" void h_asciicase() { switch (vp_choose(3, "form")) { case 0: asciicase<std::string>(); break; case 1: asciicase<std::u16string>(); break; default: asciicase<std::u32string>(); } }
template <class S> static void newlines() {
  std::u32string u = vp_scalars(N(4, 5), "c"), st, nm; S s = ref::enc<S>(u), a, b;
  for (size_t i = 0; i < u.size(); i++) { char32_t c = u[i]; if (c != 10 && c != 13) { st.push_back(c); nm.push_back(c); } else if (c == 13) nm.push_back(10); else if (!(i && u[i - 1] == 13)) nm.push_back(10); }
  strip_newlines(s.begin(), s.end(), std::back_inserter(a)); vp_check(ref::same(a, ref::enc<S>(st)), "strip newlines");
  normalize_newlines(s.begin(), s.end(), std::back_inserter(b)); vp_check(ref::same(b, ref::enc<S>(nm)), "normalize newlines");
  vp_cover("newlines");
}
extern "C" void h_newlines() { switch (vp_choose(3, "form")) { case 0: newlines<std::string>(); break; case 1: newlines<std::u16string>(); break; default: newlines<std::u32string>(); } }
static std::u32string stripped(std::u32string_view u) { size_t i = 0, j = u.size(); while (i < j && ref::ws(u[i])) i++; while (j > i && ref::ws(u[j - 1])) j--; return std::u32string(u.substr(i, j - i)); }
template <class S> static void strip() {
  std::u32string u = vp_scalars(N(4, 5), "c"), co, x = stripped(u); S s = ref::enc<S>(u), a, b;
  for (size_t i = 0; i < x.size(); i++) { if (!ref::ws(x[i])) co.push_back(x[i]); else if (!ref::ws(x[i - 1])) co.push_back(32); }
  strip_leading_and_trailing_ascii_whitespace(s.begin(), s.end(), std::back_inserter(a)); vp_check(ref::same(a, ref::enc<S>(x)), "strip leading and trailing whitespace");
  strip_and_collapse_ascii_whitespace(s.begin(), s.end(), std::back_inserter(b)); vp_check(ref::same(b, ref::enc<S>(co)), "strip and collapse whitespace");
  vp_cover("strip");
}
extern "C" void h_strip() { switch (vp_choose(3, "form")) { case 0: strip<std::string>(); break; case 1: strip<std::u16string>(); break; default: strip<std::u32string>(); } }
template <class S> static void lists(std::vector<S> const& g, std::vector<std::u32string> const& w, char const* m) {
  vp_check(g.size() == w.size(), m); bool ok = true; for (size_t i = 0; i < w.size(); i++) ok &= ref::same(g[i], ref::enc<S>(w[i])); vp_check(ok, m);
}
template <class S> static void split() {
  unsigned k = vp_choose(3, "op"); std::u32string u = vp_scalars(N(k == 0 ? 3 : 4, 5), "c"); S s = ref::enc<S>(u); std::vector<S> g; std::vector<std::u32string> w;
  if (k == 0) { char32_t d = vp_scalar("delim"); w.emplace_back(); for (char32_t c : u) if (c == d) w.emplace_back(); else w.back().push_back(c);
    strictly_split_on_particular_delimiter(s.begin(), s.end(), std::back_inserter(g), d); lists(g, w, "strict split"); }
  else if (k == 1) { bool open = false; for (char32_t c : u) if (ref::ws(c)) open = false; else { if (!open) w.emplace_back(); open = true; w.back().push_back(c); }
    split_on_ascii_whitespace(s.begin(), s.end(), std::back_inserter(g)); lists(g, w, "split on whitespace"); }
  else { size_t i = 0; while (i < u.size()) { std::u32string t; while (i < u.size() && u[i] != ',') t.push_back(u[i++]); w.push_back(stripped(t)); i++; }
    split_on_commas(s.begin(), s.end(), std::back_inserter(g)); lists(g, w, "split on commas"); }
  vp_cover("split");
}
extern "C" void h_split() { switch (vp_choose(3, "form")) { case 0: split<std::string>(); break; case 1: split<std::u16string>(); break; default: split<std::u32string>(); } }
template <class S> static void collect() {
  std::u32string u = vp_scalars(N(3, 4), "c"); S s = ref::enc<S>(u), got; char32_t lim = vp_scalar("limit");
  size_t n = 0; std::u32string pre, wsp; for (char32_t c : u) { if (!(c < lim)) break; pre.push_back(c); } for (char32_t c : u) { if (!ref::ws(c)) break; wsp.push_back(c); }
  auto it = collect_sequence_of_code_points(s.begin(), s.end(), std::back_inserter(got), [lim](char32_t c) { return c < lim; });
  S w = ref::enc<S>(pre); vp_check(ref::same(got, w), "collected run"); vp_check((size_t)(it - s.begin()) == w.size(), "position after the run");
  vp_check((size_t)(skip_ascii_whitespace(s.begin(), s.end()) - s.begin()) == wsp.size(), "whitespace skipped");
  vp_cover("collect");
}
extern "C" void h_collect() { switch (vp_choose(3, "form")) { case 0: collect<std::string>(); break; case 1: collect<std::u16string>(); break; default: collect<std::u32string>(); } }
