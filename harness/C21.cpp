// @libs lib/wwwc/css_syntax/token.cpp lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp
// @entry h_values : lists of component values of up to 4 (thorough 5) tokens of brackets, functions and others: nesting, mismatched and missing closing brackets
// @entry h_comma : comma-separated lists of up to 4 (thorough 5) tokens
// @entry h_value : one component value between white space, or a failure
// @entry h_stylesheet : style sheets of up to 4 (thorough 5) tokens after each of several beginnings
// @entry h_rules : lists of rules, in which <!-- and --> are not ignored
// @entry h_rule : one rule between white space, or a failure
// @entry h_declaration : one declaration of up to 4 (thorough 5) tokens after "a:" or not; !important in any letter case
// @entry h_declarations : lists of declarations and at-rules of up to 4 (thorough 5) tokens after each of several beginnings
// @entry h_copy : copies and assignments of parsed rules are equal to the original
// @entry h_again : a list of component values (up to 3, thorough 4, tokens after each of several beginnings) or of tokens parsed as each of the grammar's productions gives what its text gives
// @entry h_kinds : every kind of token, with its value, at the top level, in blocks, functions, preludes and declarations; copied, assigned over every other kind and parsed again
// @entry h_bytes : style sheets given as bytes, with and without @charset and byte order mark
#include "cssref.h"
#include <wordring/wwwc/css_syntax/parsing.hpp>
using rc::S; using rc::N; using rc::tk; namespace css = wordring::wwwc::css;
// canonical text of a parse result; the reference writes the same text
static void q(S& o, S const& s) { o.push_back(U'<'); o += s; o.push_back(U'>'); }
static void kind(S& o, N n) { o.push_back(0xE000 + (char32_t)n); }
static void dump(S& o, css::component_value const& c);
static void dump(S& o, std::vector<css::component_value> const& v) { for (auto& c : v) dump(o, c); }
static void dump(S& o, css::simple_block const& b) { o.push_back(b.m_associated_token); dump(o, b.m_value); o.push_back(0xF000); }
static void dump(S& o, css::function const& f) { kind(o, N::Function); q(o, f.m_name); dump(o, f.m_value); o.push_back(0xF000); }
template <class T> static void leaf(S& o, T const& c) {
  kind(o, c.type());
  switch (c.type()) { case N::IdentToken: q(o, c.template get<css::ident_token>().m_value); break; case N::AtKeywordToken: q(o, c.template get<css::at_keyword_token>().m_value); break; case N::HashToken: q(o, c.template get<css::hash_token>().m_value); break; case N::StringToken: q(o, c.template get<css::string_token>().m_value); break; case N::UrlToken: q(o, c.template get<css::url_token>().m_value); break; case N::DelimToken: o.push_back(c.template get<css::delim_token>().m_value); break; case N::DimensionToken: q(o, c.template get<css::dimension_token>().m_unit); break; default: break; } }
static void dump(S& o, css::component_value const& c) { if (c.type() == N::Function) dump(o, c.get<css::function>()); else if (c.type() == N::SimpleBlock) dump(o, c.get<css::simple_block>()); else leaf(o, c); }
static void dump(S& o, css::at_rule const& r) { kind(o, N::AtRule); q(o, r.m_name); dump(o, r.m_prelude); o.push_back(0xF001); if (r.m_block) dump(o, *r.m_block); }
static void dump(S& o, css::qualified_rule const& r) { kind(o, N::QualifiedRule); dump(o, r.m_prelude); o.push_back(0xF001); dump(o, r.m_block); }
static void dump(S& o, css::declaration const& d) { kind(o, N::Declaration); q(o, d.m_name); dump(o, d.m_value); o.push_back(0xF001); if (d.m_important_flag) o.push_back(U'!'); }
static void dump(S& o, css::syntax_primitive const& p) { switch (p.type()) { case N::Function: dump(o, p.get<css::function>()); break; case N::SimpleBlock: dump(o, p.get<css::simple_block>()); break; case N::AtRule: dump(o, p.get<css::at_rule>()); break; case N::QualifiedRule: dump(o, p.get<css::qualified_rule>()); break; case N::Declaration: dump(o, p.get<css::declaration>()); break; default: leaf(o, p); } }
static S dump(std::vector<css::syntax_primitive> const& v) { S o; for (auto& p : v) dump(o, p); return o; }
template <class T> static S dump(std::optional<T> const& v) { S o; if (!v) return U"failure"; dump(o, *v); return o; }
// the reference parser (CSS Syntax Level 3 section 5), over the reference tokens
struct P {
  std::vector<tk> t; size_t i = 0; explicit P(S const& s) : t(rc::tokens(s)) {} explicit P(std::vector<tk> v) : t(std::move(v)) {}
  N at() const { return i < t.size() ? t[i].t : N::EofToken; } void ws() { while (at() == N::WhitespaceToken) ++i; }
  void block(S& o) { N open = t[i++].t; o.push_back(open == N::OpenCurlyToken ? U'{' : open == N::OpenSquareToken ? U'[' : U'('); N close = open == N::OpenCurlyToken ? N::CloseCurlyToken : open == N::OpenSquareToken ? N::CloseSquareToken : N::CloseParenToken; while (at() != N::EofToken && at() != close) value(o); if (at() == close) ++i; o.push_back(0xF000); }
  void value(S& o) {
    N n = at(); if (n == N::OpenCurlyToken || n == N::OpenSquareToken || n == N::OpenParenToken) return block(o);
    tk const& k = t[i++]; if (n == N::FunctionToken) { kind(o, N::Function); q(o, k.v); while (at() != N::EofToken && at() != N::CloseParenToken) value(o); if (at() == N::CloseParenToken) ++i; o.push_back(0xF000); return; }
    kind(o, n); switch (n) { case N::IdentToken: case N::AtKeywordToken: case N::HashToken: case N::StringToken: case N::UrlToken: case N::DimensionToken: q(o, k.v); break; case N::DelimToken: o.push_back(k.d); break; default: break; } }
  void atrule(S& o) { kind(o, N::AtRule); q(o, t[i++].v); for (;;) { if (at() == N::SemicolonToken) { ++i; o.push_back(0xF001); return; } if (at() == N::EofToken) { o.push_back(0xF001); return; } if (at() == N::OpenCurlyToken) { o.push_back(0xF001); return block(o); } value(o); } }
  bool qualified(S& o) { S p; kind(p, N::QualifiedRule); for (;;) { if (at() == N::EofToken) return false; if (at() == N::OpenCurlyToken) { p.push_back(0xF001); block(p); o += p; return true; } value(p); } }
  S rules(bool top) { S o; for (;;) { switch (at()) { case N::WhitespaceToken: ++i; continue; case N::EofToken: return o; case N::CdoToken: case N::CdcToken: if (top) { ++i; continue; } qualified(o); continue; case N::AtKeywordToken: atrule(o); continue; default: qualified(o); } } }
  S rule() { ws(); if (at() == N::EofToken) return U"failure"; S o; if (at() == N::AtKeywordToken) atrule(o); else if (!qualified(o)) return U"failure"; ws(); return at() == N::EofToken ? o : S(U"failure"); }
  static bool important(S const& s) { S w = U"important"; if (s.size() != w.size()) return false; bool r = true; for (size_t k = 0; k < s.size(); k++) r &= (s[k] | 32) == w[k] && s[k] < 128; return r; }
  bool decl(S& o) { // one declaration up to the end of the tokens
    S d; kind(d, N::Declaration); q(d, t[i++].v); ws(); if (at() != N::ColonToken) return false; ++i; ws(); std::vector<S> vs; std::vector<tk> first; while (at() != N::EofToken) { size_t b = i; S v; value(v); vs.push_back(v); first.push_back(i == b + 1 ? t[b] : tk(N::SimpleBlock)); }
    size_t n = vs.size(); auto back = [&](size_t e) { while (e && first[e - 1].t == N::WhitespaceToken) --e; return e; }; bool imp = false;
    size_t e = back(n); if (e && first[e - 1].t == N::IdentToken && important(first[e - 1].v)) { size_t f = back(e - 1); if (f && first[f - 1].t == N::DelimToken && first[f - 1].d == U'!') { imp = true; n = f - 1; } }
    n = back(n); for (size_t k = 0; k < n; k++) d += vs[k]; d.push_back(0xF001); if (imp) d.push_back(U'!'); o += d; return true; }
  S declaration() { ws(); S o; if (at() != N::IdentToken) return U"failure"; return decl(o) ? o : S(U"failure"); }
  S declarations() { S o; for (;;) { switch (at()) { case N::WhitespaceToken: case N::SemicolonToken: ++i; continue; case N::EofToken: return o; case N::AtKeywordToken: atrule(o); continue;
      default: { size_t b = i; bool id = at() == N::IdentToken; S skip; if (id) ++i; while (at() != N::SemicolonToken && at() != N::EofToken) value(skip); if (id) { P p(std::vector<tk>(t.begin() + b, t.begin() + i)); p.decl(o); } } } } }
  S values() { S o; while (at() != N::EofToken) value(o); return o; }
};
static S pick(std::vector<S> const& from, size_t lo, size_t n, char const* name) { S s; for (size_t i = 0, k = vp_len(lo, n, "tokens"); i < k; i++) s += from[vp_choose(from.size(), name)]; return s; }
static size_t deep() { return vp_thorough() ? 5 : 4; }
extern "C" void h_values() { S s = pick({ U"{", U"}", U"(", U")", U"[", U"]", U"f(", U"a", U" " }, 0, deep(), "t"); vp_check(ref::same(dump(css::parse_list_of_component_values(S(s))), P(s).values()), "component values"); vp_cover("parsed"); }
extern "C" void h_comma() {
  S s = pick({ U",", U"(", U")", U"f(", U"a", U" " }, 0, deep(), "t"); auto v = css::parse_comma_separated_list_of_component_values(S(s)); std::vector<S> w(1); P p(s); while (p.at() != N::EofToken) if (p.at() == N::CommaToken) { p.i++; w.emplace_back(); } else p.value(w.back());
  vp_check(v.size() == w.size(), "number of lists"); for (size_t i = 0; i < v.size(); i++) vp_check(ref::same(dump(v[i]), w[i]), "component values of one list"); vp_cover("parsed"); }
extern "C" void h_value() { S s = pick({ U"{", U"}", U"(", U")", U"f(", U"a", U" ", U"'x'", U"1" }, 0, deep(), "t"); P p(s); S w = U"failure"; p.ws(); if (p.at() != N::EofToken) { S o; p.value(o); p.ws(); if (p.at() == N::EofToken) w = o; } vp_check(ref::same(dump(css::parse_component_value(S(s))), w), "component value or failure"); vp_cover("parsed"); }
extern "C" void h_stylesheet() { static S const B[] = { U"", U"@x", U"a{", U"a{}", U"@x{" }; S s = B[vp_choose(std::size(B), "beginning")] + pick({ U"a", U"{", U"}", U";", U"@x", U"<!--", U"-->", U" ", U"(", U")" }, 0, deep() - 1, "t"); vp_check(ref::same(dump(css::parse_stylesheet(S(s))), P(s).rules(true)), "rules"); vp_cover("parsed"); }
extern "C" void h_rules() { S s = pick({ U"a", U"{", U"}", U";", U"@x", U"<!--", U"-->", U" " }, 0, deep(), "t"); vp_check(ref::same(dump(css::parse_list_of_rules(S(s))), P(s).rules(false)), "rules"); vp_cover("parsed"); }
extern "C" void h_rule() { S s = pick({ U"a", U"{", U"}", U";", U"@x", U"-->", U" ", U"(" }, 0, deep(), "t"); vp_check(ref::same(dump(css::parse_rule(S(s))), P(s).rule()), "rule or failure"); vp_cover("parsed"); }
extern "C" void h_declaration() {
  if (vp_choose(2, "how")) { S s = U"a:b!important"; size_t at = 4 + (size_t)vp_choose(9, "at"); s[at] = (char32_t)vp_sym(7, "c"); S w = s; if (w[at] == 0) w[at] = 0xFFFD; else if ((w[at] == 12) | (w[at] == 13)) w[at] = 10; vp_check(ref::same(dump(css::parse_declaration(S(s))), P(w).declaration()), "declaration or failure"); vp_cover("important"); return; }
  static S const B[] = { U"", U"a:", U" a :" }; S s = B[vp_choose(std::size(B), "beginning")] + pick({ U"a", U":", U"!", U"important", U"IMPORTANT", U" ", U"(", U")", U"1", U";" }, 0, deep() - 1, "t"); vp_check(ref::same(dump(css::parse_declaration(S(s))), P(s).declaration()), "declaration or failure"); vp_cover("parsed"); }
extern "C" void h_declarations() { static S const B[] = { U"", U"a:", U"a:b;", U"@x", U"a:b!" }; S s = B[vp_choose(std::size(B), "beginning")] + pick({ U"a", U":", U";", U"!", U"important", U" ", U"(", U"{", U"}", U"@x" }, 0, deep() - 1, "t"); vp_check(ref::same(dump(css::parse_list_of_declarations(S(s))), P(s).declarations()), "declarations"); vp_cover("parsed"); }
extern "C" void h_copy() {
  static S const A[] = { U"@x;", U"@x y {a:b}", U"a f(1) [c] {d}", U"@x (", U"a{", U"f(g({}))" }; S s = A[vp_choose(std::size(A), "a")], r = A[vp_choose(std::size(A), "b")]; S w = P(s).rules(true), z = P(r).rules(true);
  auto v = css::parse_stylesheet(S(s)), u = css::parse_stylesheet(S(r)); std::vector<css::syntax_primitive> c(v); vp_check(ref::same(dump(c), w), "copy"); if (!u.empty() && !c.empty()) { c[0] = u[0]; vp_check(ref::same(dump(c), z), "assigned"); vp_check(ref::same(dump(u), z), "source of the assignment"); u.clear(); vp_check(ref::same(dump(c), z), "assigned value after its source is gone"); }
  std::vector<css::component_value> x, y; { auto l = css::parse_list_of_component_values(S(s)); for (auto& e : l) x.push_back(css::component_value(e)); } { auto l = css::parse_list_of_component_values(S(r)); for (auto& e : l) y.push_back(css::component_value(e)); }
  S dx, dy, o; dump(dx, x); dump(dy, y); vp_check(ref::same(dx, P(s).values()) && ref::same(dy, P(r).values()), "component values"); x = y; y.clear(); dump(o, x); vp_check(ref::same(o, dy), "assigned component values"); vp_cover("copied"); }
extern "C" void h_bytes() {
  static struct { char const* in; char32_t const* s; } const T[] = { { "@charset \"shift_jis\";\x83\x41{}", U"@charset \"shift_jis\";\x30A2{}" }, { "\xE3\x82\xA2{}", U"\x30A2{}" }, { "\xEF\xBB\xBF\x61{}", U"a{}" }, { "@charset \"utf-16\";a{}", U"@charset \"utf-16\";a{}" }, { "a\r\n{}\f", U"a\n{}\n" } };
  auto& t = T[vp_choose(std::size(T), "case")]; S s = t.s; vp_check(ref::same(dump(css::parse_stylesheet(std::string(t.in))), P(s).rules(true)), "rules of the decoded text"); vp_cover("decoded"); }

template <class F> static void again(F f, S const& s, char const* w) { S d = dump(f(S(s))); vp_check(ref::same(dump(f(css::parse_list_of_component_values(S(s)))), d), w); vp_check(ref::same(dump(f(css::normalize_into_token_stream(S(s)))), d), w); }
static void productions(S const& s) {
  switch (vp_choose(8, "production")) {
  case 0: again([](auto&& x) { return css::parse_stylesheet(std::move(x)); }, s, "style sheet from component values"); break;
  case 1: again([](auto&& x) { return css::parse_list_of_rules(std::move(x)); }, s, "rules from component values"); break;
  case 2: again([](auto&& x) { return css::parse_rule(std::move(x)); }, s, "rule from component values"); break;
  case 3: again([](auto&& x) { return css::parse_declaration(std::move(x)); }, s, "declaration from component values"); break;
  case 4: again([](auto&& x) { return css::parse_list_of_declarations(std::move(x)); }, s, "declarations from component values"); break;
  case 5: again([](auto&& x) { return css::parse_component_value(std::move(x)); }, s, "component value from component values"); break;
  case 6: again([](auto&& x) { return css::parse_list_of_component_values(std::move(x)); }, s, "component values from component values"); break;
  default: { auto a = css::parse_comma_separated_list_of_component_values(css::parse_list_of_component_values(S(s))), b = css::parse_comma_separated_list_of_component_values(S(s)); vp_check(a.size() == b.size(), "number of lists"); for (size_t i = 0; i < a.size(); i++) vp_check(ref::same(dump(a[i]), dump(b[i])), "one list"); } }
}
extern "C" void h_again() { static S const B[] = { U"", U"@x", U"a:", U"a{", U"f(" }; productions(B[vp_choose(std::size(B), "beginning")] + pick({ U"a", U"{", U"}", U";", U"@x", U":", U" ", U"(", U")", U",", U"f(", U"!important", U"-->" }, 0, vp_thorough() ? 4 : 3, "t")); vp_cover("parsed again"); }
static S const KINDS[] = { U"a", U"f(1)", U"@x", U"#h", U"#1", U"'s'", U"'s\n", U"url(u)", U"url(u v)", U"%", U"1", U"1.5", U"2%", U"3px", U" ", U"<!--", U"-->", U":", U";", U",", U"[b]", U"(c)", U"{d}", U"]", U")", U"}" };
extern "C" void h_kinds() {
  S a = KINDS[vp_choose(std::size(KINDS), "a")], b = KINDS[vp_choose(std::size(KINDS), "b")]; static struct { char32_t const *l, *r; } const W[] = { { U"", U"" }, { U"g(", U")" }, { U"[", U"]" }, { U"a{", U"}" }, { U"@m ", U"{e}" }, { U"a:", U"" } }; auto& w = W[vp_choose(std::size(W), "place")]; S s = w.l + a + b + w.r;
  vp_check(ref::same(dump(css::parse_list_of_component_values(S(s))), P(s).values()), "component values"); vp_check(ref::same(dump(css::parse_list_of_declarations(S(s))), P(s).declarations()), "declarations"); vp_check(ref::same(dump(css::parse_stylesheet(S(s))), P(s).rules(true)), "rules"); productions(s);
  auto v = css::parse_list_of_component_values(S(a)), u = css::parse_list_of_component_values(S(b)); S da = dump(v), db = dump(u); if (v.size() == 1 && u.size() == 1) { css::syntax_primitive c(v[0]), d(std::move(v[0])); c = u[0]; S o; dump(o, c); vp_check(ref::same(o, db), "assigned"); o.clear(); dump(o, d); vp_check(ref::same(o, da), "moved"); d = std::move(u[0]); o.clear(); dump(o, d); vp_check(ref::same(o, db), "moved over");
    css::component_value x(c), y(x); o.clear(); dump(o, y); vp_check(ref::same(o, db), "component value"); css::syntax_primitive z(y); o.clear(); dump(o, z); vp_check(ref::same(o, db), "primitive of a component value"); }
  vp_cover("kinds"); }
