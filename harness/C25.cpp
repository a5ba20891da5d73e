// @libs lib/whatwg/html/parsing/atom_tbl.cpp
// @assume get_encoding_name (charset of a meta element) is replaced by one that finds nothing: the source is already decoded
// @entry h_elements : every element name the standard mentions and others, in each namespace, around text of any scalar values, comments and other elements; UTF-8, UTF-16 and UTF-32 trees and outputs
// @entry h_attributes : attributes of every kind of namespace, any scalar values in their values, several on one element
// @entry h_nodes : every arrangement of up to 3 (thorough 4) kinds of nodes under a document, fragment or element, nested or not; the contents only, not the node itself
// @entry h_parsed : what a parsed document is written out as
// @entry h_roundtrip : text, attribute values and raw text written out and parsed again are what they were
// @entry h_atoms : each of the 1058 tag and attribute names and its enumerator are converted to one another, in each string type; names with any character changed are not mistaken for it
// @entry h_atom_equal : atoms are equal exactly when their names are, whether made of strings or enumerators
#include <cassert>
#include <algorithm>
#include <array>
#include <limits>
#include <iterator>
#include <stdexcept>
#include "htmltree.h"
#include <wordring/html/simple_html.hpp>
using rh::S; using rh::N; namespace wh = wordring::html; namespace ww = wordring::whatwg::html;
namespace wordring::whatwg::encoding { encoding_name get_encoding_name(std::u32string) { return static_cast<encoding_name>(0); } }
#define ONE(a, name) a[vp_choose(std::size(a), name)]
// reference serializer, from the standard (13.3)
static void esc(S& o, S const& s, bool attr) { for (char32_t c : s) { if (c == U'&') o += U"&amp;"; else if (c == 0xA0) o += U"&nbsp;"; else if (attr && c == U'"') o += U"&quot;"; else if (!attr && c == U'<') o += U"&lt;"; else if (!attr && c == U'>') o += U"&gt;"; else o.push_back(c); } }
static bool isvoid(N* e) { return e->k == rh::EL && e->ns == rh::HTML && rh::in(rh::tid(e->n), { rh::t_area, rh::t_base, rh::t_basefont, rh::t_bgsound, rh::t_br, rh::t_col, rh::t_embed, rh::t_frame, rh::t_hr, rh::t_img, rh::t_input, rh::t_keygen, rh::t_link, rh::t_meta, rh::t_param, rh::t_source, rh::t_track, rh::t_wbr }); }
enum { PI = 20, FRAG = 21 };
static void out(S& o, N* n) {
  if (isvoid(n)) return;
  for (N* c : n->kids) switch ((int)c->k) {
    case rh::EL: o.push_back(U'<'); o += c->n; for (auto& a : c->a) { o.push_back(U' '); if (a.ns == 1) o += U"xlink:"; else if (a.ns == 2) o += U"xml:"; else if (a.ns == 3) { if (!rh::eq(a.n, "xmlns")) o += U"xmlns:"; } o += a.n; o += U"=\""; esc(o, a.v, true); o.push_back(U'"'); } o.push_back(U'>'); if (isvoid(c)) break; out(o, c); o += U"</"; o += c->n; o.push_back(U'>'); break;
    case rh::TEXT: if (n->k == rh::EL && n->ns == rh::HTML && rh::in(rh::tid(n->n), { rh::t_style, rh::t_script, rh::t_xmp, rh::t_iframe, rh::t_noembed, rh::t_noframes, rh::t_plaintext })) o += c->n; else esc(o, c->n, false); break;
    case rh::COMM: o += U"<!--"; o += c->n; o += U"-->"; break;
    case PI: o += U"<?"; o += c->pub; o.push_back(U' '); o += c->n; o.push_back(U'>'); break;
    case rh::DTYPE: o += U"<!DOCTYPE "; o += c->n; o.push_back(U'>'); break;
    default: break; } }
// the same tree in the library
template <class Str> struct Make { using Tr = wordring::tag_tree<wh::simple_node<Str>>; using Nd = wh::simple_node<Str>; Tr t; typename Tr::iterator root;
  static Str e(S const& s) { return ref::enc<Str>(s); }
  Nd node(N* n) { switch ((int)n->k) {
      case rh::EL: { wh::simple_element<Str> x(static_cast<wh::ns_name>((int)n->ns + 1), Str(), e(n->n)); for (auto& a : n->a) x.push_back(wh::simple_attr<Str>(static_cast<wh::ns_name>(a.ns ? a.ns + 3 : 0), e(a.prefix), e(a.n), e(a.v))); return Nd(x); }
      case rh::TEXT: return Nd(wh::simple_text<Str>(e(n->n))); case rh::COMM: return Nd(wh::simple_comment<Str>(e(n->n)));
      case PI: { wh::simple_processing_instruction<Str> x; x.target(e(n->pub)); x.data(e(n->n)); return Nd(x); }
      case rh::DTYPE: return Nd(wh::simple_document_type<Str>(e(n->n), e(n->pub), e(n->sys))); case FRAG: return Nd(wh::simple_document_fragment<Str>()); default: return Nd(wh::simple_document<Str>()); } }
  void under(typename Tr::iterator at, N* n) { for (N* c : n->kids) { auto i = t.insert(at.end(), node(c)); under(i, c); } }
  Make(N* n) { root = t.insert(t.end(), node(n)); under(root, n); } };
template <class Str, class Out> static void as(N* n, S const& want) { Make<Str> m(n); Out o; ww::to_string(m.root, std::back_inserter(o)); vp_check(ref::same(o, ref::enc<Out>(want)), "text of the node's contents"); }
static void all(N* n) { S w; out(w, n); switch (vp_choose(4, "type")) { case 0: as<std::u32string, std::u32string>(n, w); break; case 1: as<std::u8string, std::string>(n, w); break; case 2: as<std::u16string, std::u16string>(n, w); break; default: as<std::u8string, std::u8string>(n, w); } vp_cover("serialized"); }
static N* el(S const& n, rh::Ns ns = rh::HTML) { return rh::Tree::el(ns, n); }
static N* leaf(int k, S const& s, S const& t = U"") { N* n = new N{ (rh::Kind)k }; n->n = s; n->pub = t; return n; }
static void add(N* p, N* c) { rh::Tree::add(p, c); }
extern "C" void h_elements() {
  static S const X[] = { U"x-y", U"picture", U"audio", U"video", U"command", U"image", U"menuitem", U"noscript", U"canvas", U"feBlend", U"linearGradient", U"spacer", U"isindex", U"slot", U"\u00E9\U0001F600" };
  size_t k = (size_t)vp_choose(std::size(rh::TN) - 1 + std::size(X), "name"); S n = k < std::size(rh::TN) - 1 ? rh::wide(rh::TN[k + 1]) : X[k - (std::size(rh::TN) - 1)]; N* p = new N{ rh::DOC }; N* e = el(n, (rh::Ns)vp_choose(3, "namespace")); unsigned how = (unsigned)vp_choose(3, "inside"); N* top = p; if (how == 1) { top = el(U"div"); add(p, top); } add(top, e);
  S s = vp_scalars(vp_len(0, 1, "n"), "c"); if (!s.empty()) { s += U"&b"; add(e, leaf(rh::TEXT, s)); } else if (vp_choose(2, "child")) { add(e, el(U"b")); add(e, leaf(rh::COMM, U"<&")); } if (how == 1) add(top, leaf(rh::TEXT, U"<z>")); all(how == 2 ? e : p); }
extern "C" void h_attributes() { static S const A[] = { U"id", U"href", U"xmlns", U"lang", U"title", U"data-x", U"viewBox", U"x:y", U"xlink", U"\u3042" }; N *p = new N{ rh::DOC }, *e = el(U"a", (rh::Ns)(vp_choose(2, "namespace") * 2)); add(p, e); static S const F[] = { U"", U"xlink", U"xml", U"xmlns" };
  int ns = (int)vp_choose(4, "attribute namespace"); S name = ONE(A, "attribute"); S v = vp_scalars(vp_len(0, vp_thorough() ? 2 : 1, "length"), "c"); e->a.push_back({ ns, ns == 3 && rh::eq(name, "xmlns") ? S() : F[ns], name, v }); if (vp_choose(8, "more") == 0) { e->a.push_back({ 0, U"", U"m", U"<\"" }); e->a.push_back({ ns, F[ns], U"b", U"\u00A0" }); }
  all(p); }
static void grow(N* p, size_t& left, size_t deep) { while (left) { size_t k = (size_t)vp_choose(deep ? 8 : 6, "node"); if (k == 5) return; --left; N* c; switch (k) { case 0: c = leaf(rh::TEXT, U"a<&"); break; case 1: c = leaf(rh::COMM, U"-"); break; case 2: c = leaf(PI, U"d", U"t"); break; case 3: c = leaf(rh::DTYPE, U"html"); break; case 4: c = el(U"br"); break; case 6: c = el(U"p"); c->a.push_back({ 0, U"", U"q", U"" }); break; default: c = el(U"script"); break; } add(p, c); if (k > 5) grow(c, left, deep - 1); } }
extern "C" void h_nodes() { static int const R[] = { rh::DOC, FRAG, rh::EL }; int r = ONE(R, "root"); N* p = r == rh::EL ? el(vp_choose(2, "void") ? U"hr" : U"style") : new N{ (rh::Kind)r }; size_t left = vp_thorough() ? 4 : 3; grow(p, left, 3); S w; out(w, p); as<std::u32string, std::u32string>(p, w); vp_cover("serialized"); }
extern "C" void h_parsed() { static S const D[] = { U"<!DOCTYPE HTML PUBLIC 'a'><p a='\"' b=\"'\">x<br/>y", U"<!--a--><table><tr><td>&lt;&amp;", U"<script>a<b&&c</script><style>></style><title>&lt;</title>", U"<svg viewbox=1 xlink:href=2 xml:lang=3 xmlns=4 xmlns:xlink=5><foreignObject><p></svg>z", U"<math definitionURL=x><mi>&nbsp;", U"<textarea>\n\n<b></textarea><pre>\nx", U"<template><tr><td>x", U"<select><option>a<option>b", U"<frameset><frame><noframes><b></noframes>", U"<plaintext></p>", U"<iframe><b></iframe><noembed>&</noembed><xmp><i></xmp>", U"</html><!--end-->", U"" };
  S s = ONE(D, "document"); rh::Tree t; rh::build(t, s); S w; out(w, t.doc); wh::simple_parser<wh::u8simple_tree> p; for (char32_t c : s) p.push_code_point(c); p.push_eof(); std::string o; ww::to_string(p.get_document(), std::back_inserter(o)); vp_check(ref::same(o, ref::enc<std::string>(w)), "text of the document"); vp_cover("serialized"); }
extern "C" void h_roundtrip() {
  auto any = [](char const* n) { char32_t c = vp_scalar(n); vp_assume(c != 0 && c != 13); return c; };
  S v, x; size_t nv = vp_len(0, 1 + vp_thorough(), "value"), nx = vp_len(0, 1 + vp_thorough(), "text"); static S const E[] = { U"", U"lt;", U"#38;", U"p>", U"/p>", U"\"" }; for (size_t i = 0; i < nv; i++) v.push_back(any("c")); if (nv) v += ONE(E, "more"); for (size_t i = 0; i < nx; i++) x.push_back(any("d")); if (nx) x += ONE(E, "more");
  N* p = new N{ rh::DOC }; N *h = el(U"html"), *b = el(U"body"), *e = el(U"div"); add(p, h); add(h, el(U"head")); add(h, b); add(b, e); e->a.push_back({ 0, U"", U"title", v }); if (nx) add(e, leaf(rh::TEXT, x)); add(e, leaf(rh::COMM, U"c"));
  Make<std::u32string> m(p); S o; ww::to_string(m.root, std::back_inserter(o));
  wh::simple_parser<wh::u32simple_tree> q; for (char32_t c : o) q.push_code_point(c); q.push_eof();
  auto d = q.get_document().begin().begin(); ++d; d = d.begin(); vp_check(d->is_element() && rh::eq(d->local_name(), "div"), "the element"); auto a = d->find(S(U"title")); vp_check(a != d->end() && ref::same(a->value(), v), "attribute value");
  auto c = d.begin(); if (nx) { vp_check(c != d.end() && c->is_text() && ref::same(c->data(), x), "text"); ++c; } vp_check(c != d.end() && c->is_comment() && rh::eq(c->data(), "c"), "comment"); ++c; vp_check(c == d.end(), "nothing more"); vp_cover("roundtrip"); }
#define TAG(e, s) s,
#define ATTR(e, s)
static char const* const TAGS[] = {
#include "atoms.inc"
};
#undef TAG
#undef ATTR
#define TAG(e, s) wh::tag_name::e,
#define ATTR(e, s)
static wh::tag_name const TAGE[] = {
#include "atoms.inc"
};
#undef TAG
#undef ATTR
#define TAG(e, s)
#define ATTR(e, s) s,
static char const* const ATTRS[] = {
#include "atoms.inc"
};
#undef TAG
#undef ATTR
#define TAG(e, s)
#define ATTR(e, s) wh::attribute_name::e,
static wh::attribute_name const ATTRE[] = {
#include "atoms.inc"
};
template <class Str, class E> static void atom(char const* w, E e, bool tag) { S n = rh::wide(w); using A = wh::basic_html_atom<Str, E>; Str s = ref::enc<Str>(n); A a(s), b(e); vp_check((E)a == e && (E)b == e, "enumerator of the name"); vp_check(ref::same((Str)a, s) && ref::same((Str)b, s), "name of the enumerator"); vp_check(a == b && a == e && e == b && a == s && s == b && !(a != b) && !(b != e) && !(b != s) && !(e != a) && !(s != a), "the same atom");
  if (vp_choose(4, "vary") == 0) { size_t at = (size_t)vp_choose(s.size() + 1, "at"); Str t = s; typename Str::value_type c = (typename Str::value_type)vp_sym(7, "c"); if (at < t.size()) { vp_assume(c != t[at]); t[at] = c; } else t.push_back(c); A x(t); vp_check((E)x != e && x != b && x != e && b != x && x != s && e != x && s != x && !(e == x) && !(s == x), "another name"); vp_check(ref::same((Str)x, t), "its text is kept"); vp_cover("other"); } vp_cover("atom"); }
extern "C" void h_atoms() { bool tag = vp_choose(2, "tag"); size_t i = (size_t)vp_choose(tag ? std::size(TAGS) : std::size(ATTRS), "which"); switch (vp_choose(3, "type")) { case 0: if (tag) atom<std::u32string>(TAGS[i], TAGE[i], true); else atom<std::u32string>(ATTRS[i], ATTRE[i], false); break; case 1: if (tag) atom<std::u8string>(TAGS[i], TAGE[i], true); else atom<std::u8string>(ATTRS[i], ATTRE[i], false); break; default: if (tag) atom<std::u16string>(TAGS[i], TAGE[i], true); else atom<std::u16string>(ATTRS[i], ATTRE[i], false); } }
extern "C" void h_atom_equal() { using A = wh::basic_html_atom<std::u32string, wh::tag_name>; static S const N[] = { U"a", U"A", U"p", U"x-y", U"", U"pp", U"template", U"x-z" }; auto mk = [](S& s) { s = ONE(N, "name"); if (!s.empty() && vp_choose(2, "change")) s[0] = vp_scalar("c"); if (vp_choose(2, "as")) { for (size_t i = 0; i < std::size(TAGS); i++) if (rh::eq(s, TAGS[i])) return A(TAGE[i]); vp_assume(s.empty()); return A(); } return A(s); };
  S s, t; A a = mk(s), b = mk(t); bool same = ref::same(s, t); vp_check((a == b) == same && (b == a) == same && (a != b) == !same, "equal exactly when the names are"); vp_check((a == t) == same && (t == a) == same && (a != t) == !same && (t != a) == !same, "atom and string"); vp_cover("compared"); }
