// @libs lib/whatwg/html/parsing/atom_tbl.cpp
// @assume get_encoding_name (charset of a meta element) is replaced by one that finds nothing: the source is already decoded
// @entry h_tags : each of the 130 tag names the standard mentions and others, as start tag, as end tag and self-closed, in each of 40 contexts (every insertion mode), with text after it
// @entry h_document : up to 3 (thorough 4) tags, comments, texts around the document's top: doctype, html, head, body, frameset, noscript, title, script
// @entry h_blocks thorough=2400 : up to 2 (thorough 3) of 54 tags and texts of block content, lists, headings, ruby, forms, select, raw text, after each of some openings
// @entry h_format : up to 5 (thorough 6) tags and texts of misnested formatting elements: adoption agency, reconstruction, anchors, nobr
// @entry h_tables thorough=2400 : up to 2 (thorough 3) tags and texts in each part of a table; foster parenting
// @entry h_foreign thorough=2400 : up to 2 (thorough 3) tags and texts in SVG and MathML content and at their integration points
// @entry h_names : every SVG element name, SVG attribute name and foreign attribute name with a special case, in any letter case of its first letter; near misses
// @entry h_doctype : every public identifier that selects a mode, whole, longer, cut and with any other last character, with any or no system identifier
// @entry h_text : any scalar value as text in each of the contexts, alone or between others
// @entry h_attrs : formatting elements with equal and different attributes (at most three equal ones are kept); attributes added to html and body
// @entry h_depth : the limits of the adoption agency's loops: up to 12 nested formatting (equal or all different) and block elements
// @entry h_classes : each of the tag names, in HTML, SVG and MathML content, between each of 26 openings and the tag that looks past it for what it closes: special elements, scopes, implied end tags
// @entry h_anytag : tags whose name has any one or two ASCII characters, in each of the contexts
// @entry h_values : attribute values and names that matter (hidden inputs, annotation encodings, font attributes), with any character changed to any ASCII character
// @entry h_reuse : a cleared parser builds the same document again, wherever it stopped
#include <cassert>
#include <algorithm>
#include <array>
#include <limits>
#include <iterator>
#include <stdexcept>
#include "htmltree.h"
#include <wordring/html/simple_html.hpp>
#include "htmlcmp.h"
using rh::S; namespace wh = wordring::html;
namespace wordring::whatwg::encoding { encoding_name get_encoding_name(std::u32string) { return static_cast<encoding_name>(0); } }
struct Parser : wh::simple_parser_base<Parser, wh::u32simple_tree> { using B = wh::simple_parser_base<Parser, wh::u32simple_tree>; std::vector<std::pair<S, S>> ids; auto insert_document_type(B::node_pointer pos, B::document_type_type&& d) { ids.emplace_back(d.public_id(), d.system_id()); return B::insert_document_type(pos, std::move(d)); } };
// tokens are pushed as they are chosen, so that documents share the work of their common beginnings
struct Doc { Parser p; S s; void add(S const& w) { s += w; for (char32_t c : w) p.push_code_point(c); } void add(char32_t c) { s.push_back(c); p.push_code_point(c); } void done() { p.push_eof(); verify(); }
 void verify() { rh::Tree t; t.flip = true; rh::build(t, s); vp_check((int)p.get_document()->document_mode_name() - 1 == t.mode_doc, "mode of the document"); same(p.get_document(), t.doc, &p.ids); vp_cover("parsed"); } };
#define ONE(a, name) a[vp_choose(std::size(a), name)]
static S const CTX[] = { U"", U"<!DOCTYPE html>", U"<html>", U"<head>", U"<head><noscript>", U"</head>", U"<body>", U"<body>x", U"<p>", U"<div><p><b>", U"<ul><li>", U"<dl><dd>", U"<button>", U"<form>", U"<h1>", U"<object>", U"<ruby><rt>", U"<table>", U"<table>x", U"<table><caption>", U"<table><colgroup>", U"<table><tbody>", U"<table><tr>", U"<table><td>", U"<table><tr><td><p>", U"<select>", U"<select><optgroup><option>", U"<table><td><select>", U"<template>", U"<template><tr>", U"<template><col>", U"<table><template>", U"<body></body>", U"<body></body></html>", U"<frameset>", U"<frameset></frameset>", U"<frameset></frameset></html>", U"<svg>", U"<math>", U"<math><mi>", U"<svg><desc>", U"<math><annotation-xml encoding=text/html>", U"<table><svg>", U"<a><nobr><b>", U"<textarea>", U"<script>", U"<title>", U"<table><tr><svg><desc>" };
// up to n of the tokens, each pushed as it is chosen; unless all lengths are wanted, exactly n
template <size_t K> static void some(Doc& d, S const (&a)[K], size_t n) { for (size_t i = 0; i < n; i++) { size_t k = (size_t)vp_choose(K + 1, "token"); if (k == K) break; d.add(a[k]); } }
extern "C" void h_tags() { Doc d; d.add(ONE(CTX, "context")); size_t k = (size_t)vp_choose(std::size(rh::TN), "tag"); S n = k ? rh::wide(rh::TN[k]) : U"x-y"; unsigned how = (unsigned)vp_choose(vp_thorough() ? 3 : 2, "how"); d.add(how == 1 ? U"</" : U"<"); d.add(n); d.add(how == 2 ? U" q=r/>x" : U">x"); if (vp_thorough() && vp_choose(2, "again")) { d.add(U"<"); d.add(n); d.add(U">"); } d.done(); }
extern "C" void h_classes() { static S const P[][2] = { { U"<b>", U"</b>" }, { U"<foo>", U"</foo>" }, { U"<p>", U"</p>" }, { U"<p>", U"<p>" }, { U"<li>", U"<li>" }, { U"<ul><li>", U"</li>" }, { U"<dd>", U"<dt>" }, { U"<dt>", U"</dt>" }, { U"<h1>", U"</h2>" }, { U"<h1>", U"<h2>" }, { U"<a>", U"<a>" }, { U"<nobr>", U"<nobr>" }, { U"<button>", U"<button>" }, { U"<div>", U"</div>" }, { U"<form>", U"</form>" }, { U"<object>", U"</object>" }, { U"<table><td>", U"</td>" }, { U"<table><td>", U"<th>" }, { U"<table><caption>", U"</caption>" }, { U"<table><tr>", U"</table>" }, { U"<select><option>", U"</select>" }, { U"<ruby><rb>", U"<rt>" }, { U"<ruby><rtc>", U"<rp>" }, { U"<template>", U"</template>" }, { U"<body>", U"</body>" }, { U"<body>", U"<hr>" } };
  static S const F[] = { U"", U"<svg>", U"<math>" }; Doc d; auto& p = ONE(P, "opening"); d.add(p[0]); d.add(ONE(F, "content")); size_t k = (size_t)vp_choose(std::size(rh::TN), "tag"); d.add(U"<"); d.add(k ? rh::wide(rh::TN[k]) : U"x-y"); d.add(U">"); if (vp_thorough() && vp_choose(2, "inside")) d.add(U"<i>"); d.add(p[1]); d.add(U"z"); d.done(); }
extern "C" void h_document() { static S const P[] = { U"<!DOCTYPE html>", U"<html a=1>", U"</html>", U"<head b=1>", U"</head>", U"<body c=1>", U"</body>", U"x", U" ", U"<!--c-->", U"<title>t</title>", U"<script>s</script>", U"<style>u</style>", U"<noscript>", U"</noscript>", U"<frameset d=1>", U"</frameset>", U"<frame>", U"<noframes>f</noframes>", U"<base>", U"<meta charset=x>", U"<template>", U"</template>", U"<p>", U"</p>", U"</br>", U"<input type=hidden>", U"<textarea>" }; Doc d; some(d, P, vp_thorough() ? 4 : 3); d.done(); }
extern "C" void h_blocks() { static S const A[] = { U"<body>", U"<!DOCTYPE html><p>", U"<ul><li><div>", U"<form><button>", U"<select>", U"<dl><dd><b>", U"<h1><span>", U"<template><p>", U"<ruby><rtc><rt>" },
  P[] = { U"<p>", U"</p>", U"<div>", U"</div>", U"<h1>", U"</h2>", U"<li>", U"</li>", U"<ul>", U"</ul>", U"<dd>", U"<dt>", U"</dd>", U"</dt>", U"<dl>", U"<form>", U"</form>", U"<button>", U"</button>", U"<pre>\n", U"\n", U"<listing>", U"<object>", U"</object>", U"<template>", U"</template>", U"<ruby>", U"<rt>", U"<rp>", U"<rb>", U"<rtc>", U"</ruby>", U"<select>", U"</select>", U"<option>", U"</option>", U"<optgroup>", U"</optgroup>", U"<input>", U"<textarea>\nx</textarea>", U"<hr>", U"</br>", U"<image a=b>", U"<svg>", U"<foo>", U"</foo>", U"</span>", U"<address>", U"<table>", U"<xmp></xmp>", U"<plaintext>", U"<b>", U"</b>", U"x" };
  Doc d; d.add(ONE(A, "opening")); some(d, P, vp_thorough() ? 3 : 2); d.done(); }
extern "C" void h_format() { static S const P[] = { U"<a>", U"</a>", U"<b>", U"</b>", U"<p>", U"</p>", U"<nobr>", U"x" }; Doc d; d.add(U"<body>"); some(d, P, vp_thorough() ? 6 : 5); d.done(); }
extern "C" void h_tables() { static S const A[] = { U"<table>", U"<table><caption>", U"<table><colgroup>", U"<table><tbody>", U"<table><tr>", U"<table><td>", U"<table><td><p>", U"<table><b>", U"<table><tr><select>", U"<template><tr>", U"<table><template>", U"<table><td><table>" },
  P[] = { U"<table>", U"</table>", U"<caption>", U"</caption>", U"<colgroup>", U"</colgroup>", U"<col>", U"<tbody>", U"</tbody>", U"</tfoot>", U"<tr>", U"</tr>", U"<td>", U"</td>", U"</th>", U"<form>", U"<input>", U"<input type=HIDDEN>", U"<select>", U"</select>", U"<style>s</style>", U"<template>", U"</template>", U"x", U" ", U"<!--c-->", U"<p>", U"<b>", U"</b>", U"<svg>", U"<html q>", U"</body>", U"</br>", U"<foo>", U"&#0;" };
  Doc d; d.add(ONE(A, "opening")); some(d, P, vp_thorough() ? 3 : 2); d.done(); }
extern "C" void h_foreign() { static S const A[] = { U"<svg>", U"<math>", U"<p><svg><g>", U"<math><mi>", U"<math><annotation-xml>", U"<math><annotation-xml encoding=text/HTML>", U"<math><annotation-xml encoding=Application/xhtml+xml>", U"<svg><foreignObject>", U"<svg><desc>", U"<svg><title><svg>", U"<table><tr><td><math>" },
  P[] = { U"<svg>", U"</svg>", U"<math>", U"</math>", U"<svg/>", U"<mi>", U"</mi>", U"<mo/>", U"<annotation-xml>", U"</annotation-xml>", U"<foreignObject>", U"</foreignobject>", U"<desc>", U"</title>", U"<p>", U"</p>", U"<b>", U"<font>", U"<font color=x>", U"<font b size=1>", U"<font face>", U"<g>", U"</G>", U"<script>", U"</script>", U"<script/>", U"<linearGradient>", U"<mglyph>", U"<malignmark/>", U"x", U" ", U"<!--c-->", U"<![CDATA[d]]>", U"<table>", U"<td>", U"</table>", U"<tr>", U"</div>", U"</br>", U"</body>", U"&#0;", U"<select>", U"<template>", U"<frameset>", U"<textarea>" };
  Doc d; d.add(ONE(A, "opening")); some(d, P, vp_thorough() ? 3 : 2); d.done(); }
extern "C" void h_names() { unsigned kind = (unsigned)vp_choose(4, "kind"); Doc d; d.add(vp_choose(2, "math") ? U"<math>" : U"<svg>"); S n; bool el = false;
  if (kind == 0) { n = rh::wide(ONE(rh::SVGT, "element")); el = true; } else if (kind == 1) n = rh::wide(ONE(rh::SVGA, "attribute")); else if (kind == 2) n = rh::wide(ONE(rh::FOREIGNA, "foreign").q); else { static S const X[] = { U"definitionurl", U"xlink", U"xlink:", U"xlink:hre", U"xlink:hrefs", U"xml:base", U"xml", U"xmlns:", U"xmlns:xml", U"xmlns:svg", U"viewport", U"viewbo", U"contentscripttype", U"filterres", U"externalresourcesrequired", U"encoding" }; n = ONE(X, "other"); }
  unsigned how = (unsigned)vp_choose(3, "case"); if (how == 0) n = rh::lower(n); else if (how == 1) for (auto& c : n) { if (c >= U'a' && c <= U'z') c -= 32; }
  if (el) { d.add(U"<"); d.add(n); d.add(U">x</"); d.add(n); d.add(U">y"); } else { d.add(vp_choose(2, "root") ? U"<svg a=b " : U"<g a=b "); d.add(n); d.add(U"=v c:d=e>"); } d.done(); }
extern "C" void h_doctype() { static S const X[] = { U"-//W3O//DTD W3 HTML Strict 3.0//EN//", U"-/W3C/DTD HTML 4.0 Transitional/EN", U"HTML", U"-//W3C//DTD HTML 4.01//EN", U"-//W3C//DTD XHTML 1.0 Strict//EN", U"" }, Y[] = { U"", U"''", U"'http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd'", U"\"HTTP://www.ibm.com/data/dtd/v11/IBMxhtml1-transitional.DTD\"", U"'http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtdx'", U"x" };
  unsigned kind = (unsigned)vp_choose(5, "kind"); S n; if (kind == 0) n = rh::wide(ONE(rh::QUIRKS, "quirks")); else if (kind == 1) n = rh::wide(ONE(rh::LQUIRKS, "limited")); else if (kind == 2) n = rh::wide(ONE(rh::SQUIRKS, "system")); else if (kind == 3) n = ONE(X, "whole");
  unsigned how = (unsigned)vp_choose(4, "how"); if (how == 1) n = rh::lower(n) + U"EN"; else if (how == 2 && !n.empty()) { char32_t c = (char32_t)vp_sym(7, "c"); vp_assume(c != U'"' && c != U'&' && c != U'>'); n.back() = c; } else if (how == 3) { for (auto& c : n) if (c >= U'a' && c <= U'z') c -= 32; }
  Doc d; if (kind == 4) { static S const Z[] = { U"<!DOCTYPE html>", U"<!DOCTYPE>", U"<!doctype HTML >", U"<!DOCTYPE htm>", U"<!DOCTYPE html SYSTEM 'about:legacy-compat'>", U"<!DOCTYPE html SYSTEM>", U"<!DOCTYPE html PUBLIC>", U"<!DOCTYPE svg PUBLIC 'a' 'b'>", U"<!DOCTYPE html x>", U"<!-- --><!DOCTYPE html>", U"x<!DOCTYPE html>", U"<!DOCTYPE html><!DOCTYPE svg>", U"" }; d.add(ONE(Z, "plain")); if (vp_choose(2, "system")) d.add(U"<!DOCTYPE html SYSTEM 'http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd'>"); }
  else { d.add(U"<!DOCTYPE html PUBLIC \""); d.add(n); d.add(U"\" "); d.add(ONE(Y, "system")); d.add(U">"); }
  d.add(U"<p><table>"); d.done(); }
extern "C" void h_text() { Doc d; d.add(ONE(CTX, "context")); static S const A[] = { U"", U"a", U" " }, B[] = { U"", U"b", U"<p>" }; d.add(ONE(A, "before")); d.add(vp_scalar("c")); d.add(ONE(B, "after")); d.done(); }
extern "C" void h_attrs() { static S const P[] = { U"<b>", U"<b p=1>", U"<b p=2>", U"<b p=1 q=2>", U"<b q=2 p=1>", U"<i p=1>", U"<b q=1>" }; unsigned k = (unsigned)vp_choose(2, "kind"); Doc d;
  if (k == 0) { d.add(U"<p>"); some(d, P, vp_thorough() ? 5 : 4); d.add(U"</p>x"); } else { static S const Q[] = { U"<html a=1>", U"<html a=2 b=3>", U"<body a=4>", U"<body a=5 c=6>", U"<table>", U"<template>", U"<body x:y=7 a>", U"x", U"</body>" }; some(d, Q, vp_thorough() ? 5 : 4); } d.done(); }
extern "C" void h_depth() { size_t n = vp_len(0, 12, "n"), m = vp_len(0, vp_thorough() ? 12 : 10, "m"); static S const A[] = { U"<b>", U"<i>", U"<font x=1>", U"" }, B[] = { U"<div>", U"<p>", U"<span>" }, D[] = { U"<i>", U"<u>", U"<s>", U"<em>", U"<tt>", U"<big>", U"<code>", U"<font>", U"<small>", U"<strike>", U"<strong>", U"<b c>" }; bool mix = vp_choose(2, "mixed"); S f = ONE(A, "formatting"), b = ONE(B, "block"); bool each = f.empty(); Doc d; unsigned k = (unsigned)vp_choose(3, "closes"); if (k == 2) d.add(U"<section>"); d.add(U"<b id=o>"); for (size_t i = 0; i < n || i < m; i++) { if (each && i < n) f = D[i]; if (mix) { if (i < n) d.add(f); if (i < m) d.add(b); } else if (i < n) d.add(f); } if (!mix) for (size_t i = 0; i < m; i++) d.add(b); d.add(U"x"); d.add(k == 0 ? U"</div></b></b>" : k == 1 ? U"</b>" : U"</b></section>"); d.add(U"y<p>z"); d.done(); }
extern "C" void h_reuse() { static S const A[] = { U"<!DOCTYPE html PUBLIC 'HTML'><html a=b>x", U"<table><tr>x", U"<p><b><i></p>x", U"<template><tr>", U"<svg viewbox=1><desc>", U"<frameset>", U"<script>x", U"<title>y</title", U"<form><a b='c", U"<!--", U"</body></html>", U"<pre>", U"<select><option>", U"<textarea>", U"<table>x", U"&am", U"<plaintext>" }, B[] = { U"<!DOCTYPE html>x", U"<b>y<table>z", U"\n<form><svg>", U"<template>x", U"</p><td>", U"<title>&amp;</title>x" };
  Doc d; d.add(ONE(A, "first")); bool end = vp_choose(2, "ended"); if (end) d.p.push_eof(); d.p.clear(wh::encoding_confidence_name::irrelevant, static_cast<wordring::encoding_name>(0)); d.s.clear(); d.p.ids.clear(); d.add(ONE(B, "second")); d.done(); }
extern "C" void h_anytag() { Doc d; d.add(CTX[vp_choose(std::size(CTX), "context")]); d.add(vp_choose(2, "end") ? U"</" : U"<"); size_t n = vp_len(1, vp_thorough() ? 2 : 1, "n"); for (size_t i = 0; i < n; i++) { char32_t c = (char32_t)vp_sym(7, "c"); vp_assume(c > U' ' && c != U'>' && c != U'/' && c != U'&'); d.add(c); } if (vp_choose(2, "more")) { char32_t c = (char32_t)vp_sym(7, "c"); vp_assume(c >= U'0' && c != U'>' && c != U'&' && c < 0x7F); d.add(c); } d.add(U">x"); d.done(); }
extern "C" void h_values() { static struct { char32_t const *a, *w, *b; } const P[] = { { U"<table><input type=", U"hidden", U">x" }, { U"<table><input ", U"type", U"=hidden>" }, { U"<input type=", U"hidden", U"><frameset>" }, { U"<math><annotation-xml encoding=", U"text/html", U"><div>x" }, { U"<math><annotation-xml encoding=", U"application/xhtml+xml", U"><p>" }, { U"<math><annotation-xml ", U"encoding", U"=text/html><div>x" }, { U"<svg><font ", U"color", U"=1>x" }, { U"<svg><font ", U"face", U"=1>x" }, { U"<svg><font a ", U"size", U">x" }, { U"<svg><g ", U"xlink:href", U"=1>" }, { U"<math ", U"definitionurl", U"=1>" }, { U"<svg ", U"viewbox", U"=1>" }, { U"<svg ", U"xmlns", U"=1>" } };
  auto& p = ONE(P, "where"); S w(p.w); size_t at = (size_t)vp_choose(w.size() + 1, "at"); if (at < w.size()) { char32_t c = (char32_t)vp_sym(7, "c"); vp_assume(c > U' ' && c != U'>' && c != U'/' && c != U'&' && c != U'=' && c != U'"' && c != U'\''); w[at] = c; } Doc d; d.add(S(p.a)); d.add(w); d.add(S(p.b)); d.done(); }
