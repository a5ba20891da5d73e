// @libs lib/whatwg/html/parsing/atom_tbl.cpp
// @assume comparing two nodes other than elements (an operator the library declares and does not implement) is not part of this
// @entry h_kinds : each kind of node, in each string type, with data of any 0..2 scalar values: its kind, data, names, identifiers, modes; copied and assigned over any other kind
// @entry h_element : an element of any of 7 namespaces, 3 prefixes and 6 names, given by string or enumerator, then changed
// @entry h_attribute : an attribute made in each way, then changed; equality is that of namespace, prefix and local name, whatever the values
// @entry h_find : up to 2 attributes (thorough 3) of any namespaces, prefixes and names, any name changed by one character: each search finds the first that is equal in all three, or none
// @entry h_same : two elements with up to 2 (thorough 3) attributes each in any order, any characters in their values: same signature exactly when namespace, name and attributes with values are the same
// @entry h_text : text and comments made and extended by any scalar values in each string type
// @entry h_walk : every tree of up to 4 nodes: parent, first, last, next and previous as the node interface gives them
// @entry h_traits : the node interface in each string type, through constant and other positions: names of elements and attributes, values, documents' type and mode, targets and data, the root, which kinds have no content; the setters of texts, comments and processing instructions
#include <cassert>
#include <algorithm>
#include <array>
#include <limits>
#include <iterator>
#include <stdexcept>
#include "htmltree.h"
#include <wordring/html/simple_html.hpp>
using rh::S; namespace wh = wordring::html;
namespace wordring::whatwg::encoding { encoding_name get_encoding_name(std::u32string) { return static_cast<encoding_name>(0); } }
#define ONE(a, name) a[vp_choose(std::size(a), name)]
template <class Str> static Str e(S const& s) { return ref::enc<Str>(s); }
static S const URI[] = { U"", U"http://www.w3.org/1999/xhtml", U"http://www.w3.org/1998/Math/MathML", U"http://www.w3.org/2000/svg", U"http://www.w3.org/1999/xlink", U"http://www.w3.org/XML/1998/namespace", U"http://www.w3.org/2000/xmlns/" };
template <class Str> static bool same(Str const& a, S const& b) { return ref::same(a, e<Str>(b)); }
template <class Str> struct K { using Nd = wh::simple_node<Str>; using T = typename Nd::type_name; unsigned k; S d, d2; wh::document_mode_name mode{}; wh::document_type_name type{};
  void pick() { k = (unsigned)vp_choose(7, "kind"); }
  Nd make() { switch (k) { case 0: return Nd(wh::simple_element<Str>(wh::tag_name::P)); case 1: return Nd(wh::simple_text<Str>(e<Str>(d))); case 2: { wh::simple_processing_instruction<Str> p; p.data(e<Str>(d)); p.target(e<Str>(d2)); return Nd(p); } case 3: return Nd(wh::simple_comment<Str>(e<Str>(d))); case 4: { wh::simple_document<Str> x; x.document_mode(mode); x.document_type(type); return Nd(x); } case 5: return Nd(wh::simple_document_type<Str>(e<Str>(d), e<Str>(d2), e<Str>(d))); default: return Nd(wh::simple_document_fragment<Str>()); } }
  void check(Nd const& n) const { static T const ts[] = { T::Element, T::Text, T::ProcessingInstruction, T::Comment, T::Document, T::DocumentType, T::DocumentFragment }; static unsigned const no[] = { 1, 3, 7, 8, 9, 10, 11 };
    vp_check(n.type() == ts[k] && (unsigned)n.type() == no[k], "kind"); vp_check(n.is_element() == (k == 0) && n.is_text() == (k == 1) && n.is_processing_instruction() == (k == 2) && n.is_comment() == (k == 3) && n.is_document() == (k == 4) && n.is_document_type() == (k == 5), "of exactly one kind");
    if (k == 0) vp_check(n.local_name_name() == wh::tag_name::P && n.namespace_uri_name() == wh::ns_name::HTML, "element"); if (k >= 1 && k <= 3) vp_check(same(n.data(), d), "data"); if (k == 2) vp_check(same(n.target(), d2), "target"); if (k == 4) vp_check(n.document_mode_name() == mode && n.document_type_name() == type, "document"); if (k == 5) vp_check(same(n.name(), d), "document type name"); } };
template <class Str> static void kinds() {
  K<Str> a, b; a.pick(); b.pick(); a.d = vp_scalars(vp_len(0, 2, "n"), "c"); a.d2 = U"t"; b.d = U"b"; b.d2 = U"u"; a.mode = (wh::document_mode_name)vp_choose(3, "mode"); a.type = (wh::document_type_name)vp_choose(2, "type"); b.mode = wh::document_mode_name::Quirks; b.type = wh::document_type_name::Html;
  auto x = a.make(), y = b.make(); a.check(x); b.check(y); auto z = x; a.check(z); z = y; b.check(z); a.check(x); y = std::move(x); a.check(y); b.check(z);
  if (a.k == 4) { y.document_mode_name(wh::document_mode_name::LimitedQuirks); y.document_type_name(wh::document_type_name::Xml); vp_check(y.document_mode_name() == wh::document_mode_name::LimitedQuirks && y.document_type_name() == wh::document_type_name::Xml, "document set"); } if (a.k >= 1 && a.k <= 3) { y.data() = e<Str>(U"new"); a.d = U"new"; a.check(y); b.check(z); }
  if (a.k == 5) { wh::simple_document_type<Str> t(e<Str>(a.d), e<Str>(U"p"), e<Str>(U"s")); vp_check(same(t.name(), a.d) && same(t.public_id(), U"p") && same(t.system_id(), U"s"), "identifiers"); t.name(e<Str>(U"n")); t.public_id(e<Str>(a.d)); t.system_id(e<Str>(U"q")); vp_check(same(t.name(), U"n") && same(t.public_id(), a.d) && same(t.system_id(), U"q"), "identifiers set"); }
  vp_cover("kind"); }
#define TYPES(f) switch (vp_choose(3, "string type")) { case 0: f<std::u32string>(); break; case 1: f<std::u8string>(); break; default: f<std::u16string>(); }
extern "C" void h_kinds() { TYPES(kinds) }
static S const EN[] = { U"p", U"a", U"svg", U"foreignObject", U"x-y", U"template" }; static wh::tag_name const EE[] = { wh::tag_name::P, wh::tag_name::A, wh::tag_name::Svg, wh::tag_name::ForeignObject, (wh::tag_name)0, wh::tag_name::Template };
static S const AN[] = { U"id", U"href", U"x-y", U"lang", U"xmlns", U"class" }; static wh::attribute_name const AE[] = { wh::attribute_name::Id, wh::attribute_name::Href, (wh::attribute_name)0, wh::attribute_name::Lang, wh::attribute_name::Xmlns, wh::attribute_name::Class };
static S const PF[] = { U"", U"x", U"xlink" };
struct Part { unsigned ns, p, n; S q() const { return PF[p]; } };
template <class El> static void named(El const& x, unsigned ns, S const& prefix, S const& name, unsigned en) { vp_check((unsigned)x.namespace_uri_name() == ns, "namespace"); vp_check(same(x.namespace_uri(), URI[ns]), "namespace URI"); vp_check(same(x.local_name(), name), "local name"); vp_check((unsigned)x.local_name_name() == en, "enumerator of the local name"); vp_check(same(x.qualified_name(), prefix.empty() ? name : prefix + U":" + name), "qualified name"); }
template <class Str> static void element() {
  using El = wh::simple_element<Str>; unsigned ns = (unsigned)vp_choose(7, "namespace"), p = (unsigned)vp_choose(3, "prefix"), n = (unsigned)vp_choose(6, "name"), how = (unsigned)vp_choose(5, "how"); if (how >= 3) { vp_assume(ns == 1 && p == 0); } if (how == 2 || how == 4) vp_assume((unsigned)EE[n] != 0);
  El x = how == 0 ? El(e<Str>(URI[ns]), e<Str>(PF[p]), e<Str>(EN[n])) : how == 1 ? El((wh::ns_name)ns, e<Str>(PF[p]), e<Str>(EN[n])) : how == 2 ? El((wh::ns_name)ns, e<Str>(PF[p]), EE[n]) : how == 3 ? El(e<Str>(EN[n])) : El(EE[n]);
  named(x, ns, PF[p], EN[n], (unsigned)EE[n]); vp_check(same(x.namespace_prefix(), PF[p]), "prefix"); wh::simple_node<Str> nd(x); named(nd, ns, PF[p], EN[n], (unsigned)EE[n]); vp_check(x.begin() == x.end(), "no attributes");
  unsigned m = (unsigned)vp_choose(3, "new namespace") + 2; if (vp_choose(2, "by string")) { x.namespace_uri(e<Str>(URI[m])); x.local_name(e<Str>(EN[(n + 1) % 6])); } else { vp_assume((unsigned)EE[(n + 1) % 6] != 0); x.namespace_uri_name((wh::ns_name)m); x.local_name_name(EE[(n + 1) % 6]); } x.namespace_prefix(e<Str>(U"z")); named(x, m, U"z", EN[(n + 1) % 6], (unsigned)EE[(n + 1) % 6]); named(nd, ns, PF[p], EN[n], (unsigned)EE[n]); vp_cover("element"); }
extern "C" void h_element() { TYPES(element) }
template <class Str> static void attribute() {
  using A = wh::simple_attr<Str>; auto mk = [](Part& q, S const& v) { q = { (unsigned)vp_choose(3, "namespace") * 3, (unsigned)vp_choose(2, "prefix"), (unsigned)vp_choose(2, "name") * 2 }; unsigned how = (unsigned)vp_choose(4, "how"); if (how >= 2) { vp_assume(q.ns == 0 && q.p == 0); } if (how & 1) vp_assume((unsigned)AE[q.n] != 0); return how == 0 ? A((wh::ns_name)q.ns, e<Str>(PF[q.p]), e<Str>(AN[q.n]), e<Str>(v)) : how == 1 ? A((wh::ns_name)q.ns, e<Str>(PF[q.p]), AE[q.n], e<Str>(v)) : how == 2 ? A(e<Str>(AN[q.n]), e<Str>(v)) : A(AE[q.n], e<Str>(v)); };
  Part p, q; S v(1, vp_scalar("v")), w(1, vp_scalar("w")); A a = mk(p, v), b = mk(q, w); named(a, p.ns, p.q(), AN[p.n], (unsigned)AE[p.n]); vp_check(same(a.prefix(), p.q()) && same(a.value(), v), "prefix and value"); bool eq = p.ns == q.ns && p.p == q.p && p.n == q.n; vp_check((a == b) == eq && (b == a) == eq && (a != b) == !eq, "equal"); bool loc = p.ns == 0 && p.p == 0; Str s = e<Str>(AN[q.n]); bool by = loc && p.n == q.n; vp_check((a == s) == by && (s == a) == by && (a != s) == !by && (s != a) == !by, "equal to a name"); if ((unsigned)AE[q.n]) { auto k = AE[q.n]; vp_check((a == k) == by && (k == a) == by && (a != k) == !by && (k != a) == !by, "equal to an enumerator"); }
  A c = a; c.value(e<Str>(w)); c.prefix(e<Str>(U"z")); c.local_name(e<Str>(AN[5])); c.namespace_uri(e<Str>(URI[5])); named(c, 5, U"z", AN[5], (unsigned)AE[5]); vp_check(same(c.value(), w), "value set"); c.namespace_uri_name(wh::ns_name::XLink); c.local_name_name(AE[1]); named(c, 4, U"z", AN[1], (unsigned)AE[1]); named(a, p.ns, p.q(), AN[p.n], (unsigned)AE[p.n]); vp_check(same(a.value(), v), "the original unchanged"); vp_cover(eq ? "equal" : "different"); }
extern "C" void h_attribute() { TYPES(attribute) }
extern "C" void h_find() {
  using Str = S; using A = wh::simple_attr<Str>; size_t n = vp_len(0, vp_thorough() ? 3 : 2, "attributes"); wh::simple_element<Str> x(wh::tag_name::A); struct At { unsigned ns, p; S n; }; std::vector<At> m;
  for (size_t i = 0; i < n; i++) { At a{ vp_choose(2, "namespace") ? 4u : 0u, (unsigned)vp_choose(2, "prefix") * 2, AN[vp_choose(3, "name")] }; if (i == 0) { a.n[0] = vp_scalar("c"); } S v(1, U'0' + (char32_t)i); m.push_back(a); x.push_back(A((wh::ns_name)a.ns, PF[a.p], a.n, v)); }
  auto idx = [&](unsigned ns, unsigned p, S const& nm) { size_t i = 0; while (i < n && !(m[i].ns == ns && m[i].p == p && ref::same(m[i].n, nm))) i++; return i; }; wh::simple_node<Str> nd(x); vp_check((size_t)std::distance(x.begin(), x.end()) == n, "number of attributes"); size_t i = 0; for (auto& a : nd) { vp_check(a.value()[0] == U'0' + i && ref::same(a.local_name(), m[i].n), "attributes in order"); i++; }
  unsigned ns = vp_choose(2, "find namespace") ? 4 : 0, p = (unsigned)vp_choose(2, "find prefix") * 2, k = (unsigned)vp_choose(3, "find name"); wh::simple_element<Str> const& cx = x; auto at = [&](auto it, auto b) { return (size_t)(it - b); }; wh::simple_node<Str> const& cn = nd;
  size_t w = idx(ns, p, AN[k]), l = idx(0, 0, AN[k]); vp_check(at(cx.find((wh::ns_name)ns, PF[p], AN[k]), cx.begin()) == w && at(cn.find((wh::ns_name)ns, PF[p], AN[k]), cn.begin()) == w, "by namespace, prefix and name"); vp_check(nd.contains((wh::ns_name)ns, PF[p], AN[k]) == (w < n), "contains"); vp_check(at(cx.find(AN[k]), cx.begin()) == l && at(cn.find(AN[k]), cn.begin()) == l, "by name"); vp_check(at(cx.find(A((wh::ns_name)ns, PF[p], AN[k], U"other")), cx.begin()) == w, "by attribute");
  if ((unsigned)AE[k]) vp_check(at(cx.find((wh::ns_name)ns, PF[p], AE[k]), cx.begin()) == w && at(cx.find(AE[k]), cx.begin()) == l && at(cn.find(AE[k]), cn.begin()) == l, "by enumerator"); vp_cover(w < n ? "found" : "not found"); }
extern "C" void h_same() {
  using Str = S; using Tr = wh::u32simple_tree; using NT = wh::node_traits<Tr::iterator>; struct At { unsigned ns, n; S v; }; struct E { unsigned ns, n; std::vector<At> a; } m[2]; Tr t; auto root = t.insert(t.end(), wh::simple_document<Str>()); Tr::iterator it[2];
  size_t max = vp_thorough() ? 3 : 2; for (int i = 0; i < 2; i++) { E& q = m[i]; q.ns = 1 + 2 * (unsigned)vp_choose(2, "namespace"); q.n = (unsigned)vp_choose(2, "name") * 4; wh::simple_element<Str> x((wh::ns_name)q.ns, S(), EN[q.n]); size_t k = vp_len(0, max, "attributes"); for (size_t j = 0; j < k; j++) { At a{ vp_choose(2, "attribute namespace") ? 4u : 0u, (unsigned)vp_choose(2, "attribute"), S(1, vp_scalar("v")) }; bool dup = false; for (auto& b : q.a) dup |= b.ns == a.ns && b.n == a.n; vp_assume(!dup); q.a.push_back(a); x.push_back(wh::simple_attr<Str>((wh::ns_name)a.ns, a.ns ? U"xlink" : U"", AN[a.n], a.v)); } it[i] = t.insert(root.end(), x); }
  bool w = m[0].ns == m[1].ns && m[0].n == m[1].n && m[0].a.size() == m[1].a.size(); if (w) for (auto& a : m[0].a) { bool f = false; for (auto& b : m[1].a) if (a.ns == b.ns && a.n == b.n && ref::same(a.v, b.v)) f = true; if (!f) w = false; } vp_check(NT::equals(it[0], it[1]) == w && NT::equals(it[1], it[0]) == w, "the same signature"); vp_cover(w ? "same" : "different"); }
template <class Str> static void text() { using Tr = wordring::tag_tree<wh::simple_node<Str>>; using NT = wh::node_traits<typename Tr::iterator>; S s = vp_scalars(vp_len(1, vp_thorough() ? 4 : 3, "n"), "c"); Tr t; auto r = t.insert(t.end(), wh::simple_document<Str>()); auto i = t.insert(r.end(), NT::create_text(s[0])); for (size_t k = 1; k < s.size(); k++) NT::append_text(i, s[k]); vp_check(NT::is_text(i) && same(NT::data(i), s), "text"); auto c = t.insert(r.end(), NT::create_comment(e<Str>(s))); vp_check(NT::is_comment(c) && !NT::is_text(c) && same(NT::data(c), s), "comment"); auto d = t.insert(r.end(), NT::create_document_type(e<Str>(s), e<Str>(U"p"), e<Str>(U"q"))); vp_check(NT::is_document_type(d) && same(NT::name(d), s), "document type"); vp_cover("text"); }
extern "C" void h_text() { TYPES(text) }
extern "C" void h_walk() {
  using Tr = wh::u8simple_tree; using NT = wh::node_traits<Tr::iterator>; Tr t; size_t n = vp_len(1, vp_thorough() ? 5 : 4, "nodes"); std::vector<Tr::iterator> it; std::vector<size_t> par; std::vector<std::vector<size_t>> kids(n); it.push_back(t.insert(t.end(), wh::simple_document<std::u8string>())); par.push_back(n);
  for (size_t i = 1; i < n; i++) { size_t p = (size_t)vp_choose(i, "parent"); bool front = vp_choose(2, "front"); it.push_back(t.insert(front ? it[p].begin() : it[p].end(), wh::simple_element<std::u8string>(EE[i % 4]))); par.push_back(p); kids[p].insert(front ? kids[p].begin() : kids[p].end(), i); }
  for (size_t i = 0; i < n; i++) { if (i) vp_check(NT::parent(it[i]) == it[par[i]], "parent"); else { vp_check(NT::parent(it[0]) == NT::pointer(), "the document has no parent"); vp_check(NT::is_document(it[0]) && !NT::is_element(it[0]), "document"); } if (i) vp_check(NT::is_element(it[i]) && NT::is_html_element_of(it[i], EE[i % 4]) && !NT::is_html_element_of(it[i], EE[(i + 1) % 4]), "element"); auto a = NT::begin(it[i]), z = NT::end(it[i]); for (size_t k = 0; k < kids[i].size(); k++) { vp_check(a == it[kids[i][k]], "child"); if (k) vp_check(NT::prev(a) == it[kids[i][k - 1]], "previous"); a = NT::next(a); } vp_check(a == z, "end of the children"); if (!kids[i].empty()) vp_check(NT::prev(z) == it[kids[i].back()], "last child"); } vp_cover("walk"); }

template <class NT, class It> static void via(It el, It doc, It pi, It tx, It cm, It dt, It fr, unsigned ns, unsigned p, unsigned n, unsigned ans, unsigned an, S const& v, wh::document_type_name ty, wh::document_mode_name mo) {
  S q = PF[p].empty() ? EN[n] : PF[p] + U":" + EN[n]; vp_check((unsigned)NT::get_namespace_name(el) == ns && same(NT::get_namespace(el), URI[ns]) && same(NT::get_local_name(el), EN[n]) && NT::get_local_name_name(el) == EE[n] && same(NT::get_qualified_name(el), q), "names of an element");
  auto a = NT::abegin(el), z = NT::aend(el); vp_check(a != z && std::distance(a, z) == 1, "one attribute"); vp_check((unsigned)NT::get_namespace_name(*a) == ans && same(NT::get_namespace(*a), URI[ans]) && same(NT::get_local_name(*a), AN[an]) && NT::get_local_name_name(*a) == AE[an] && same(NT::get_qualified_name(*a), U"x:" + AN[an]) && same(NT::value(*a), v), "names and value of an attribute");
  vp_check(NT::get_document_type(doc) == ty && NT::get_document_mode(doc) == mo, "type and mode of a document"); vp_check(same(NT::target(pi), U"t") && same(NT::data(pi), v) && same(NT::data(tx), v) && same(NT::data(cm), v) && same(NT::name(dt), U"d"), "data, target and name");
  It all[] = { el, tx, pi, cm, doc, dt, fr }; bool single[] = { false, true, false, true, false, true, false }; for (unsigned i = 0; i < 7; i++) { vp_check(NT::is_element(all[i]) == (i == 0) && NT::is_text(all[i]) == (i == 1) && NT::is_processing_instruction(all[i]) == (i == 2) && NT::is_comment(all[i]) == (i == 3) && NT::is_document(all[i]) == (i == 4) && NT::is_document_type(all[i]) == (i == 5), "of exactly one kind"); if (i != 2) vp_check(NT::is_single(*all[i]) == single[i], "kinds without content"); }
  vp_check(NT::is_html_element_of(el, EE[n]) == (ns == 1) && !NT::is_html_element_of(el, wh::tag_name::Body) && !NT::is_root(el), "HTML elements"); }
template <class Str> static void traits() {
  using Tr = wordring::tag_tree<wh::simple_node<Str>>; using NT = wh::node_traits<typename Tr::iterator>; using CT = wh::node_traits<typename Tr::const_iterator>; unsigned ns = (unsigned)vp_choose(7, "namespace"), p = (unsigned)vp_choose(3, "prefix"), n = (unsigned)vp_choose(4, "name"), ans = (ns + 3 * (unsigned)vp_choose(2, "attribute namespace")) % 7, form = (unsigned)vp_choose(6, "form"), an = (unsigned)vp_choose(2, "attribute"); S v(1, vp_scalar("v")); auto ty = (wh::document_type_name)(form % 2); auto mo = (wh::document_mode_name)(form % 3);
  wh::simple_element<Str> x((wh::ns_name)ns, e<Str>(PF[p]), EE[n]); x.push_back(wh::simple_attr<Str>((wh::ns_name)ans, e<Str>(U"x"), e<Str>(AN[an]), e<Str>(v))); wh::simple_processing_instruction<Str> pi; if (form % 2) { pi.data(e<Str>(v)); pi.target(e<Str>(U"t")); } else { Str a = e<Str>(v), b = e<Str>(U"t"); pi.data(a); pi.target(b); }
  wh::simple_text<Str> tx(e<Str>(U"old")); wh::simple_comment<Str> cm(e<Str>(U"old")); Str nv = e<Str>(v); switch (form % 3) { case 0: tx.data(nv); cm.data(nv); break; case 1: tx.data(e<Str>(v)); cm.data(e<Str>(v)); break; default: tx.data() = nv; cm.data() = nv; } vp_check(same(tx.data(), v) && same(cm.data(), v) && same(pi.data(), v) && same(pi.target(), U"t"), "data set");
  Tr t; auto doc = t.insert(t.end(), wh::simple_document<Str>()); auto put = [&](auto const& k) { return t.insert(doc.end(), k); }; auto el = put(x); auto ip = put(pi); auto it = put(tx); auto ic = put(cm); auto dt = put(wh::simple_document_type<Str>(e<Str>(U"d"), e<Str>(U"p"), e<Str>(U"s"))); auto fr = put(wh::simple_document_fragment<Str>()); auto ht = put(wh::simple_element<Str>(wh::tag_name::Html));
  NT::set_document_type(doc, ty); NT::set_document_mode(doc, mo); via<NT, typename Tr::iterator>(el, doc, ip, it, ic, dt, fr, ns, p, n, ans, an, v, ty, mo); via<CT, typename Tr::const_iterator>(el, doc, ip, it, ic, dt, fr, ns, p, n, ans, an, v, ty, mo); vp_check(NT::is_root(ht) && !NT::is_root(doc) && !NT::is_root(it) && CT::is_root(ht), "the root is the html element"); vp_cover("traits"); }
extern "C" void h_traits() { TYPES(traits) }
