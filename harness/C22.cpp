// @libs lib/wwwc/css_syntax/token.cpp lib/wwwc/selectors/grammar.cpp lib/whatwg/html/parsing/atom_tbl.cpp lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp
// @assume pseudo-classes other than :root and all pseudo-elements are accepted and match no element (the library's documented choice); the value of [a|=v] is followed by more characters (the library's tests pin that equality alone does not match)
// @assume mixed-case names of foreign elements inside HTML documents are outside
// @entry h_grammar : selectors of up to 4 (thorough 5) tokens of a 17-token alphabet on one document: valid or not, and exactly the matching elements in document order
// @entry h_brackets : attribute selectors of up to 5 (thorough 6) tokens between brackets
// @entry h_combinators : two or three compounds joined by every combinator, on every tree of five elements
// @entry h_attr : every attribute matcher and modifier, attribute values of up to 3 (thorough 4) symbolic characters
// @entry h_class : class and id selectors against symbolic attribute values, in each document type and mode
// @entry h_namespace : type and attribute selectors with and without prefix, declared or not, on elements and attributes of several namespaces
// @entry h_scope : the elements below any node of the document only; the first of them for query_selector, none without a match
// @entry h_lists : lists of simple, compound, complex and relative selectors of up to 3 (thorough 4) tokens after each of several beginnings: valid or not, the elements they match, and the structure they report
#include "cssref.h"
#include <wordring/html/simple_html.hpp>
#include <wordring/css/selector.hpp>
#include <wordring/wwwc/selectors/api.hpp>
using rc::S; using rc::N; using rc::tk; namespace css = wordring::wwwc::css; namespace html = wordring::html;
using tree = html::u32simple_tree; using it = tree::const_iterator; using html::ns_name; using html::document_type_name; using html::document_mode_name;
// the model of a document, and the same document in the library's tree
struct at { S ns, name, value; };
struct nd { int parent; int kind; S ns, name; std::vector<at> a; }; // kind 0 document, 1 element, 2 text, 3 comment
static S const H = U"http://www.w3.org/1999/xhtml", G = U"http://www.w3.org/2000/svg";
struct model {
  std::vector<nd> n; bool xml = false; document_mode_name mode = document_mode_name::NoQuirks; std::map<S, S> ns;
  tree t; std::vector<it> p;
  int add(int parent, int kind, S name = U"", std::vector<at> a = {}, S s = H) { n.push_back({ parent, kind, s, name, a }); return (int)n.size() - 1; }
  void build() {
    for (auto& x : n) {
      using node = html::u32simple_node; it pos = x.parent < 0 ? it(t.end()) : it(p[x.parent].end()); it r;
      if (x.kind == 0) { node::document_type d; d.document_type(xml ? document_type_name::Xml : document_type_name::Html); d.document_mode(mode); r = t.insert(pos, d); }
      else if (x.kind == 1) { node::element_type e(x.ns, S(), x.name); for (auto& a : x.a) { html::simple_attr<S> q(a.name, a.value); if (!a.ns.empty()) q.namespace_uri(a.ns); e.push_back(q); } r = t.insert(pos, e); }
      else if (x.kind == 2) r = t.insert(pos, node::text_type(x.name)); else r = t.insert(pos, node::comment_type(x.name));
      p.push_back(r); } }
  bool under(int i, int scope) const { for (i = n[i].parent; i >= 0; i = n[i].parent) if (i == scope) return true; return false; }
};
static char32_t low(char32_t c) { return (c - U'A' <= 25u) ? c | 32 : c; }
static bool eqi(S const& a, S const& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= low(a[i]) == low(b[i]); return r; }
static bool eq(S const& a, S const& b, bool ci) { return ci ? eqi(a, b) : ref::same(a, b); }
static std::vector<S> words(S const& s) { std::vector<S> r; S w; for (char32_t c : s) if (ref::ws(c)) { if (!w.empty()) r.push_back(w); w.clear(); } else w.push_back(c); if (!w.empty()) r.push_back(w); return r; }
// the reference: selectors parsed from the reference tokens, matched on the model
struct qn { bool pre = false; S prefix, name; };
struct sub { int k; S v; qn q; char32_t m = 0; bool ci = false; }; // 1 id, 2 class, 3 attribute, 4 :root, 5 matches nothing
struct comp { bool type = false; qn q; bool any = false; std::vector<sub> s; };
struct cplx { std::vector<comp> c; std::vector<char32_t> j; };
struct sel {
  model const& m; std::vector<tk> t; size_t i = 0; std::vector<cplx> l; bool ok = true;
  sel(model const& x, S const& s) : m(x), t(rc::tokens(s)) { ws(); for (;;) { cplx c; if (!complex(c)) { ok = false; return; } l.push_back(c); ws(); if (at() != N::CommaToken) break; ++i; ws(); } ok = i == t.size(); }
  N at(size_t k = 0) const { return i + k < t.size() ? t[i + k].t : N::EofToken; } bool d(char32_t c, size_t k = 0) const { return at(k) == N::DelimToken && t[i + k].d == c; }
  bool ws() { bool r = false; while (at() == N::WhitespaceToken) { ++i; r = true; } return r; }
  bool declared(S const& s) const { return m.ns.find(s) != m.ns.end(); }
  // a name with an optional prefix, or * where allowed; false and nothing consumed otherwise
  bool qname(qn& q, bool& any, bool star) {
    size_t b = i; bool pre = false; S p;
    if (d(U'|')) { if (at(1) == N::IdentToken || (star && d(U'*', 1))) { pre = true; ++i; } else return false; }
    else if ((at() == N::IdentToken || d(U'*')) && d(U'|', 1) && (at(2) == N::IdentToken || (star && d(U'*', 2)))) { p = d(U'*') ? S(U"*") : t[i].v; if (p == U"*" || declared(p)) { pre = true; i += 2; } }
    any = false; if (at() == N::IdentToken) { q = { pre, p, t[i++].v }; return true; } if (star && d(U'*')) { ++i; any = true; q = { pre, p, S() }; return true; } i = b; return false; }
  static bool legacy(S const& s) { return eqi(s, U"before") || eqi(s, U"after") || eqi(s, U"first-line") || eqi(s, U"first-letter"); }
  void args() { size_t depth = 1; std::vector<N> st{ N::CloseParenToken }; (void)depth; while (!st.empty() && i < t.size()) { N k = at(); ++i; if (k == st.back()) st.pop_back(); else if (k == N::OpenParenToken || k == N::FunctionToken) st.push_back(N::CloseParenToken); else if (k == N::OpenSquareToken) st.push_back(N::CloseSquareToken); else if (k == N::OpenCurlyToken) st.push_back(N::CloseCurlyToken); } }
  bool pclass(comp& c) { if (at() != N::ColonToken) return false; if (at(1) == N::IdentToken && !legacy(t[i + 1].v)) { c.s.push_back({ eqi(t[i + 1].v, U"root") ? 4 : 5 }); i += 2; return true; } if (at(1) == N::FunctionToken) { i += 2; args(); c.s.push_back({ 5 }); return true; } return false; }
  bool pelement(comp& c) { if (at() != N::ColonToken) return false; if (at(1) == N::IdentToken && legacy(t[i + 1].v)) { i += 2; c.s.push_back({ 5 }); return true; } if (at(1) != N::ColonToken) return false; if (at(2) == N::IdentToken) { i += 3; c.s.push_back({ 5 }); return true; } if (at(2) == N::FunctionToken) { i += 3; args(); c.s.push_back({ 5 }); return true; } return false; }
  bool attribute(comp& c) {
    if (at() != N::OpenSquareToken) return false; ++i; ws(); sub s{ 3 }; bool any; if (!qname(s.q, any, false)) return false; ws();
    if (at() == N::DelimToken) { if (d(U'=')) { s.m = U'='; ++i; } else { char32_t x = t[i].d; if (!((x == U'~' || x == U'|' || x == U'^' || x == U'$' || x == U'*') && d(U'=', 1))) return false; s.m = x; i += 2; } ws();
      if (at() != N::IdentToken && at() != N::StringToken) return false; s.v = t[i++].v; ws(); if (at() == N::IdentToken) { S v = t[i++].v; if (eqi(v, U"i")) s.ci = true; else if (!eqi(v, U"s")) return false; ws(); } }
    if (at() != N::EofToken) { if (at() != N::CloseSquareToken) return false; ++i; } c.s.push_back(s); return true; }
  bool compound(comp& c) {
    size_t b = i; if (qname(c.q, c.any, true)) c.type = true;
    for (;;) { if (at() == N::HashToken) { c.s.push_back({ 1, t[i++].v }); continue; } if (d(U'.') && at(1) == N::IdentToken) { c.s.push_back({ 2, t[i + 1].v }); i += 2; continue; } size_t k = i; if (attribute(c)) continue; i = k; if (pclass(c)) continue; break; }
    while (pelement(c)) while (pclass(c)); return i > b; }
  bool complex(cplx& c) {
    comp x; if (!compound(x)) return false; c.c.push_back(x);
    for (;;) { size_t b = i; bool w = ws(); char32_t j = 0; if (d(U'>') || d(U'+') || d(U'~')) { j = t[i].d; ++i; } else if (d(U'|') && d(U'|', 1)) { j = U'|'; i += 2; } if (!w && !j) return true; ws(); comp y; if (!compound(y)) { i = b; return true; } c.j.push_back(j ? j : U' '); c.c.push_back(y); } }
  // matching
  bool attr(nd const& e, sub const& s) const {
    for (auto& a : e.a) {
      if (!s.q.pre || s.q.prefix.empty()) { if (!a.ns.empty()) continue; } else if (s.q.prefix != U"*" && m.ns.find(s.q.prefix)->second != a.ns) continue;
      if (!eq(a.name, s.q.name, !m.xml)) continue;
      S const& v = a.value; S const& w = s.v;
      switch (s.m) { case 0: return true; case U'=': return eq(v, w, s.ci); case U'~': for (S const& x : words(v)) if (eq(x, w, s.ci)) return true; return false;
        case U'|': return v.size() > w.size() && eq(v.substr(0, w.size()), w, s.ci) && v[w.size()] == U'-'; case U'^': return !w.empty() && v.size() >= w.size() && eq(v.substr(0, w.size()), w, s.ci); case U'$': return !w.empty() && v.size() >= w.size() && eq(v.substr(v.size() - w.size()), w, s.ci);
        default: if (w.empty()) return false; for (size_t k = 0; k + w.size() <= v.size(); k++) if (eq(v.substr(k, w.size()), w, s.ci)) return true; return false; } }
    return false; }
  bool one(nd const& e, comp const& c) const {
    if (e.kind != 1) return false; bool q = m.mode == document_mode_name::Quirks;
    if (c.type) { if (!c.q.pre) { auto f = m.ns.find(S()); if (f != m.ns.end() && f->second != e.ns) return false; } else if (c.q.prefix.empty()) { if (!e.ns.empty()) return false; } else if (c.q.prefix != U"*" && m.ns.find(c.q.prefix)->second != e.ns) return false; if (!c.any && !eq(c.q.name, e.name, !m.xml)) return false; }
    for (auto& s : c.s) { bool r = false;
      switch (s.k) { case 1: for (auto& a : e.a) if (a.ns.empty() && eq(a.name, U"id", !m.xml) && eq(a.value, s.v, q)) r = true; break;
        case 2: for (auto& a : e.a) if (a.ns.empty() && eq(a.name, U"class", !m.xml)) for (S const& w : words(a.value)) if (eq(w, s.v, q)) r = true; break;
        case 3: r = attr(e, s); break; case 4: r = e.name == U"html" && e.ns == H; break; default: break; }
      if (!r) return false; }
    return true; }
  bool chain(int e, cplx const& c, size_t k) const {
    if (!one(m.n[e], c.c[k])) return false; if (k == 0) return true; int p = m.n[e].parent;
    switch (c.j[k - 1]) { case U' ': for (; p >= 0; p = m.n[p].parent) if (chain(p, c, k - 1)) return true; return false; case U'>': return p >= 0 && chain(p, c, k - 1);
      case U'+': for (int f = e - 1; f > p; f--) if (m.n[f].parent == p && m.n[f].kind == 1) return chain(f, c, k - 1); return false; case U'~': for (int f = e - 1; f > p; f--) if (m.n[f].parent == p && m.n[f].kind == 1 && chain(f, c, k - 1)) return true; return false; default: return false; } }
  bool match(int e) const { if (ok) for (auto& c : l) if (chain(e, c, c.c.size() - 1)) return true; return false; }
};
// nodes are added in document order, so index order is document order
static void expect(model& m, S const& s, int scope = 0) {
  sel r(m, s); css::parse_context ctx; ctx.m_namespace_uris = m.ns; auto l = css::parse_selector(s, ctx); vp_check((bool)l == r.ok, "the selector is valid or not");
  std::vector<it> v; css::match_selector(l, ctx, m.p[0], it(m.t.end()), std::back_inserter(v), m.p[scope]); size_t k = 0;
  for (size_t e = 0; e < m.n.size(); e++) if (m.under((int)e, scope) && r.match((int)e)) { vp_check(k < v.size() && v[k] == m.p[e], "a matching element is found in document order"); ++k; }
  vp_check(k == v.size(), "no other element matches"); vp_cover(r.ok ? "valid" : "invalid"); if (k) vp_cover("matched"); }
static void page(model& m) {
  int d = m.add(-1, 0); m.add(d, 3, U"c"); int h = m.add(d, 1, U"html"); m.add(h, 1, U"head"); int b = m.add(h, 1, U"body", { { U"", U"class", U"x y" } });
  m.add(b, 1, U"p", { { U"", U"id", U"i" }, { U"", U"class", U"x" }, { U"", U"a", U"v" } }); m.add(b, 2, U"text"); int v = m.add(b, 1, U"div"); m.add(v, 3, U"c"); m.add(v, 1, U"p", { { U"", U"a", U"v w" } }); m.add(v, 1, U"p", { { U"", U"class", U"y" }, { U"", U"id", U"j" } }); m.add(b, 1, U"p"); m.build(); }
static S pick(std::vector<S> const& from, size_t lo, size_t n, char const* name) { S s; for (size_t i = 0, k = vp_len(lo, n, "tokens"); i < k; i++) s += from[vp_choose(from.size(), name)]; return s; }
extern "C" void h_grammar() { model m; page(m); S s = pick({ U"p", U"*", U".x", U"#i", U"[a]", U":root", U":", U"before", U">", U"+", U"~", U" ", U",", U"|", U".", U"div", U"(" }, 0, vp_thorough() ? 5 : 4, "t"); expect(m, s); }
extern "C" void h_brackets() { model m; page(m); S s = S(U"[") + pick({ U"a", U"=", U"|", U"~", U"*", U"v", U"'w'", U" ", U"i", U"]" }, 0, vp_thorough() ? 6 : 5, "t"); expect(m, s); }
extern "C" void h_combinators() {
  model m; int d = m.add(-1, 0), h = m.add(d, 1, U"html"); int e[4] = { h, 0, 0, 0 }; static S const nm[] = { U"p", U"q" }; unsigned gap = (unsigned)vp_choose(2, "text between");
  for (int i = 1; i < 4 + (int)vp_thorough(); i++) { int par = e[i == 1 ? 0 : vp_choose((size_t)(i < 4 ? i : 4), "parent")]; for (int k = (int)m.n.size() - 1; k >= 0 && m.n[par].kind == 1; k--) { if (k == par) break; if (m.n[k].parent == par) break; bool in = false; for (int q = k; q >= 0; q = m.n[q].parent) in |= q == par; vp_assume(in); } if (gap) m.add(par, 2, U"x"); int x = m.add(par, 1, nm[vp_choose(2, "name")]); if (i < 4) e[i] = x; }
  m.build(); static S const J[] = { U" ", U">", U" + ", U"~", U"||" }, C[] = { U"p", U"q", U"*", U"html" }; size_t n = vp_len(2, 3, "compounds"); S s = C[vp_choose(4, "c")]; for (size_t i = 1; i < n; i++) { s += J[vp_choose(n == 2 ? 5 : 4, "j")]; s += C[vp_choose(i + 1 == n ? 3 : 4, "c")]; } expect(m, s); }
static S text(size_t lo, size_t hi, char const* name) { S s; size_t n = vp_len(lo, hi, "length"); for (size_t i = 0; i < n; i++) { char32_t c = (char32_t)vp_sym(7, name); s.push_back(c); } return s; }
extern "C" void h_attr() {
  model m; int d = m.add(-1, 0), h = m.add(d, 1, U"html"); S v = text(0, vp_thorough() ? 4 : 3, "v"); m.add(h, 1, U"p", { { U"", U"a", v }, { U"", U"b", U"zz" } }); m.build();
  static S const M[] = { U"=", U"~=", U"|=", U"^=", U"$=", U"*=" }, V[] = { U"", U"k", U"K-", U"k k", U"aB", U"'" }, F[] = { U"", U" i", U"s", U" S " }; S w = V[vp_choose(std::size(V), "w")]; unsigned k = (unsigned)vp_choose(6, "matcher"); if (k == 2) vp_assume(v.size() != w.size() || !eqi(v, w));
  S s = S(U"[a") + M[k] + U"\"" + w + U"\"" + F[vp_choose(4, "modifier")] + U"]"; expect(m, s); }
extern "C" void h_class() {
  model m; unsigned how = (unsigned)vp_choose(4, "document"); m.xml = how == 3; m.mode = how == 1 ? document_mode_name::LimitedQuirks : how == 2 ? document_mode_name::Quirks : document_mode_name::NoQuirks;
  int d = m.add(-1, 0), h = m.add(d, 1, U"html"); bool id = vp_choose(2, "id"); static S const A[] = { U"class", U"CLASS" }, B[] = { U"id", U"Id" }; unsigned c = (unsigned)vp_choose(2, "attribute"); m.add(h, 1, U"p", { { U"", id ? B[c] : A[c], text(0, vp_thorough() ? 5 : 4, "v") } }); m.build();
  static S const V[] = { U"k", U"Kk", U"aB" }; expect(m, S(id ? U"#" : U".") + V[vp_choose(3, "w")]); }
extern "C" void h_namespace() {
  model m; m.xml = vp_choose(2, "xml"); if (vp_choose(2, "n declared")) m.ns[U"n"] = G; unsigned df = (unsigned)vp_choose(3, "default"); if (df) m.ns[S()] = df == 1 ? H : G;
  static S const NS[] = { H, G, U"", U"urn:x" }; int d = m.add(-1, 0), h = m.add(d, 1, U"html"); m.add(h, 1, vp_choose(2, "case") ? U"p" : (m.xml ? U"P" : U"p"), { { NS[1 + vp_choose(3, "attribute")], U"a", U"v" } }, NS[vp_choose(4, "element")]); m.build();
  static S const P[] = { U"", U"n|", U"*|", U"|", U"u|" }, T[] = { U"p", U"*", U"P" }; S s; unsigned w = (unsigned)vp_choose(3, "what"); if (w != 1) s = P[vp_choose(5, "p")] + T[vp_choose(3, "t")]; if (w) s += S(U"[") + P[vp_choose(5, "pa")] + (vp_choose(2, "ta") ? U"a" : U"A") + (vp_choose(2, "v") ? U"=v]" : U"]"); expect(m, s); }
extern "C" void h_scope() {
  model m; page(m); int scope = (int)vp_choose(m.n.size(), "scope"); static S const Q[] = { U"p", U"body p", U"div > p", U"*", U" .y", U":root", U"head", U"p, div", U"#j ", U"", U"p >", U"p ~ p", U"p + p", U"html p", U"h1", U"[a][class]", U"p!" }; S s = Q[vp_choose(std::size(Q), "q")];
  sel r(m, s); std::vector<size_t> w; for (size_t e = 0; e < m.n.size(); e++) if (m.under((int)e, scope) && r.match((int)e)) w.push_back(e);
  std::vector<it> v; wordring::css::query_selector_all(m.p[scope], s, std::back_inserter(v)); vp_check(v.size() == w.size(), "number of elements found"); for (size_t k = 0; k < w.size(); k++) vp_check(v[k] == m.p[w[k]], "element found, in document order");
  it f = wordring::css::query_selector(m.p[scope], s); vp_check(w.empty() ? f == it() : f == m.p[w[0]], "first element or none"); vp_cover(w.empty() ? "none" : "some"); }

// the structure a parsed selector reports, against the reference's
static bool same(std::optional<css::ns_prefix> const& a, qn const& q) { return (bool)a == q.pre && (!a || ref::same(a->string(), q.prefix)); }
static bool same(css::subclass_selector const& a, sub const& s) {
  auto& v = a.value();
  switch (s.k) { case 1: return v.index() == 0 && ref::same(std::get<0>(v).value(), s.v); case 2: return v.index() == 1 && ref::same(std::get<1>(v).name(), s.v);
    case 3: { if (v.index() != 2) return false; auto& t = std::get<2>(v); char32_t m = s.m == U'=' ? 0 : s.m; return same(t.prefix(), s.q) && ref::same(t.name(), s.q.name) && (!s.m || t.matcher() == m || t.matcher() == s.m) && ref::same(t.value(), s.v) && (low(t.modifier()) == U'i') == s.ci; } default: return v.index() == 3 && std::get<3>(v).type() == N::IdentToken; } }
static bool same(css::type_selector const& a, comp const& c) { auto& v = a.value(); if (c.any) return v.index() == 1 && same(std::get<1>(v), c.q); return v.index() == 0 && same(std::get<0>(v).prefix(), c.q) && ref::same(std::get<0>(v).name(), c.q.name); }
static bool same(css::compound_selector const& a, comp const& c) { auto& v = a.value(); size_t k = 0, n = c.type ? 1 : 0; if (v.size() != n + c.s.size()) return false; if (c.type && !(v[k].index() == 0 && same(std::get<0>(v[k]), c))) return false; for (k = n; k < v.size(); k++) if (v[k].index() == 1) { if (!same(std::get<1>(v[k]), c.s[k - n])) return false; } else if (c.s[k - n].k < 4) return false; return true; }
template <class V> static bool joined(V const& v, cplx const& c, size_t lead) { if (v.size() != lead + c.c.size() + c.j.size()) return false; for (size_t k = 0; k < c.c.size(); k++) { auto& x = v[lead + 2 * k]; if (x.index() != 0 || !same(std::get<0>(x), c.c[k])) return false; if (k < c.j.size() && (v[lead + 2 * k + 1].index() != 1 || std::get<1>(v[lead + 2 * k + 1]).type() != c.j[k])) return false; } return true; }
template <class L> static void matches(model& m, sel const& r, L const& l, css::parse_context const& ctx) { std::vector<it> v; css::match_selector(l, ctx, m.p[0], it(m.t.end()), std::back_inserter(v), m.p[0]); size_t k = 0; for (size_t e = 1; e < m.n.size(); e++) if (r.match((int)e)) { vp_check(k < v.size() && v[k] == m.p[e], "a matching element is found in document order"); ++k; } vp_check(k == v.size(), "no other element matches"); if (k) vp_cover("matched"); }
extern "C" void h_lists() {
  model m; page(m); m.ns[U"n"] = H; css::parse_context ctx; ctx.m_namespace_uris = m.ns; static S const B[] = { U"", U"p", U"p,", U" > ", U"n|p" }; S s = B[vp_choose(std::size(B), "beginning")] + pick({ U"p", U"*", U".x", U"#i", U"[n|a]", U"[a~='w' i]", U":root", U">", U"+", U" ", U",", U"|" }, 0, vp_thorough() ? 4 : 3, "t");
  unsigned kind = (unsigned)vp_choose(4, "kind"); sel r(m, s);
  if (kind == 3) { sel q(m, S()); q.t = rc::tokens(s); q.i = 0; q.ok = true; std::vector<char32_t> lead; q.ws(); for (;;) { char32_t j = 0; if (q.d(U'>') || q.d(U'+') || q.d(U'~')) { j = q.t[q.i].d; ++q.i; } else if (q.d(U'|') && q.d(U'|', 1)) { j = U'|'; q.i += 2; } if (j) q.ws(); cplx c; if (!q.complex(c)) { q.ok = false; break; } lead.push_back(j); q.l.push_back(c); q.ws(); if (q.at() != N::CommaToken) break; ++q.i; q.ws(); } q.ok = q.ok && q.i == q.t.size();
    auto l = css::parse_relative_selector(s, ctx); vp_check((bool)l == q.ok, "the relative selectors are valid or not"); if (!q.ok) { vp_cover("invalid relative"); return; } vp_check(l.value().size() == q.l.size(), "number of relative selectors"); for (size_t i = 0; i < q.l.size(); i++) { auto& v = l.value()[i].value(); size_t n = v.size() != q.l[i].c.size() + q.l[i].j.size(); vp_check((n == 1) == (lead[i] != 0), "leading combinator or none"); vp_check(!n || (v[0].index() == 1 && std::get<1>(v[0]).type() == lead[i]), "leading combinator"); vp_check(joined(v, q.l[i], n), "structure of a relative selector"); } vp_cover("relative"); return; }
  bool one = r.ok, simple = r.ok; for (auto& c : r.l) { one = one && c.c.size() == 1; simple = simple && c.c.size() == 1 && (c.c[0].type ? 1 : 0) + c.c[0].s.size() == 1; }
  if (kind == 0) { auto l = css::parse_grammar<css::simple_selector_list>(S(s), ctx); vp_check((bool)l == simple, "the simple selectors are valid or not"); if (!simple) return; vp_check(l.value().size() == r.l.size(), "number of simple selectors"); for (size_t i = 0; i < r.l.size(); i++) { auto& v = l.value()[i].value(); comp& c = r.l[i].c[0]; vp_check(c.type ? v.index() == 1 && same(std::get<1>(v), c) : v.index() == 2 && same(std::get<2>(v), c.s[0]), "structure of a simple selector"); } matches(m, r, l, ctx); vp_cover("simple"); }
  else if (kind == 1) { auto l = css::parse_grammar<css::compound_selector_list>(S(s), ctx); vp_check((bool)l == one, "the compound selectors are valid or not"); if (!one) return; vp_check(l.value().size() == r.l.size(), "number of compound selectors"); for (size_t i = 0; i < r.l.size(); i++) vp_check(same(l.value()[i], r.l[i].c[0]), "structure of a compound selector"); matches(m, r, l, ctx); vp_cover("compound"); }
  else { auto l = css::parse_selector(s, ctx); vp_check((bool)l == r.ok, "the selectors are valid or not"); if (!r.ok) return; auto& z = l.value().value(); vp_check(z.size() == r.l.size(), "number of complex selectors"); for (size_t i = 0; i < r.l.size(); i++) vp_check(joined(z[i].value(), r.l[i], 0), "structure of a complex selector"); auto k = css::parse_grammar<css::complex_selector_list>(css::parse_list_of_component_values(S(s)), ctx); vp_check((bool)k, "valid from component values"); matches(m, r, k, ctx);
    auto w = css::parse_comma_list<css::complex_selector>(S(s), ctx); vp_check(w.size() == r.l.size(), "one selector for each part between commas"); for (size_t i = 0; i < w.size(); i++) vp_check((bool)w[i] && joined(w[i].value(), r.l[i], 0), "structure of a part"); vp_cover("complex"); } }
