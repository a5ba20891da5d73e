// Reference HTML tree builder, written from the HTML standard (13.2.6, scripting disabled, no fragment case) independently of the library: a sink of the
// reference tokenizer that keeps a plain node tree of its own.
#pragma once
#include "htmltok.h"
#include <initializer_list>
namespace rh {
#define RH_TAGS(X) X(a) X(address) X(applet) X(area) X(article) X(aside) X(b) X(base) X(basefont) X(bgsound) X(big) X(blockquote) X(body) X(br) X(button) X(caption) X(center) X(code) X(col) X(colgroup) X(dd) X(desc) X(details) X(dialog) X(dir) X(div) X(dl) X(dt) X(em) X(embed) X(fieldset) X(figcaption) X(figure) X(font) X(footer) X(foreignObject) X(form) X(frame) X(frameset) X(h1) X(h2) X(h3) X(h4) X(h5) X(h6) X(head) X(header) X(hgroup) X(hr) X(html) X(i) X(iframe) X(image) X(img) X(input) X(keygen) X(li) X(link) X(listing) X(main) X(malignmark) X(marquee) X(math) X(menu) X(meta) X(mglyph) X(mi) X(mn) X(mo) X(ms) X(mtext) X(nav) X(nobr) X(noembed) X(noframes) X(noscript) X(object) X(ol) X(optgroup) X(option) X(p) X(param) X(plaintext) X(pre) X(rb) X(rp) X(rt) X(rtc) X(ruby) X(s) X(script) X(section) X(select) X(small) X(source) X(span) X(strike) X(strong) X(style) X(sub) X(summary) X(sup) X(svg) X(table) X(tbody) X(td) X(template) X(textarea) X(tfoot) X(th) X(thead) X(title) X(tr) X(track) X(tt) X(u) X(ul) X(var) X(wbr) X(xmp)
enum T : unsigned char { t_other, t_annotation,
#define X(n) t_##n,
RH_TAGS(X)
#undef X
};
inline char const* const TN[] = { "", "annotation-xml",
#define X(n) #n,
RH_TAGS(X)
#undef X
};
inline bool eq(S const& s, char const* w) { size_t i = 0; for (; w[i]; i++) if (i >= s.size() || s[i] != (unsigned char)w[i]) return false; return i == s.size(); }
inline T tid(S const& n) { for (size_t i = 1; i < sizeof(TN) / sizeof(TN[0]); i++) if (eq(n, TN[i])) return (T)i; return t_other; }
inline S wide(char const* w) { S s; while (*w) s.push_back((unsigned char)*w++); return s; }
inline S lower(S s) { for (auto& c : s) c = low(c); return s; }
enum Ns { HTML, MATHML, SVG };
enum Kind { DOC, DTYPE, EL, TEXT, COMM };
struct Nt { int ns; S prefix, n, v; };   // attribute: ns 0 none, 1 xlink, 2 xml, 3 xmlns
struct N { Kind k; Ns ns = HTML; T t = t_other; S n; std::vector<Nt> a; S pub, sys; N* up = nullptr; std::vector<N*> kids; };
using TL = std::initializer_list<T>;
inline bool in(T t, TL l) { for (T x : l) if (x == t) return true; return false; }
inline char const* const SVGT[] = { "altGlyph", "altGlyphDef", "altGlyphItem", "animateColor", "animateMotion", "animateTransform", "clipPath", "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap", "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "foreignObject", "glyphRef", "linearGradient", "radialGradient", "textPath" };
inline char const* const SVGA[] = { "attributeName", "attributeType", "baseFrequency", "baseProfile", "calcMode", "clipPathUnits", "diffuseConstant", "edgeMode", "filterUnits", "glyphRef", "gradientTransform", "gradientUnits", "kernelMatrix", "kernelUnitLength", "keyPoints", "keySplines", "keyTimes", "lengthAdjust", "limitingConeAngle", "markerHeight", "markerUnits", "markerWidth", "maskContentUnits", "maskUnits", "numOctaves", "pathLength", "patternContentUnits", "patternTransform", "patternUnits", "pointsAtX", "pointsAtY", "pointsAtZ", "preserveAlpha", "preserveAspectRatio", "primitiveUnits", "refX", "refY", "repeatCount", "repeatDur", "requiredExtensions", "requiredFeatures", "specularConstant", "specularExponent", "spreadMethod", "startOffset", "stdDeviation", "stitchTiles", "surfaceScale", "systemLanguage", "tableValues", "targetX", "targetY", "textLength", "viewBox", "viewTarget", "xChannelSelector", "yChannelSelector", "zoomAndPan" };
inline struct { char const *q; int ns; char const *p, *n; } const FOREIGNA[] = { { "xlink:actuate", 1, "xlink", "actuate" }, { "xlink:arcrole", 1, "xlink", "arcrole" }, { "xlink:href", 1, "xlink", "href" }, { "xlink:role", 1, "xlink", "role" }, { "xlink:show", 1, "xlink", "show" }, { "xlink:title", 1, "xlink", "title" }, { "xlink:type", 1, "xlink", "type" }, { "xml:lang", 2, "xml", "lang" }, { "xml:space", 2, "xml", "space" }, { "xmlns", 3, "", "xmlns" }, { "xmlns:xlink", 3, "xmlns", "xlink" } };
inline char const* const QUIRKS[] = { "+//Silmaril//dtd html Pro v0r11 19970101//", "-//AS//DTD HTML 3.0 asWedit + extensions//", "-//AdvaSoft Ltd//DTD HTML 3.0 asWedit + extensions//", "-//IETF//DTD HTML 2.0 Level 1//", "-//IETF//DTD HTML 2.0 Level 2//", "-//IETF//DTD HTML 2.0 Strict Level 1//", "-//IETF//DTD HTML 2.0 Strict Level 2//", "-//IETF//DTD HTML 2.0 Strict//", "-//IETF//DTD HTML 2.0//", "-//IETF//DTD HTML 2.1E//", "-//IETF//DTD HTML 3.0//", "-//IETF//DTD HTML 3.2 Final//", "-//IETF//DTD HTML 3.2//", "-//IETF//DTD HTML 3//", "-//IETF//DTD HTML Level 0//", "-//IETF//DTD HTML Level 1//", "-//IETF//DTD HTML Level 2//", "-//IETF//DTD HTML Level 3//", "-//IETF//DTD HTML Strict Level 0//", "-//IETF//DTD HTML Strict Level 1//", "-//IETF//DTD HTML Strict Level 2//", "-//IETF//DTD HTML Strict Level 3//", "-//IETF//DTD HTML Strict//", "-//IETF//DTD HTML//", "-//Metrius//DTD Metrius Presentational//", "-//Microsoft//DTD Internet Explorer 2.0 HTML Strict//", "-//Microsoft//DTD Internet Explorer 2.0 HTML//", "-//Microsoft//DTD Internet Explorer 2.0 Tables//", "-//Microsoft//DTD Internet Explorer 3.0 HTML Strict//", "-//Microsoft//DTD Internet Explorer 3.0 HTML//", "-//Microsoft//DTD Internet Explorer 3.0 Tables//", "-//Netscape Comm. Corp.//DTD HTML//", "-//Netscape Comm. Corp.//DTD Strict HTML//", "-//O'Reilly and Associates//DTD HTML 2.0//", "-//O'Reilly and Associates//DTD HTML Extended 1.0//", "-//O'Reilly and Associates//DTD HTML Extended Relaxed 1.0//", "-//SQ//DTD HTML 2.0 HoTMetaL + extensions//", "-//SoftQuad Software//DTD HoTMetaL PRO 6.0::19990601::extensions to HTML 4.0//", "-//SoftQuad//DTD HoTMetaL PRO 4.0::19971010::extensions to HTML 4.0//", "-//Spyglass//DTD HTML 2.0 Extended//", "-//Sun Microsystems Corp.//DTD HotJava HTML//", "-//Sun Microsystems Corp.//DTD HotJava Strict HTML//", "-//W3C//DTD HTML 3 1995-03-24//", "-//W3C//DTD HTML 3.2 Draft//", "-//W3C//DTD HTML 3.2 Final//", "-//W3C//DTD HTML 3.2//", "-//W3C//DTD HTML 3.2S Draft//", "-//W3C//DTD HTML 4.0 Frameset//", "-//W3C//DTD HTML 4.0 Transitional//", "-//W3C//DTD HTML Experimental 19960712//", "-//W3C//DTD HTML Experimental 970421//", "-//W3C//DTD W3 HTML//", "-//W3O//DTD W3 HTML 3.0//", "-//WebTechs//DTD Mozilla HTML 2.0//", "-//WebTechs//DTD Mozilla HTML//" };
inline char const* const LQUIRKS[] = { "-//W3C//DTD XHTML 1.0 Frameset//", "-//W3C//DTD XHTML 1.0 Transitional//" };
inline char const* const SQUIRKS[] = { "-//W3C//DTD HTML 4.01 Frameset//", "-//W3C//DTD HTML 4.01 Transitional//" };   // limited with a system identifier, quirks without
inline bool starts(S const& s, char const* w) { size_t i = 0; for (; w[i]; i++) if (i >= s.size() || low(s[i]) != low((unsigned char)w[i])) return false; return true; }
inline bool whole(S const& s, char const* w) { return starts(s, w) && s.size() == wide(w).size(); }
inline int quirks(Tok const& t) {   // 0 no-quirks, 1 quirks, 2 limited-quirks
  if (t.q || !eq(t.n, "html") || whole(t.pub, "-//W3O//DTD W3 HTML Strict 3.0//EN//") || whole(t.pub, "-/W3C/DTD HTML 4.0 Transitional/EN") || whole(t.pub, "HTML") || whole(t.sys, "http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd")) return 1;
  for (auto q : QUIRKS) if (starts(t.pub, q)) return 1;
  for (auto q : SQUIRKS) if (starts(t.pub, q)) return t.hs ? 2 : 1;
  for (auto q : LQUIRKS) if (starts(t.pub, q)) return 2;
  return 0; }
enum M { M_initial, M_before_html, M_before_head, M_head, M_noscript, M_after_head, M_body, M_text, M_table, M_table_text, M_caption, M_colgroup, M_tbody, M_row, M_cell, M_select, M_select_table, M_template, M_after_body, M_frameset, M_after_frameset, M_aa_body, M_aa_frameset };
struct Tree : Sink {
  N* doc; int mode_doc = 0; Tz* z = nullptr; bool flip = false; M m = M_initial, om = M_initial; std::vector<N*> st, af; std::vector<M> tm; N *head = nullptr, *form = nullptr; bool fok = true, foster = false, skiplf = false, stopped = false; S pend; Tok* tk = nullptr; T t = t_other;
  Tree() { doc = new N{ DOC }; }
  virtual void meta() {}   // a meta element has been inserted
  bool foreign() override { return !st.empty() && (cur()->ns != HTML) != flip; }
  static N* el(Ns ns, S const& n) { N* e = new N{ EL }; e->ns = ns; e->n = n; e->t = tid(n); return e; }
  N* cur() const { return st.back(); }
  static bool h(N const* e, T t) { return e->ns == HTML && e->t == t; }
  static bool h(N const* e, TL l) { return e->ns == HTML && in(e->t, l); }
  bool cis(T x) const { return h(cur(), x); }
  // tree operations
  static size_t at(N* e) { auto& k = e->up->kids; size_t i = 0; while (k[i] != e) ++i; return i; }
  static void cut(N* e) { if (!e->up) return; e->up->kids.erase(e->up->kids.begin() + (std::ptrdiff_t)at(e)); e->up = nullptr; }
  struct Loc { N *up, *before; };
  static void put(Loc l, N* e) { cut(e); e->up = l.up; if (!l.before) l.up->kids.push_back(e); else l.up->kids.insert(l.up->kids.begin() + (std::ptrdiff_t)at(l.before), e); }
  static void add(N* p, N* e) { put({ p, nullptr }, e); }
  Loc place(N* target) const {
    if (!(foster && h(target, { t_table, t_tbody, t_tfoot, t_thead, t_tr }))) return { target, nullptr };
    long te = -1, ta = -1; for (size_t i = 0; i < st.size(); i++) { if (h(st[i], t_template)) te = (long)i; if (h(st[i], t_table)) ta = (long)i; }
    if (te >= 0 && te > ta) return { st[(size_t)te], nullptr };
    if (ta < 0) return { st[0], nullptr };
    N* x = st[(size_t)ta]; if (x->up) return { x->up, x };
    return { st[(size_t)ta - 1], nullptr }; }
  void text(char32_t c) { Loc l = place(cur()); if (l.up == doc) return; N* p = nullptr; if (l.before) { size_t i = at(l.before); if (i) p = l.up->kids[i - 1]; } else if (!l.up->kids.empty()) p = l.up->kids.back();
    if (!p || p->k != TEXT) { p = new N{ TEXT }; put(l, p); } p->n.push_back(c); }
  void comment(Loc l) { N* e = new N{ COMM }; e->n = tk->n; put(l, e); }
  void comment() { comment(place(cur())); }
  N* insert(N* e) { put(place(cur()), e); st.push_back(e); return e; }
  N* made(Ns ns, S const& n) { N* e = el(ns, n); for (auto& a : tk->a) e->a.push_back({ 0, S(), a.n, a.v }); return e; }
  N* insert() { return insert(made(HTML, tk->n)); }
  N* insert(T x) { return insert(el(HTML, wide(TN[x]))); }
  void pop() { st.pop_back(); }
  void popUntil(TL l) { while (!st.empty()) { N* e = cur(); pop(); if (h(e, l)) return; } }
  void popUntil(N* x) { while (!st.empty()) { N* e = cur(); pop(); if (e == x) return; } }
  // scopes
  static bool wall(N* e) { return h(e, { t_applet, t_caption, t_html, t_table, t_td, t_th, t_marquee, t_object, t_template }) || (e->ns == MATHML && in(e->t, { t_mi, t_mo, t_mn, t_ms, t_mtext, t_annotation })) || (e->ns == SVG && in(e->t, { t_foreignObject, t_desc, t_title })); }
  enum Sc { DEF, LIST, BUTTON, TABLE, SELECT };
  static bool stops(Sc s, N* e) { switch (s) { case LIST: return wall(e) || h(e, { t_ol, t_ul }); case BUTTON: return wall(e) || h(e, t_button); case TABLE: return h(e, { t_html, t_table, t_template }); case SELECT: return !h(e, { t_optgroup, t_option }); default: return wall(e); } }
  bool scope(Sc s, TL l) const { for (size_t i = st.size(); i-- > 0;) { if (h(st[i], l)) return true; if (stops(s, st[i])) return false; } return false; }
  bool scope(Sc s, N* x) const { for (size_t i = st.size(); i-- > 0;) { if (st[i] == x) return true; if (stops(s, st[i])) return false; } return false; }
  bool named(N* e) const { return e->ns == HTML && e->t == t && (t != t_other || ref::same(e->n, tk->n)); }
  bool open(N* x) const { for (N* e : st) if (e == x) return true; return false; }
  bool tmpl() const { for (N* e : st) if (h(e, t_template)) return true; return false; }
  void unstack(N* x) { for (size_t i = 0; i < st.size(); i++) if (st[i] == x) { st.erase(st.begin() + (std::ptrdiff_t)i); return; } }
  static bool special(N* e) {
    if (e->ns == MATHML) return in(e->t, { t_mi, t_mo, t_mn, t_ms, t_mtext, t_annotation });
    if (e->ns == SVG) return in(e->t, { t_foreignObject, t_desc, t_title });
    return in(e->t, { t_address, t_applet, t_area, t_article, t_aside, t_base, t_basefont, t_bgsound, t_blockquote, t_body, t_br, t_button, t_caption, t_center, t_col, t_colgroup, t_dd, t_details, t_dir, t_div, t_dl, t_dt, t_embed, t_fieldset, t_figcaption, t_figure, t_footer, t_form, t_frame, t_frameset, t_h1, t_h2, t_h3, t_h4, t_h5, t_h6, t_head, t_header, t_hgroup, t_hr, t_html, t_iframe, t_img, t_input, t_keygen, t_li, t_link, t_listing, t_main, t_marquee, t_menu, t_meta, t_nav, t_noembed, t_noframes, t_noscript, t_object, t_ol, t_p, t_param, t_plaintext, t_pre, t_script, t_section, t_select, t_source, t_style, t_summary, t_table, t_tbody, t_td, t_template, t_textarea, t_tfoot, t_th, t_thead, t_title, t_tr, t_track, t_ul, t_wbr, t_xmp }); }
  void imply(N* but = nullptr, T bt = t_other) { for (;;) { N* e = cur(); if (!h(e, { t_dd, t_dt, t_li, t_optgroup, t_option, t_p, t_rb, t_rp, t_rt, t_rtc })) return; if (e == but || (bt != t_other && e->t == bt)) return; pop(); } }
  void implyAll() { while (h(cur(), { t_caption, t_colgroup, t_dd, t_dt, t_li, t_optgroup, t_option, t_p, t_rb, t_rp, t_rt, t_rtc, t_tbody, t_td, t_tfoot, t_th, t_thead, t_tr })) pop(); }
  // active formatting elements: a null pointer is a marker
  static bool sameAttrs(N* a, N* b) { if (a->a.size() != b->a.size()) return false; for (auto& x : a->a) { bool f = false; for (auto& y : b->a) f |= x.ns == y.ns && x.n == y.n && x.v == y.v; if (!f) return false; } return true; }
  void activate(N* e) { size_t n = 0, first = 0; for (size_t i = af.size(); i-- > 0 && af[i];) if (af[i]->t == e->t && af[i]->n == e->n && sameAttrs(af[i], e)) { ++n; first = i; } if (n >= 3) af.erase(af.begin() + (std::ptrdiff_t)first); af.push_back(e); }
  void unlist(N* x) { for (size_t i = 0; i < af.size(); i++) if (af[i] == x) { af.erase(af.begin() + (std::ptrdiff_t)i); return; } }
  bool listed(N* x) const { for (N* e : af) if (e == x) return true; return false; }
  void clearList() { while (!af.empty()) { N* e = af.back(); af.pop_back(); if (!e) return; } }
  static N* again(N* e) { N* r = el(HTML, e->n); r->a = e->a; return r; }
  void rebuild() { size_t i = af.size(); while (i > 0 && af[i - 1] && !open(af[i - 1])) --i; for (; i < af.size(); i++) af[i] = insert(again(af[i])); }
  N* active(T x) const { for (size_t i = af.size(); i-- > 0 && af[i];) if (af[i]->t == x) return af[i]; return nullptr; }
  // adoption agency; false: the caller acts as for any other end tag
  bool adopt() {
    if (cur()->ns == HTML && named(cur()) && !listed(cur())) { pop(); return true; }
    for (int outer = 0; outer < 8; outer++) {
      N* f = active(t); if (!f) return false;
      if (!open(f)) { unlist(f); return true; }
      if (!scope(DEF, f)) return true;
      size_t fi = 0; while (st[fi] != f) ++fi;
      size_t bi = fi + 1; while (bi < st.size() && !special(st[bi])) ++bi;
      if (bi == st.size()) { popUntil(f); unlist(f); return true; }
      N *b = st[bi], *anc = st[fi - 1], *last = b, *mark = f; bool after = false;
      size_t ni = bi; for (int inner = 1;; inner++) { --ni; N* n = st[ni]; if (n == f) break;
        if (inner > 3) unlist(n);
        if (!listed(n)) { st.erase(st.begin() + (std::ptrdiff_t)ni); continue; }
        N* c = again(n); for (auto& x : af) if (x == n) x = c; st[ni] = c; if (mark == n) mark = c;
        if (last == b) { mark = c; after = true; }
        add(c, last); last = c; }
      put(place(anc), last);
      N* c = again(f); while (!b->kids.empty()) add(c, b->kids[0]); add(b, c);
      size_t mi = 0; while (af[mi] != mark) ++mi; af.insert(af.begin() + (std::ptrdiff_t)(mi + after), c); unlist(f);
      unstack(f); size_t k = 0; while (st[k] != b) ++k; st.insert(st.begin() + (std::ptrdiff_t)k + 1, c); }
    return true; }
  void closeP() { if (scope(BUTTON, { t_p })) { imply(nullptr, t_p); popUntil({ t_p }); } }
  void reset() {
    for (size_t i = st.size(); i-- > 0;) { N* e = st[i]; if (e->ns != HTML) continue; switch (e->t) {
      case t_select: { for (size_t j = i; j-- > 1;) { if (h(st[j], t_template)) break; if (h(st[j], t_table)) { m = M_select_table; return; } } m = M_select; return; }
      case t_td: case t_th: if (i) { m = M_cell; return; } break;
      case t_tr: m = M_row; return; case t_tbody: case t_thead: case t_tfoot: m = M_tbody; return; case t_caption: m = M_caption; return; case t_colgroup: m = M_colgroup; return; case t_table: m = M_table; return;
      case t_template: m = tm.back(); return; case t_head: if (i) { m = M_head; return; } break; case t_body: m = M_body; return; case t_frameset: m = M_frameset; return;
      case t_html: m = head ? M_after_head : M_before_head; return; default: break; } }
    m = M_body; }
  void raw(Mode x) { insert(); z->m = x; om = m; m = M_text; }
  void merge(N* e) { for (auto& a : tk->a) { bool f = false; for (auto& x : e->a) f |= x.ns == 0 && ref::same(x.n, a.n); if (!f) e->a.push_back({ 0, S(), a.n, a.v }); } }
  // dispatch
  static bool mip(N* e) { return e->ns == MATHML && in(e->t, { t_mi, t_mo, t_mn, t_ms, t_mtext }); }
  static bool hip(N* e) { if (e->ns == SVG) return in(e->t, { t_foreignObject, t_desc, t_title }); if (e->ns == MATHML && e->t == t_annotation) for (auto& a : e->a) if (eq(a.n, "encoding")) return whole(a.v, "text/html") || whole(a.v, "application/xhtml+xml"); return false; }
  bool ws() const { return tk->k == CH && (sp(tk->n[0]) || tk->n[0] == 13); }
  bool nulc() const { return tk->k == CH && tk->n[0] == 0; }
  bool is(K k, TL l) const { return tk->k == k && in(t, l); }
  void on(Tok& k) override { tk = &k; t = k.k == ST || k.k == ET ? tid(k.n) : t_other; if (skiplf) { skiplf = false; if (k.k == CH && k.n[0] == 10) return; } go(); }
  void go() { if (stopped) return;
    if (!st.empty()) { N* e = cur(); if (e->ns != HTML && tk->k != EO && !(mip(e) && ((tk->k == ST && !in(t, { t_mglyph, t_malignmark })) || tk->k == CH)) && !(e->ns == MATHML && e->t == t_annotation && is(ST, { t_svg })) && !(hip(e) && (tk->k == ST || tk->k == CH))) return outside(); }
    by(m); }
  void go(M x) { m = x; go(); }
  void by(M x) { switch (x) {
    case M_initial: return initial(); case M_before_html: return before_html(); case M_before_head: return before_head(); case M_head: return in_head(); case M_noscript: return in_noscript(); case M_after_head: return after_head(); case M_body: return in_body(); case M_text: return in_text(); case M_table: return in_table(); case M_table_text: return in_table_text(); case M_caption: return in_caption(); case M_colgroup: return in_colgroup(); case M_tbody: return in_tbody(); case M_row: return in_row(); case M_cell: return in_cell(); case M_select: return in_select(); case M_select_table: return in_select_table(); case M_template: return in_template(); case M_after_body: return after_body(); case M_frameset: return in_frameset(); case M_after_frameset: return after_frameset(); case M_aa_body: return aa_body(); case M_aa_frameset: return aa_frameset(); } }
  void initial() { if (ws()) return; if (tk->k == CM) return comment({ doc, nullptr });
    if (tk->k == DT) { N* e = new N{ DTYPE }; e->n = tk->n; e->pub = tk->pub; e->sys = tk->sys; add(doc, e); mode_doc = quirks(*tk); m = M_before_html; return; }
    mode_doc = 1; go(M_before_html); }
  void before_html() { if (tk->k == DT || ws()) return; if (tk->k == CM) return comment({ doc, nullptr });
    if (is(ST, { t_html })) { N* e = made(HTML, tk->n); add(doc, e); st.push_back(e); m = M_before_head; return; }
    if (tk->k == ET && !in(t, { t_head, t_body, t_html, t_br })) return;
    N* e = el(HTML, U"html"); add(doc, e); st.push_back(e); go(M_before_head); }
  void before_head() { if (ws() || tk->k == DT) return; if (tk->k == CM) return comment(); if (is(ST, { t_html })) return in_body();
    if (is(ST, { t_head })) { head = insert(); m = M_head; return; }
    if (tk->k == ET && !in(t, { t_head, t_body, t_html, t_br })) return;
    head = insert(t_head); go(M_head); }
  void in_head() { if (ws()) return text(tk->n[0]); if (tk->k == CM) return comment(); if (tk->k == DT) return; if (is(ST, { t_html })) return in_body();
    if (tk->k == ST) switch (t) {
      case t_base: case t_basefont: case t_bgsound: case t_link: case t_meta: insert(); pop(); if (t == t_meta) meta(); return;
      case t_title: return raw(RCDATA);
      case t_noscript: insert(); m = M_noscript; return;
      case t_noframes: case t_style: return raw(RAWTEXT);
      case t_script: return raw(SCRIPT);
      case t_template: insert(); af.push_back(nullptr); fok = false; m = M_template; tm.push_back(M_template); return;
      case t_head: return; default: break; }
    if (tk->k == ET) switch (t) {
      case t_head: pop(); m = M_after_head; return;
      case t_template: if (!tmpl()) return; implyAll(); popUntil({ t_template }); clearList(); tm.pop_back(); reset(); return;
      case t_body: case t_html: case t_br: break; default: return; }
    pop(); go(M_after_head); }
  void in_noscript() { if (tk->k == DT) return; if (is(ST, { t_html })) return in_body(); if (is(ET, { t_noscript })) { pop(); m = M_head; return; }
    if (ws() || tk->k == CM || is(ST, { t_basefont, t_bgsound, t_link, t_meta, t_noframes, t_style })) return in_head();
    if (is(ST, { t_head, t_noscript }) || (tk->k == ET && t != t_br)) return;
    pop(); go(M_head); }
  void after_head() { if (ws()) return text(tk->n[0]); if (tk->k == CM) return comment(); if (tk->k == DT) return; if (is(ST, { t_html })) return in_body();
    if (is(ST, { t_body })) { insert(); fok = false; m = M_body; return; }
    if (is(ST, { t_frameset })) { insert(); m = M_frameset; return; }
    if (is(ST, { t_base, t_basefont, t_bgsound, t_link, t_meta, t_noframes, t_script, t_style, t_template, t_title })) { st.push_back(head); in_head(); unstack(head); return; }
    if (is(ET, { t_template })) return in_head();
    if (is(ST, { t_head }) || (tk->k == ET && !in(t, { t_body, t_html, t_br }))) return;
    insert(t_body); go(M_body); }
  void otherEnd() { for (size_t i = st.size(); i-- > 0;) { N* e = st[i]; if (named(e)) { imply(e); popUntil(e); return; } if (special(e)) return; } }
  void in_body() { switch (tk->k) {
    case CH: if (nulc()) return; rebuild(); text(tk->n[0]); if (!ws()) fok = false; return;
    case CM: return comment(); case DT: return; case EO: if (!tm.empty()) return in_template(); stopped = true; return;
    case ST: switch (t) {
      case t_html: if (!tmpl()) merge(st[0]); return;
      case t_base: case t_basefont: case t_bgsound: case t_link: case t_meta: case t_noframes: case t_script: case t_style: case t_template: case t_title: return in_head();
      case t_body: if (st.size() < 2 || !h(st[1], t_body) || tmpl()) return; fok = false; merge(st[1]); return;
      case t_frameset: if (st.size() < 2 || !h(st[1], t_body) || !fok) return; cut(st[1]); st.resize(1); insert(); m = M_frameset; return;
      case t_address: case t_article: case t_aside: case t_blockquote: case t_center: case t_details: case t_dialog: case t_dir: case t_div: case t_dl: case t_fieldset: case t_figcaption: case t_figure: case t_footer: case t_header: case t_hgroup: case t_main: case t_menu: case t_nav: case t_ol: case t_p: case t_section: case t_summary: case t_ul: closeP(); insert(); return;
      case t_h1: case t_h2: case t_h3: case t_h4: case t_h5: case t_h6: closeP(); if (h(cur(), { t_h1, t_h2, t_h3, t_h4, t_h5, t_h6 })) pop(); insert(); return;
      case t_pre: case t_listing: closeP(); insert(); skiplf = true; fok = false; return;
      case t_form: { bool x = tmpl(); if (form && !x) return; closeP(); N* e = insert(); if (!x) form = e; return; }
      case t_li: case t_dd: case t_dt: fok = false; for (size_t i = st.size(); i-- > 0;) { N* e = st[i]; if (t == t_li ? h(e, t_li) : h(e, { t_dd, t_dt })) { T x = e->t; imply(nullptr, x); popUntil({ x }); break; } if (special(e) && !h(e, { t_address, t_div, t_p })) break; } closeP(); insert(); return;
      case t_plaintext: closeP(); insert(); z->m = PLAIN; return;
      case t_button: if (scope(DEF, { t_button })) { imply(); popUntil({ t_button }); } rebuild(); insert(); fok = false; return;
      case t_a: if (N* e = active(t_a)) { adopt(); unlist(e); unstack(e); } rebuild(); activate(insert()); return;
      case t_b: case t_big: case t_code: case t_em: case t_font: case t_i: case t_s: case t_small: case t_strike: case t_strong: case t_tt: case t_u: rebuild(); activate(insert()); return;
      case t_nobr: rebuild(); if (scope(DEF, { t_nobr })) { if (!adopt()) otherEnd(); rebuild(); } activate(insert()); return;
      case t_applet: case t_marquee: case t_object: rebuild(); insert(); af.push_back(nullptr); fok = false; return;
      case t_table: if (mode_doc != 1) closeP(); insert(); fok = false; m = M_table; return;
      case t_area: case t_br: case t_embed: case t_img: case t_keygen: case t_wbr: rebuild(); insert(); pop(); fok = false; return;
      case t_input: rebuild(); insert(); pop(); if (!hidden()) fok = false; return;
      case t_param: case t_source: case t_track: insert(); pop(); return;
      case t_hr: closeP(); insert(); pop(); fok = false; return;
      case t_image: tk->n = U"img"; t = t_img; return go();
      case t_textarea: insert(); skiplf = true; z->m = RCDATA; om = m; fok = false; m = M_text; return;
      case t_xmp: closeP(); rebuild(); fok = false; return raw(RAWTEXT);
      case t_iframe: fok = false; return raw(RAWTEXT);
      case t_noembed: return raw(RAWTEXT);
      case t_select: rebuild(); insert(); fok = false; m = m == M_table || m == M_caption || m == M_tbody || m == M_row || m == M_cell ? M_select_table : M_select; return;
      case t_optgroup: case t_option: if (cis(t_option)) pop(); rebuild(); insert(); return;
      case t_rb: case t_rtc: if (scope(DEF, { t_ruby })) imply(); insert(); return;
      case t_rp: case t_rt: if (scope(DEF, { t_ruby })) imply(nullptr, t_rtc); insert(); return;
      case t_math: case t_svg: rebuild(); alien(t == t_svg ? SVG : MATHML); return;
      case t_caption: case t_col: case t_colgroup: case t_frame: case t_head: case t_tbody: case t_td: case t_tfoot: case t_th: case t_thead: case t_tr: return;
      default: rebuild(); insert(); return; }
    case ET: switch (t) {
      case t_template: return in_head();
      case t_body: case t_html: if (!scope(DEF, { t_body })) return; m = M_after_body; if (t == t_html) go(); return;
      case t_address: case t_article: case t_aside: case t_blockquote: case t_button: case t_center: case t_details: case t_dialog: case t_dir: case t_div: case t_dl: case t_fieldset: case t_figcaption: case t_figure: case t_footer: case t_header: case t_hgroup: case t_listing: case t_main: case t_menu: case t_nav: case t_ol: case t_pre: case t_section: case t_summary: case t_ul: if (!scope(DEF, { t })) return; imply(); popUntil({ t }); return;
      case t_form: if (!tmpl()) { N* e = form; form = nullptr; if (!e || !scope(DEF, e)) return; imply(); unstack(e); return; } if (!scope(DEF, { t_form })) return; imply(); popUntil({ t_form }); return;
      case t_p: if (!scope(BUTTON, { t_p })) insert(t_p); closeP(); return;
      case t_li: if (!scope(LIST, { t_li })) return; imply(nullptr, t_li); popUntil({ t_li }); return;
      case t_dd: case t_dt: if (!scope(DEF, { t })) return; imply(nullptr, t); popUntil({ t }); return;
      case t_h1: case t_h2: case t_h3: case t_h4: case t_h5: case t_h6: if (!scope(DEF, { t_h1, t_h2, t_h3, t_h4, t_h5, t_h6 })) return; imply(); popUntil({ t_h1, t_h2, t_h3, t_h4, t_h5, t_h6 }); return;
      case t_a: case t_b: case t_big: case t_code: case t_em: case t_font: case t_i: case t_nobr: case t_s: case t_small: case t_strike: case t_strong: case t_tt: case t_u: if (!adopt()) otherEnd(); return;
      case t_applet: case t_marquee: case t_object: if (!scope(DEF, { t })) return; imply(); popUntil({ t }); clearList(); return;
      case t_br: rebuild(); insert(t_br); pop(); fok = false; return;
      default: return otherEnd(); } } }
  bool hidden() const { for (auto& a : tk->a) if (eq(a.n, "type")) return whole(a.v, "hidden"); return false; }
  void in_text() { if (tk->k == CH) return text(tk->n[0]); pop(); m = om; if (tk->k == EO) go(); }
  void clearTo(TL l) { while (!h(cur(), l)) pop(); }
  void clearTable() { clearTo({ t_table, t_template, t_html }); }
  void clearBody() { clearTo({ t_tbody, t_tfoot, t_thead, t_template, t_html }); }
  void clearRow() { clearTo({ t_tr, t_template, t_html }); }
  void fostered() { foster = true; in_body(); foster = false; }
  void in_table() {
    if (tk->k == CH && h(cur(), { t_table, t_tbody, t_tfoot, t_thead, t_tr })) { pend.clear(); om = m; return go(M_table_text); }
    if (tk->k == CM) return comment(); if (tk->k == DT) return; if (tk->k == EO) return in_body();
    if (tk->k == ST) switch (t) {
      case t_caption: clearTable(); af.push_back(nullptr); insert(); m = M_caption; return;
      case t_colgroup: clearTable(); insert(); m = M_colgroup; return;
      case t_col: clearTable(); insert(t_colgroup); return go(M_colgroup);
      case t_tbody: case t_tfoot: case t_thead: clearTable(); insert(); m = M_tbody; return;
      case t_td: case t_th: case t_tr: clearTable(); insert(t_tbody); return go(M_tbody);
      case t_table: if (!scope(TABLE, { t_table })) return; popUntil({ t_table }); reset(); return go();
      case t_style: case t_script: case t_template: return in_head();
      case t_input: if (!hidden()) break; insert(); pop(); return;
      case t_form: if (tmpl() || form) return; form = insert(); pop(); return;
      default: break; }
    if (tk->k == ET) switch (t) {
      case t_table: if (!scope(TABLE, { t_table })) return; popUntil({ t_table }); reset(); return;
      case t_body: case t_caption: case t_col: case t_colgroup: case t_html: case t_tbody: case t_td: case t_tfoot: case t_th: case t_thead: case t_tr: return;
      case t_template: return in_head(); default: break; }
    fostered(); }
  void in_table_text() { if (nulc()) return; if (tk->k == CH) { pend.push_back(tk->n[0]); return; }
    Tok *k = tk; T kt = t; bool all = true; for (char32_t c : pend) all &= sp(c) || c == 13; S s = pend; pend.clear();
    for (char32_t c : s) { Tok x{ CH }; x.n.push_back(c); tk = &x; t = t_other; if (all) text(c); else fostered(); } tk = k; t = kt; go(om); }
  bool closeCaption() { if (!scope(TABLE, { t_caption })) return false; imply(); popUntil({ t_caption }); clearList(); m = M_table; return true; }
  void in_caption() { if (is(ET, { t_caption })) { closeCaption(); return; }
    if (is(ST, { t_caption, t_col, t_colgroup, t_tbody, t_td, t_tfoot, t_th, t_thead, t_tr }) || is(ET, { t_table })) { if (closeCaption()) go(); return; }
    if (is(ET, { t_body, t_col, t_colgroup, t_html, t_tbody, t_td, t_tfoot, t_th, t_thead, t_tr })) return; in_body(); }
  void in_colgroup() { if (ws()) return text(tk->n[0]); if (tk->k == CM) return comment(); if (tk->k == DT) return; if (is(ST, { t_html }) || tk->k == EO) return in_body();
    if (is(ST, { t_col })) { insert(); pop(); return; } if (is(ET, { t_col })) return; if (is(ST, { t_template }) || is(ET, { t_template })) return in_head();
    if (!cis(t_colgroup)) return; pop(); m = M_table; if (!is(ET, { t_colgroup })) go(); }
  void in_tbody() {
    if (is(ST, { t_tr })) { clearBody(); insert(); m = M_row; return; }
    if (is(ST, { t_th, t_td })) { clearBody(); insert(t_tr); return go(M_row); }
    if (is(ET, { t_tbody, t_tfoot, t_thead })) { if (!scope(TABLE, { t })) return; clearBody(); pop(); m = M_table; return; }
    if (is(ST, { t_caption, t_col, t_colgroup, t_tbody, t_tfoot, t_thead }) || is(ET, { t_table })) { if (!scope(TABLE, { t_tbody, t_tfoot, t_thead })) return; clearBody(); pop(); return go(M_table); }
    if (is(ET, { t_body, t_caption, t_col, t_colgroup, t_html, t_td, t_th, t_tr })) return; in_table(); }
  void in_row() {
    if (is(ST, { t_th, t_td })) { clearRow(); insert(); m = M_cell; af.push_back(nullptr); return; }
    if (is(ET, { t_tr })) { if (!scope(TABLE, { t_tr })) return; clearRow(); pop(); m = M_tbody; return; }
    if (is(ST, { t_caption, t_col, t_colgroup, t_tbody, t_tfoot, t_thead, t_tr }) || is(ET, { t_table })) { if (!scope(TABLE, { t_tr })) return; clearRow(); pop(); return go(M_tbody); }
    if (is(ET, { t_tbody, t_tfoot, t_thead })) { if (!scope(TABLE, { t }) || !scope(TABLE, { t_tr })) return; clearRow(); pop(); return go(M_tbody); }
    if (is(ET, { t_body, t_caption, t_col, t_colgroup, t_html, t_td, t_th })) return; in_table(); }
  void closeCell(TL l) { imply(); popUntil(l); clearList(); m = M_row; }
  void in_cell() {
    if (is(ET, { t_td, t_th })) { if (scope(TABLE, { t })) closeCell({ t }); return; }
    if (is(ST, { t_caption, t_col, t_colgroup, t_tbody, t_td, t_tfoot, t_th, t_thead, t_tr })) { if (!scope(TABLE, { t_td, t_th })) return; closeCell({ t_td, t_th }); return go(); }
    if (is(ET, { t_body, t_caption, t_col, t_colgroup, t_html })) return;
    if (is(ET, { t_table, t_tbody, t_tfoot, t_thead, t_tr })) { if (!scope(TABLE, { t })) return; closeCell({ t_td, t_th }); return go(); }
    in_body(); }
  void in_select() { if (nulc()) return; if (tk->k == CH) return text(tk->n[0]); if (tk->k == CM) return comment(); if (tk->k == DT) return; if (is(ST, { t_html }) || tk->k == EO) return in_body();
    if (tk->k == ST) switch (t) {
      case t_option: if (cis(t_option)) pop(); insert(); return;
      case t_optgroup: if (cis(t_option)) pop(); if (cis(t_optgroup)) pop(); insert(); return;
      case t_select: if (!scope(SELECT, { t_select })) return; popUntil({ t_select }); reset(); return;
      case t_input: case t_keygen: case t_textarea: if (!scope(SELECT, { t_select })) return; popUntil({ t_select }); reset(); return go();
      case t_script: case t_template: return in_head(); default: return; }
    switch (t) {
      case t_optgroup: if (cis(t_option) && st.size() > 1 && h(st[st.size() - 2], t_optgroup)) pop(); if (cis(t_optgroup)) pop(); return;
      case t_option: if (cis(t_option)) pop(); return;
      case t_select: if (!scope(SELECT, { t_select })) return; popUntil({ t_select }); reset(); return;
      case t_template: return in_head(); default: return; } }
  void in_select_table() { if (tk->k != CH && tk->k != CM && in(t, { t_caption, t_table, t_tbody, t_tfoot, t_thead, t_tr, t_td, t_th })) { if (tk->k == ET && !scope(TABLE, { t })) return; popUntil({ t_select }); reset(); return go(); } in_select(); }
  void in_template() {
    if (tk->k == CH || tk->k == CM || tk->k == DT) return in_body();
    if (is(ST, { t_base, t_basefont, t_bgsound, t_link, t_meta, t_noframes, t_script, t_style, t_template, t_title }) || is(ET, { t_template })) return in_head();
    if (tk->k == ST) { M x = M_body; switch (t) { case t_caption: case t_colgroup: case t_tbody: case t_tfoot: case t_thead: x = M_table; break; case t_col: x = M_colgroup; break; case t_tr: x = M_tbody; break; case t_td: case t_th: x = M_row; break; default: break; } tm.back() = x; return go(x); }
    if (tk->k == ET) return;
    if (!tmpl()) { stopped = true; return; } popUntil({ t_template }); clearList(); tm.pop_back(); reset(); go(); }
  void after_body() { if (ws() || is(ST, { t_html })) return in_body(); if (tk->k == CM) return comment({ st[0], nullptr }); if (tk->k == DT) return; if (is(ET, { t_html })) { m = M_aa_body; return; } if (tk->k == EO) { stopped = true; return; } go(M_body); }
  void in_frameset() { if (ws()) return text(tk->n[0]); if (tk->k == CM) return comment(); if (is(ST, { t_html })) return in_body(); if (is(ST, { t_frameset })) { insert(); return; }
    if (is(ET, { t_frameset })) { if (st.size() == 1) return; pop(); if (!cis(t_frameset)) m = M_after_frameset; return; } if (is(ST, { t_frame })) { insert(); pop(); return; } if (is(ST, { t_noframes })) return in_head(); if (tk->k == EO) stopped = true; }
  void after_frameset() { if (ws()) return text(tk->n[0]); if (tk->k == CM) return comment(); if (is(ST, { t_html })) return in_body(); if (is(ET, { t_html })) { m = M_aa_frameset; return; } if (is(ST, { t_noframes })) return in_head(); if (tk->k == EO) stopped = true; }
  void aa_body() { if (tk->k == CM) return comment({ doc, nullptr }); if (tk->k == DT || ws() || is(ST, { t_html })) return in_body(); if (tk->k == EO) { stopped = true; return; } go(M_body); }
  void aa_frameset() { if (tk->k == CM) return comment({ doc, nullptr }); if (tk->k == DT || ws() || is(ST, { t_html })) return in_body(); if (tk->k == EO) stopped = true; else if (is(ST, { t_noframes })) in_head(); }
  // foreign content
  void alien(Ns ns) {
    S n = tk->n; if (ns == SVG) for (auto w : SVGT) { S c = wide(w); if (lower(c) == n) { n = c; break; } }
    N* e = made(ns, n); for (auto& a : e->a) { if (ns == MATHML) { if (eq(a.n, "definitionurl")) a.n = U"definitionURL"; } else for (auto w : SVGA) { S c = wide(w); if (lower(c) == a.n) { a.n = c; break; } } for (auto& f : FOREIGNA) if (eq(a.n, f.q)) { a.ns = f.ns; a.prefix = wide(f.p); a.n = wide(f.n); break; } }
    insert(e); if (tk->self) pop(); }
  bool leaves() const {
    if (tk->k != ST) return is(ET, { t_br, t_p });
    if (t == t_font) { for (auto& a : tk->a) if (eq(a.n, "color") || eq(a.n, "face") || eq(a.n, "size")) return true; return false; }
    return in(t, { t_b, t_big, t_blockquote, t_body, t_br, t_center, t_code, t_dd, t_div, t_dl, t_dt, t_em, t_embed, t_h1, t_h2, t_h3, t_h4, t_h5, t_h6, t_head, t_hr, t_i, t_img, t_li, t_listing, t_menu, t_meta, t_nobr, t_ol, t_p, t_pre, t_ruby, t_s, t_small, t_span, t_strong, t_strike, t_sub, t_sup, t_table, t_tt, t_u, t_ul, t_var }); }
  void outside() {
    if (tk->k == CH) { if (!nulc() && !ws()) fok = false; return text(nulc() ? 0xFFFD : tk->n[0]); } if (tk->k == CM) return comment(); if (tk->k == DT) return;
    if (leaves()) { do pop(); while (!(cur()->ns == HTML || mip(cur()) || hip(cur()))); return go(); }
    if (tk->k == ST) return alien(cur()->ns);
    for (size_t i = st.size() - 1; i > 0; --i) { N* e = st[i]; if (i + 1 < st.size() && e->ns == HTML) return by(m); if (ref::same(lower(e->n), tk->n)) { popUntil(e); return; } } }
};
inline void build(Tree& t, S const& s) { Tz z; z.in = normal(s); z.out = &t; t.z = &z; z.run(); t.z = nullptr; }
}
