// Reference HTML tokenizer, written from the HTML standard (13.2.5) independently of the library: it scans ahead in the whole input instead of running the
// standard's state machine, so it shares no structure with the code it is compared with.
#pragma once
#include "util.h"
namespace rh {
using S = std::u32string; using std::size_t;
struct Ent { char32_t const* n; char32_t a, b; };
inline Ent const ENT[] = {
#include "entities.inc"
};
inline constexpr size_t NENT = sizeof(ENT) / sizeof(ENT[0]);
enum K { DT, ST, ET, CM, CH, EO };
struct At { S n, v; };
struct Tok { K k; S n; std::vector<At> a; bool self = false; S pub, sys; bool hp = false, hs = false, q = false; };   // n: name, comment data or the character
enum Mode { DATA, RCDATA, RAWTEXT, SCRIPT, PLAIN, CDATA };
inline bool up(char32_t c) { return (c >= U'A') & (c <= U'Z'); }
inline bool al(char32_t c) { return up(c) | ((c >= U'a') & (c <= U'z')); }
inline bool dg(char32_t c) { return (c >= U'0') & (c <= U'9'); }
inline bool sp(char32_t c) { return (c == 9) | (c == 10) | (c == 12) | (c == 32); }
inline char32_t low(char32_t c) { return up(c) ? c + 32 : c; }
inline char32_t nul(char32_t c) { return c ? c : 0xFFFD; }
inline bool hexd(char32_t c) { return dg(c) | ((c >= U'a') & (c <= U'f')) | ((c >= U'A') & (c <= U'F')); }
// newlines of the input stream
inline S normal(S const& s) { S r; for (size_t i = 0; i < s.size(); i++) if (s[i] == 13) { r.push_back(10); if (i + 1 < s.size() && s[i + 1] == 10) ++i; } else r.push_back(s[i]); return r; }
inline char32_t coded(unsigned long v) {
  static unsigned short const W[32] = { 0x20AC, 0, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0, 0x017D, 0, 0, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0, 0x017E, 0x0178 };
  if (v == 0 || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) return 0xFFFD;
  if (v >= 0x80 && v < 0xA0 && W[v - 0x80]) return W[v - 0x80];
  return (char32_t)v; }
struct Sink { virtual void on(Tok& t) = 0; virtual bool foreign() { return false; } virtual ~Sink() {} };
struct Tz {
  S in; size_t p = 0; Mode m = DATA; S last; Sink* out; bool done = false;
  bool more() const { return p < in.size(); }
  char32_t at(size_t i) const { return i < in.size() ? in[i] : 0xFFFFFFFF; }                 // 0xFFFFFFFF: end of file
  void ch(char32_t c) { Tok t{ CH }; t.n.push_back(c); out->on(t); }
  void chs(S const& s) { for (char32_t c : s) ch(c); }
  void eof() { Tok t{ EO }; done = true; out->on(t); }
  bool lit(size_t i, char32_t const* w, bool ci) const { for (; *w; ++w, ++i) { if (i >= in.size()) return false; char32_t c = ci ? low(in[i]) : in[i]; if (c != *w) return false; } return true; }
  // p stands after '&': appends what the reference stands for (or '&' and what was read of it)
  void charref(S& o, bool attr) {
    if (at(p) == U'#') {
      size_t q = p + 1; bool hx = at(q) == U'x' || at(q) == U'X'; if (hx) ++q;
      size_t b = q; unsigned long v = 0;
      while (q < in.size() && (hx ? hexd(in[q]) : dg(in[q]))) { char32_t c = in[q]; unsigned d = dg(c) ? c - U'0' : (c | 32) - U'a' + 10; v = v * (hx ? 16 : 10) + d; if (v > 0x110000) v = 0x110000; ++q; }
      if (q == b) { o.push_back(U'&'); for (; p < b; p++) o.push_back(in[p]); return; }
      if (at(q) == U';') ++q;
      o.push_back(coded(v)); p = q; return; }
    size_t lo = 0, hi = NENT, i = p, len = 0; Ent const* e = nullptr;
    for (size_t k = 0; i < in.size() && (dg(in[i]) || al(in[i]) || in[i] == U';'); ++i, ++k) {
      char32_t c = in[i]; while (lo < hi && ENT[lo].n[k] < c) ++lo; size_t x = lo; while (x < hi && ENT[x].n[k] == c) ++x; hi = x; if (lo == hi) break;
      if (ENT[lo].n[k + 1] == 0) { e = &ENT[lo]; len = k + 1; ++lo; } if (c == U';') break; }
    if (e && !(attr && in[p + len - 1] != U';' && (at(p + len) == U'=' || (p + len < in.size() && (al(in[p + len]) || dg(in[p + len])))))) { o.push_back(e->a); if (e->b) o.push_back(e->b); p += len; return; }
    o.push_back(U'&'); }
  void bogus() { Tok t{ CM }; while (more() && in[p] != U'>') t.n.push_back(nul(in[p++])); bool e = !more(); ++p; out->on(t); if (e) eof(); }
  void comment() {   // p stands after "<!--"
    if (at(p) == U'>') { p += 1; Tok t{ CM }; out->on(t); return; }
    if (at(p) == U'-' && at(p + 1) == U'>') { p += 2; Tok t{ CM }; out->on(t); return; }
    Tok t{ CM }; size_t b = p, e = p;
    for (;; ++e) { if (e >= in.size()) break; if (in[e] == U'-' && at(e + 1) == U'-' && (at(e + 2) == U'>' || (at(e + 2) == U'!' && at(e + 3) == U'>'))) break; }
    bool end = e >= in.size(); size_t z = e;
    if (end) { if (z - b >= 3 && in[z - 1] == U'!' && in[z - 2] == U'-' && in[z - 3] == U'-') z -= 3; else if (z - b >= 2 && in[z - 1] == U'-' && in[z - 2] == U'-') z -= 2; else if (z - b >= 1 && in[z - 1] == U'-') z -= 1; }
    for (size_t i = b; i < z; i++) t.n.push_back(nul(in[i]));
    p = end ? e : e + (in[e + 2] == U'!' ? 4 : 3); out->on(t); if (end) eof(); }
  void skip() { while (more() && sp(in[p])) ++p; }
  void doctype() {   // p stands after "<!DOCTYPE"
    Tok t{ DT }; auto fin = [&](bool q) { t.q |= q; bool e = !more(); if (!e) ++p; out->on(t); if (e) eof(); };
    auto rest = [&](bool q) { t.q |= q; while (more() && in[p] != U'>') ++p; fin(false); };
    auto quoted = [&](S& s) { char32_t q = in[p++]; while (more() && in[p] != q && in[p] != U'>') s.push_back(nul(in[p++])); if (!more() || in[p] == U'>') return false; ++p; return true; };
    auto isq = [&] { return at(p) == U'"' || at(p) == U'\''; };
    skip(); if (!more() || in[p] == U'>') return fin(true);
    while (more() && !sp(in[p]) && in[p] != U'>') t.n.push_back(nul(low(in[p++])));
    if (!more()) return fin(true); skip(); if (!more()) return fin(true); if (in[p] == U'>') return fin(false);
    bool pub = lit(p, U"public", true), sys = lit(p, U"system", true); if (!pub && !sys) return rest(true);
    p += 6; skip(); if (!more() || in[p] == U'>') return fin(true); if (!isq()) return rest(true);
    if (pub) { t.hp = true; if (!quoted(t.pub)) return fin(true); skip(); if (!more()) return fin(true); if (in[p] == U'>') return fin(false); if (!isq()) return rest(true); }
    t.hs = true; if (!quoted(t.sys)) return fin(true); skip(); if (!more()) return fin(true); rest(false); }
  // p stands at the first letter of the name
  void tag(K k) {
    Tok t{ k }; while (more() && !sp(in[p]) && in[p] != U'/' && in[p] != U'>') t.n.push_back(nul(low(in[p++])));
    for (;;) {
      skip(); if (!more()) return eof();
      if (in[p] == U'>') { ++p; break; }
      if (in[p] == U'/') { ++p; if (!more()) return eof(); if (in[p] == U'>') { ++p; t.self = true; break; } continue; }
      At a; a.n.push_back(nul(low(in[p++]))); while (more() && !sp(in[p]) && in[p] != U'/' && in[p] != U'>' && in[p] != U'=') a.n.push_back(nul(low(in[p++])));
      size_t q = p; skip(); if (at(p) != U'=') p = q;
      else { ++p; skip(); if (!more()) return eof();
        if (in[p] == U'"' || in[p] == U'\'') { char32_t z = in[p++]; while (more() && in[p] != z) { char32_t c = in[p++]; if (c == U'&') charref(a.v, true); else a.v.push_back(nul(c)); } if (!more()) return eof(); ++p; }
        else if (in[p] != U'>') while (more() && !sp(in[p]) && in[p] != U'>') { char32_t c = in[p++]; if (c == U'&') charref(a.v, true); else a.v.push_back(nul(c)); } }
      bool dup = false; for (auto& x : t.a) dup |= x.n == a.n; if (!dup) t.a.push_back(a); }
    if (k == ST) last = t.n; out->on(t); }
  // p stands at "</": the end tag of the element whose start tag came last?
  bool closes() const { size_t q = p + 2; if (last.empty()) return false; for (char32_t c : last) { if (q >= in.size() || low(in[q]) != c) return false; ++q; } return q < in.size() && (sp(in[q]) || in[q] == U'/' || in[q] == U'>'); }
  void back() { m = DATA; p += 2; tag(ET); }
  void text(bool refs) { char32_t c = in[p]; if (refs && c == U'&') { ++p; S o; charref(o, false); chs(o); return; }
    if (c == U'<' && at(p + 1) == U'/' && closes()) { back(); return; } ++p; ch(nul(c)); }
  bool word(size_t q) const { static char32_t const W[] = U"script"; for (size_t i = 0; i < 6; i++) if (q + i >= in.size() || low(in[q + i]) != W[i]) return false; q += 6; return q < in.size() && (sp(in[q]) || in[q] == U'/' || in[q] == U'>'); }
  // the script text, in one go until its end tag: plain (0), escaped (1) or double escaped (2); n: how many '-' were just read
  void script() { int e = 0, n = 0;
    for (;;) { if (!more()) return eof(); char32_t c = in[p];
      if (e == 0) { if (c == U'<' && at(p + 1) == U'/' && closes()) return back(); if (c == U'<' && at(p + 1) == U'!') { ch(U'<'); ch(U'!'); p += 2; if (at(p) == U'-') { ch(U'-'); ++p; if (at(p) == U'-') { ch(U'-'); ++p; e = 1; n = 2; } } continue; } ++p; ch(nul(c)); continue; }
      if (c == U'-') { ++p; ch(c); if (n < 2) ++n; continue; }
      if (c == U'>' && n == 2) { ++p; ch(c); e = 0; n = 0; continue; }
      n = 0;
      if (c == U'<' && e == 1) { if (at(p + 1) == U'/' && closes()) return back(); ++p; ch(c); if (more() && al(in[p])) { bool w = word(p); while (more() && al(in[p])) ch(in[p++]); if (more() && (sp(in[p]) || in[p] == U'/' || in[p] == U'>')) { ch(in[p++]); if (w) e = 2; } } continue; }
      if (c == U'<' && e == 2) { ++p; ch(c); if (at(p) == U'/') { ch(U'/'); ++p; bool w = word(p); while (more() && al(in[p])) ch(in[p++]); if (more() && (sp(in[p]) || in[p] == U'/' || in[p] == U'>')) { ch(in[p++]); if (w) e = 1; } } continue; }
      ++p; ch(nul(c)); } }
  void run() {
    while (!done) {
      if (m == SCRIPT) { script(); continue; }
      if (m == CDATA) { if (!more()) { eof(); continue; } if (in[p] == U']' && at(p + 1) == U']' && at(p + 2) == U'>') { p += 3; m = DATA; continue; } ch(in[p++]); continue; }
      if (!more()) { eof(); continue; }
      if (m == PLAIN) { ch(nul(in[p++])); continue; }
      if (m != DATA) { text(m == RCDATA); continue; }
      char32_t c = in[p++];
      if (c == U'&') { S o; charref(o, false); chs(o); continue; }
      if (c != U'<') { ch(c); continue; }
      if (!more()) { ch(U'<'); continue; }
      c = in[p];
      if (al(c)) tag(ST);
      else if (c == U'?') bogus();
      else if (c == U'/') { if (p + 1 >= in.size()) { ch(U'<'); continue; } ++p; if (al(in[p])) tag(ET); else if (in[p] == U'>') ++p; else bogus(); }
      else if (c == U'!') { ++p; if (lit(p, U"--", false)) { p += 2; comment(); } else if (lit(p, U"doctype", true)) { p += 7; doctype(); } else if (lit(p, U"[CDATA[", false) && out->foreign()) { p += 7; m = CDATA; } else bogus(); }
      else ch(U'<'); } }
};
}
