// @libs lib/whatwg/html/parsing/atom_tbl.cpp lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp
// @entry h_extract : contents of a meta element with any character changed, removed or added: the encoding named after charset=
// @entry h_meta : documents of bytes in each of some encodings, trusted or not, whose meta elements name other encodings in each way and place: the tree of the text the declared encoding gives, any byte in its text
// @entry h_every : each of the 40 encodings declared in a document that starts as each of some encodings (UTF-16 included), two bytes above ASCII after it
// @entry h_utf8 : any 0..3 (thorough 4) bytes of a document read as UTF-8, with and without a byte order mark
// @entry h_wide : documents of UTF-16 and UTF-32 with any scalar values; no meta element changes them
// @entry h_cut : a document cut after any of its characters, in each of the three kinds of source: everything up to there is in the tree
// @entry h_reuse : a parser used again, after any document, for any other
// @assume a byte order mark other than the one of the assumed encoding is not looked for, nor are the first 1024 bytes searched for a declaration: the library starts with the encoding it is given
#include <cassert>
#include <algorithm>
#include <array>
#include <limits>
#include <iterator>
#include <stdexcept>
#include "enc.h"
#include "htmlcmp.h"
#include <wordring/html/simple_html.hpp>
using rh::S; namespace wh = wordring::html; using Conf = wh::encoding_confidence_name;
#define ONE(a, name) a[vp_choose(std::size(a), name)]
static encoding_name const NONE = static_cast<encoding_name>(0);
// reference: the algorithm for extracting a character encoding from a meta element
static encoding_name extracted(S const& s) {
  S l = rh::lower(s); size_t i = 0, n = l.size();
  for (;;) { for (;; i++) { if (i + 7 > n) return NONE; if (rh::eq(l.substr(i, 7), "charset")) break; } i += 7; while (i < n && ref::ws(l[i])) ++i; if (i < n && l[i] == U'=') break; if (i >= n) return NONE; }
  ++i; while (i < n && ref::ws(l[i])) ++i; if (i >= n) return NONE; size_t j;
  if (l[i] == U'"' || l[i] == U'\'') { for (j = i + 1; j < n && l[j] != l[i]; j++); if (j >= n) return NONE; ++i; } else for (j = i; j < n && l[j] != U';' && !ref::ws(l[j]); j++);
  return we::get_encoding_name(l.substr(i, j - i)); }
struct Enc : rh::Tree { encoding_name now; bool tentative; encoding_name to = NONE;
  void meta() override { if (!tentative || to != NONE) return; S cs, eqv, ct; bool c = false, e = false, t = false; for (auto& a : tk->a) { if (rh::eq(a.n, "charset")) c = true, cs = a.v; if (rh::eq(a.n, "http-equiv")) e = true, eqv = a.v; if (rh::eq(a.n, "content")) t = true, ct = a.v; }
    encoding_name x = c ? we::get_encoding_name(cs) : NONE; if (x == NONE && e && rh::whole(eqv, "content-type") && t) x = extracted(ct); if (x == NONE) return;
    if (now == encoding_name::UTF_16BE || now == encoding_name::UTF_16LE) { tentative = false; return; } if (x == encoding_name::UTF_16BE || x == encoding_name::UTF_16LE) x = encoding_name::UTF_8; if (x == encoding_name::x_user_defined) x = encoding_name::windows_1252; tentative = false; if (x != now) to = x; } };
static S decoded(std::string const& b, encoding_name e) { if (e == encoding_name::replacement) return b.empty() ? S() : S(1, 0xFFFD); we::text_decoder d(e, false, false); return d.decode(b.begin(), b.end()); }
static rh::N* expected(std::string const& b, encoding_name e, Conf c) { auto* t = new Enc; t->flip = true; t->now = e; t->tentative = c == Conf::tentative; rh::build(*t, decoded(b, e)); if (t->to != NONE) { auto* u = new Enc; u->flip = true; u->now = t->to; u->tentative = false; rh::build(*u, decoded(b, t->to)); return u->doc; } return t->doc; }
template <class Tree> static void check(Tree& t, rh::N* want) { auto d = t.begin(); vp_check(d != t.end() && d->is_document(), "a document"); same(d, want); ++d; vp_check(d == t.end(), "one document"); }
static void bytes(std::string const& b, encoding_name e = encoding_name::UTF_8, Conf c = Conf::tentative) { auto t = wh::make_document<wh::u32simple_tree>(b.begin(), b.end(), e, c); check(t, expected(b, e, c)); vp_cover("read"); }
extern "C" void h_extract() { static S const A[] = { U"text/html; charset=utf-8", U"charset=\"utf-8\"", U"charset = 'utf-8' x", U"charset charset=utf-8;a", U"charset=utf-8 b", U"charset\t=\nutf-8", U"Charset=Shift_JIS", U"charset='utf-8", U"charset", U"charset=", U"charset='utf-8\"'", U"charsetcharset=utf-8", U"charset;charset=\"koi8-r\"" }; S s = ONE(A, "content"); unsigned how = (unsigned)vp_choose(4, "how"); size_t at = (size_t)vp_choose(s.size() + 1, "at"); if (how) { if (how == 1) { vp_assume(at < s.size()); s.erase(at, 1); } else { char32_t c = (char32_t)vp_sym(7, "c"); if (how == 2) s.insert(at, 1, c); else { vp_assume(at < s.size()); s[at] = c; } } } else vp_assume(at == 0);
  vp_check(wordring::whatwg::html::extract_character_encoding_from_meta_element(s) == extracted(s), "encoding extracted"); vp_cover("extracted"); }
extern "C" void h_meta() {
  static char const* const L[] = { "shift_jis", "windows-1252", "UTF-8", "utf-16le", "x-user-defined", "koi8-r", "nonsense", "", "iso-2022-kr", "euc-kr" }; static std::pair<char const*, char const*> const M[] = { { "<meta charset=", ">" }, { "<p>a<meta charset='", "'/>" }, { "<meta http-equiv=content-type content='text/html;charset=", "'>" }, { "<meta name=a content='charset=", "'>" }, { "<meta charset=bad http-equiv=Content-Type content='charset=\"", "\"'>" }, { "<meta http-equiv=refresh content='charset=", "'>" }, { "<title><meta charset=", "></title>" }, { "<meta charset=koi8-u><meta charset=", ">" }, { "<!--<meta charset=utf-8>--><META CharSet=", " charset=utf-8>" }, { "<meta content='charset=", "' HTTP-EQUIV=CONTENT-TYPE>" } };
  static encoding_name const E[] = { encoding_name::UTF_8, encoding_name::windows_1252, encoding_name::Shift_JIS }; static Conf const C[] = { Conf::tentative, Conf::certain, Conf::irrelevant };
  auto& m = ONE(M, "meta"); std::string b = m.first; b += ONE(L, "label"); b += m.second; b.insert(b.end(), 1, 'x'); static char const* const W[] = { "\x83\x41", "\xC3\xA9", "\xE9", "\xB0\xA1<", "\x80" }; size_t w = (size_t)vp_choose(std::size(W) + 1, "bytes"); if (w < std::size(W)) b += W[w]; else b.push_back((char)vp_sym(8, "b")); b += "<p>"; encoding_name e = ONE(E, "encoding"); Conf c = vp_choose(4, "trust") ? Conf::tentative : ONE(C, "confidence"); bytes(b, e, c); }
extern "C" void h_every() {
  static char const* const L[] = { "utf-8", "ibm866", "iso-8859-2", "iso-8859-3", "iso-8859-4", "iso-8859-5", "iso-8859-6", "iso-8859-7", "iso-8859-8", "iso-8859-8-i", "iso-8859-10", "iso-8859-13", "iso-8859-14", "iso-8859-15", "iso-8859-16", "koi8-r", "koi8-u", "macintosh", "windows-874", "windows-1250", "windows-1251", "windows-1252", "windows-1253", "windows-1254", "windows-1255", "windows-1256", "windows-1257", "windows-1258", "x-mac-cyrillic", "gbk", "gb18030", "big5", "euc-jp", "iso-2022-jp", "shift_jis", "euc-kr", "replacement", "utf-16be", "utf-16le", "x-user-defined" };
  static encoding_name const E[] = { encoding_name::UTF_8, encoding_name::windows_1252, encoding_name::EUC_JP, encoding_name::UTF_16BE, encoding_name::UTF_16LE }; static Conf const C[] = { Conf::tentative, Conf::certain }; encoding_name e = ONE(E, "encoding"); bool be = e == encoding_name::UTF_16BE, wide = be || e == encoding_name::UTF_16LE; bool http = vp_choose(2, "http-equiv");
  std::string b = http ? "<meta http-equiv=content-type content=charset=" : "<meta charset="; b += ONE(L, "label"); b += "><p>x"; static char const* const W[] = { "\xC3\xA9", "\xB0\xA1", "\x80z" }; b += ONE(W, "bytes"); b += "<i>"; if (wide) { std::string w; for (char c : b) { if (be) w.push_back(0); w.push_back(c); if (!be) w.push_back(0); } b = w; } bytes(b, e, ONE(C, "confidence")); }
extern "C" void h_utf8() { std::string b = vp_choose(2, "bom") ? "\xEF\xBB\xBF" : ""; size_t n = vp_len(0, vp_thorough() ? 4 : 3, "n"); for (size_t i = 0; i < n; i++) { char c = (char)vp_sym(8, "b"); vp_assume(c != '<' && c != '&'); b.push_back(c); } S s = utf8_oracle(b); if (!s.empty() && s[0] == 0xFEFF) s.erase(0, 1); auto t = wh::make_document<wh::u8simple_tree>(b.begin(), b.end()); rh::Tree r; rh::build(r, s); check(t, r.doc); vp_cover("read"); }
extern "C" void h_wide() { static S const A[] = { U"", U"<meta charset=shift_jis>", U"<p title='", U"<!--" }; S s = ONE(A, "before"); size_t n = vp_len(0, 2, "n"); for (size_t i = 0; i < n; i++) { char32_t c = vp_scalar("c"); vp_assume(c != U'<' && c != U'&'); s.push_back(c); } s += U"b"; rh::Tree r; rh::build(r, s);
  if (vp_choose(2, "16")) { std::u16string u = ref::enc<std::u16string>(s); auto t = wh::make_document<wh::u16simple_tree>(u.begin(), u.end()); check(t, r.doc); } else { auto t = wh::make_document<wh::u32simple_tree>(s.begin(), s.end()); check(t, r.doc); } vp_cover("read"); }
extern "C" void h_cut() { static S const A[] = { U"<!DOCTYPE html><title>a&amp</title><table>x<tr><td>y&#65;z</table><!--c--><p a='b'>&ltq<", U"<script>a<!--b</script>\r\n<pre>\n\n<svg/>&notit;<textarea>x</textarea></", U"<select><option>\r<b><frameset>&", U"<a href=b>\r" }; S s = ONE(A, "document"); s.resize((size_t)vp_choose(s.size() + 1, "at")); rh::Tree r; rh::build(r, s);
  switch (vp_choose(3, "type")) { case 0: { auto t = wh::make_document<wh::u32simple_tree>(s.begin(), s.end()); check(t, r.doc); break; } case 1: { auto u = ref::enc<std::u16string>(s); auto t = wh::make_document<wh::u8simple_tree>(u.begin(), u.end()); check(t, r.doc); break; } default: { auto u = ref::enc<std::string>(s); auto t = wh::make_document<wh::u16simple_tree>(u.begin(), u.end()); check(t, r.doc); } } vp_cover("read"); }
extern "C" void h_reuse() { static std::string const A[] = { "", "<meta charset=shift_jis>\x83\x41", "<table>x", "<p>a&am", "<!--", "<meta charset=utf-8>\xC3\xA9", "\xEF\xBB\xBFx", "\xC3" }; std::string const &a = ONE(A, "first"), &b = ONE(A, "second"); wh::basic_simple_parser<wh::u32simple_tree, std::string::const_iterator> p(Conf::tentative, encoding_name::windows_1252); p.parse(a.begin(), a.end()); if (vp_choose(2, "get")) { auto t = p.get(); check(t, expected(a, encoding_name::windows_1252, Conf::tentative)); } p.clear(Conf::tentative, encoding_name::UTF_8); p.parse(b.begin(), b.end()); auto t = p.get(); check(t, expected(b, encoding_name::UTF_8, Conf::tentative)); vp_cover("reused"); }
