// @engine --fork64
// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp
// @entry h_single_dec : any two bytes in each of the 28 single-byte encodings: the characters of the reference table, U+FFFD for unassigned bytes
// @entry h_single_enc : any scalar value in each of the 28 single-byte encodings: the byte of the reference table, or an error naming the code point
// @entry h_utf16 : any 0..6 bytes as UTF-16LE and UTF-16BE: paired surrogates combine, every unpaired code unit and an odd last byte give one U+FFFD
// @entry h_utf16w : the same bytes in two pieces through one text_decoder
// @entry h_userdef : x-user-defined maps 80..FF to U+F780..U+F7FF and back, nothing else is encodable
// @entry h_replacement : the replacement encoding turns any non-empty input into one U+FFFD
// @entry h_bom : decode() of any 0..4 bytes with UTF-16BE, UTF-16LE, UTF-8 or no byte order mark, whatever encoding is asked for
// @entry h_labels : every label of the standard, in any letter case at any one position and in capitals, between white space, names its encoding; the encoding's own name is such a label
// @entry h_nolabel : a label with one character changed to any other ASCII character, or with one more, names an encoding only if it is itself a label
// @entry h_queue : any 4 (thorough 5) operations on an io_queue: items leave in order, the end-of-queue item stays last and is never removed, peek removes nothing
// @entry h_decoder : a text_decoder made from any label, or by its encoding, with any flags, tells the name of its encoding and its flags; none is made for a string that is no label or names the replacement encoding
#include "enc.h"
#include "data/enc_tables.h"
#include "data/enc_labels.h"
#include <deque>
using std::uint32_t; using std::uint8_t;
#define SB(E, t) { encoding_name::E, refidx::t }
static struct { encoding_name e; std::int32_t const* t; } const SINGLE[] = { SB(IBM866, ibm866), SB(ISO_8859_2, iso_8859_2), SB(ISO_8859_3, iso_8859_3), SB(ISO_8859_4, iso_8859_4), SB(ISO_8859_5, iso_8859_5), SB(ISO_8859_6, iso_8859_6), SB(ISO_8859_7, iso_8859_7), SB(ISO_8859_8, iso_8859_8), SB(ISO_8859_8_I, iso_8859_8), SB(ISO_8859_10, iso_8859_10), SB(ISO_8859_13, iso_8859_13), SB(ISO_8859_14, iso_8859_14), SB(ISO_8859_15, iso_8859_15), SB(ISO_8859_16, iso_8859_16), SB(KOI8_R, koi8_r), SB(KOI8_U, koi8_u), SB(macintosh, macintosh), SB(windows_874, windows_874), SB(windows_1250, windows_1250), SB(windows_1251, windows_1251), SB(windows_1252, windows_1252), SB(windows_1253, windows_1253), SB(windows_1254, windows_1254), SB(windows_1255, windows_1255), SB(windows_1256, windows_1256), SB(windows_1257, windows_1257), SB(windows_1258, windows_1258), SB(x_mac_cyrillic, x_mac_cyrillic) };
static std::u32string dec(encoding_name e, std::string const& in) { auto q = bytes_queue(in); we::io_queue<char32_t> out; auto c = we::get_encoding_decoder(e); auto r = we::process_queue(c, q, out, we::error_mode_name::Replacement); vp_check(finished(r), "decoding ends"); return text_of(out); }
extern "C" void h_single_dec() {
  auto& T = SINGLE[vp_choose(std::size(SINGLE), "encoding")]; std::string in = vp_bytes(2, "b"); std::u32string w; bool bad = false;
  for (char ch : in) { uint8_t b = ch; if (b < 0x80) w.push_back(b); else { std::int32_t c = T.t[b - 0x80]; if (c < 0) { w.push_back(0xFFFD); bad = true; } else w.push_back(c); } }
  vp_check(ref::same(dec(T.e, in), w), "text of the bytes"); we::text_decoder d(T.e, true, false); bool thrown = false; try { vp_check(ref::same(d.decode(in.begin(), in.end()), w), "text of the bytes"); } catch (std::range_error const&) { thrown = true; } vp_check(thrown == bad, "a fatal decoder throws exactly on unassigned bytes"); vp_cover("decoded");
}
extern "C" void h_single_enc() {
  auto& T = SINGLE[vp_choose(std::size(SINGLE), "encoding")]; uint32_t hi = (uint32_t)vp_choose(0x1100, "block"); vp_assume(hi < 0xD8 || hi > 0xDF); vp_assume(hi < 0x100 || hi == 0x100 || hi == 0x1F6 || hi == 0x10FF); uint32_t c = hi << 8 | vp_u8("cp"); std::string w; bool ok = false;
  if (c < 0x80) { w.push_back((char)c); ok = true; } else for (uint32_t i = 0; i < 128; i++) if (T.t[i] >= 0 && (uint32_t)T.t[i] >> 8 == hi && (uint32_t)T.t[i] == c) { w.push_back((char)(0x80 + i)); ok = true; break; }
  std::u32string s(1, (char32_t)c); auto q = text_queue(s); we::io_queue<char> out; auto ec = we::get_encoder(T.e); auto r = we::encode_or_fail(q, ec, out); vp_check(failed(r) == !ok, "error exactly on unmappable code points");
  if (ok) { vp_check(ref::same(bytes_of(out), w), "byte of the code point"); vp_cover("encoded"); } else { vp_check(std::get_if<we::result_error>(&r)->code_point == c, "the error names the code point"); vp_cover("unmappable"); }
}
static std::u32string utf16(std::string const& in, bool be) {
  std::u32string o; std::vector<uint32_t> u; for (size_t i = 0; i + 1 < in.size(); i += 2) { uint32_t x = (uint8_t)in[i], y = (uint8_t)in[i + 1]; u.push_back(be ? x << 8 | y : y << 8 | x); }
  bool odd = in.size() % 2;
  for (size_t i = 0; i < u.size(); i++) { if (u[i] < 0xD800 || u[i] > 0xDFFF) o.push_back(u[i]); else if (u[i] < 0xDC00 && i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] <= 0xDFFF) { o.push_back(0x10000 + (u[i] - 0xD800) * 0x400 + (u[i + 1] - 0xDC00)); i++; } else { o.push_back(0xFFFD); if (u[i] < 0xDC00 && i + 1 == u.size()) odd = false; /* a lead surrogate and the odd byte end in one error */ } }
  if (odd) o.push_back(0xFFFD); return o; }
extern "C" void h_utf16() { bool be = vp_choose(2, "be"); std::string in = vp_bytes(vp_len(0, vp_thorough() ? 7 : 6, "n"), "b"); vp_check(ref::same(dec(be ? encoding_name::UTF_16BE : encoding_name::UTF_16LE, in), utf16(in, be)), "text of the bytes"); vp_cover("decoded"); }
extern "C" void h_utf16w() {
  bool be = vp_choose(2, "be"), keep = vp_choose(2, "ignore_bom"); std::string in = vp_bytes(vp_len(0, vp_thorough() ? 6 : 4, "n"), "b"); size_t a = vp_len(0, in.size(), "cut"); we::text_decoder d(be ? encoding_name::UTF_16BE : encoding_name::UTF_16LE, false, keep);
  std::u32string t = d.decode(in.begin(), in.begin() + a, true); t += d.decode(in.begin() + a, in.end()); std::u32string w = utf16(in, be); if (!keep && !w.empty() && w[0] == 0xFEFF) w.erase(0, 1); vp_check(ref::same(t, w), "text of the whole input"); vp_cover("streamed"); }
extern "C" void h_userdef() {
  std::string in = vp_bytes(2, "b"); std::u32string w; for (char ch : in) { uint8_t b = ch; w.push_back(b < 0x80 ? b : 0xF700 + b); } vp_check(ref::same(dec(encoding_name::x_user_defined, in), w), "text of the bytes");
  { auto q = text_queue(w); we::io_queue<char> out; auto ec = we::get_encoder(encoding_name::x_user_defined); auto r = we::encode_or_fail(q, ec, out); vp_check(!failed(r) && ref::same(bytes_of(out), in), "encoding gives the bytes back"); }
  char32_t c = vp_scalar("c"); std::u32string s(1, c); auto q = text_queue(s); we::io_queue<char> out; auto ec = we::get_encoder(encoding_name::x_user_defined); auto r = we::encode_or_fail(q, ec, out); bool ok = c < 0x80 || (c >= 0xF780 && c <= 0xF7FF); vp_check(failed(r) == !ok, "error exactly on unmappable code points"); vp_cover("user-defined"); }
extern "C" void h_replacement() {
  std::string in = vp_bytes(vp_len(0, 3, "n"), "b"); vp_check(ref::same(dec(encoding_name::replacement, in), in.empty() ? std::u32string() : std::u32string(1, 0xFFFD)), "one U+FFFD"); for (int e = (int)encoding_name::UTF_8; e <= (int)encoding_name::x_user_defined; e++) { encoding_name n = (encoding_name)e; vp_check(we::get_output_encoding_name(n) == (n == encoding_name::replacement || n == encoding_name::UTF_16BE || n == encoding_name::UTF_16LE ? encoding_name::UTF_8 : n), "output encoding"); } vp_cover("replacement"); }
extern "C" void h_bom() {
  static char const* const B[] = { "", "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE" }; static encoding_name const A[] = { encoding_name::UTF_8, encoding_name::UTF_16LE, encoding_name::UTF_16BE, encoding_name::windows_1252, encoding_name::x_user_defined }; unsigned b = (unsigned)vp_choose(4, "bom"); std::string in = B[b] + vp_bytes(vp_len(0, b ? 3 : 4, "n"), "b"); encoding_name e = A[vp_choose(std::size(A), "encoding")];
  auto at = [&](size_t i) { return i < in.size() ? (int)(uint8_t)in[i] : -1; }; std::string body = in; encoding_name eff = e;
  if (at(0) == 0xEF && at(1) == 0xBB && at(2) == 0xBF) { eff = encoding_name::UTF_8; body = in.substr(3); } else if (at(0) == 0xFE && at(1) == 0xFF) { eff = encoding_name::UTF_16BE; body = in.substr(2); } else if (at(0) == 0xFF && at(1) == 0xFE) { eff = encoding_name::UTF_16LE; body = in.substr(2); }
  { auto q = bytes_queue(in); auto r = we::bom_sniff(q); vp_check(!r.m_wait && r.m_value == (body.size() == in.size() ? (encoding_name)0 : eff), "encoding of the byte order mark"); vp_check(ref::same(bytes_of(q), in), "sniffing removes nothing"); }
  std::u32string w; if (eff == encoding_name::UTF_8) w = utf8_oracle(body); else if (eff == encoding_name::UTF_16LE) w = utf16(body, false); else if (eff == encoding_name::UTF_16BE) w = utf16(body, true); else for (char ch : body) { uint8_t x = ch; if (eff == encoding_name::x_user_defined) w.push_back(x < 0x80 ? x : 0xF700 + x); else w.push_back(x < 0x80 ? x : refidx::windows_1252[x - 0x80]); }
  auto q = bytes_queue(in); we::io_queue<char32_t> out; auto r = we::decode(q, e, out); vp_check(finished(r) && ref::same(text_of(out), w), "text of the bytes after the byte order mark"); vp_cover("decoded"); }
static encoding_name label_oracle(std::u32string const& s) { for (auto& r : LABELS) { std::string_view l = r.label; if (l.size() != s.size()) continue; bool eq = true; for (size_t i = 0; i < l.size(); i++) eq &= s[i] == (char32_t)l[i]; if (eq) return r.name; } return (encoding_name)0; }
static char32_t lower(char32_t c) { return c >= U'A' && c <= U'Z' ? c + 32 : c; }
extern "C" void h_labels() {
  auto& r = LABELS[vp_choose(std::size(LABELS), "label")]; std::string_view l = r.label; std::u32string s; for (char c : l) s.push_back(c); unsigned how = (unsigned)vp_choose(3, "how");
  if (how == 0) { size_t p = (size_t)vp_choose(s.size(), "at"); char32_t c = (char32_t)vp_sym(7, "c"); vp_assume(lower(c) == s[p]); s[p] = c; } else if (how == 1) for (auto& c : s) if (c >= U'a' && c <= U'z') c -= 32;
  if (how == 2) { char32_t a = (char32_t)vp_sym(7, "ws"), b = (char32_t)vp_sym(7, "ws"); vp_assume(ref::ws(a)); vp_assume(ref::ws(b)); s = std::u32string(1, a) + s + std::u32string(1, b) + U"\t"; }
  vp_check(we::get_encoding_name(s) == r.name, "label names its encoding"); std::u32string own = we::get_encoding_label(r.name); vp_check(label_oracle(own) == r.name, "the encoding's name is one of its labels"); vp_cover("label"); }
extern "C" void h_nolabel() {
  auto& r = LABELS[vp_choose(std::size(LABELS), "label")]; std::string_view l = r.label; std::u32string s; for (char c : l) s.push_back(c);
  if (vp_choose(2, "how")) { size_t p = (size_t)vp_choose(s.size(), "at"); s[p] = (char32_t)vp_sym(7, "c"); } else s.push_back((char32_t)vp_sym(7, "c"));
  std::u32string t; for (char32_t c : s) t.push_back(lower(c)); while (!t.empty() && ref::ws(t.front())) t.erase(0, 1); while (!t.empty() && ref::ws(t.back())) t.pop_back();
  vp_check(we::get_encoding_name(s) == label_oracle(t), "only labels name encodings"); vp_cover("changed label"); }
extern "C" void h_queue() {
  we::io_queue<char> q; std::deque<uint8_t> m; bool end = false; unsigned steps = vp_thorough() ? 5 : 4;
  auto agree = [&] { std::string s = bytes_of(q); bool ok = s.size() == m.size(); for (size_t i = 0; ok && i < s.size(); i++) ok = (bool)((uint8_t)s[i] == m[i]); vp_check(ok, "the queue holds the items in order"); };
  for (unsigned i = 0; i < steps; i++) { switch (vp_choose(7, "op")) {
    case 0: { uint8_t x = vp_u8("x"); q.push((char)x); m.push_back(x); break; }
    case 1: { std::string s = vp_bytes(2, "x"); q.push(s.begin(), s.end()); m.push_back((uint8_t)s[0]); m.push_back((uint8_t)s[1]); break; }
    case 2: q.push({ 0, true }); end = true; break;
    case 3: { uint8_t x = vp_u8("x"); q.prepend((char)x); m.push_front(x); break; }
    case 4: { std::string s = vp_bytes(2, "x"); q.prepend(s.begin(), s.end()); m.push_front((uint8_t)s[1]); m.push_front((uint8_t)s[0]); break; }
    case 5: { auto r = q.read(); if (m.empty()) vp_check(end ? !r.m_wait && r->m_eoq : r.m_wait, "end or wait on an exhausted queue"); else { vp_check(!r.m_wait && !r->m_eoq && (uint8_t)r->m_value == m.front(), "the first item is read"); m.pop_front(); } break; }
    default: { uint32_t k = (uint32_t)vp_len(1, 3, "k"); auto r = q.peek(k); if (m.size() < k && !end) { vp_check(r.m_wait, "peek waits for more"); break; } vp_check(!r.m_wait && r->size() == std::min<size_t>(k, m.size()), "peek gives up to k items"); for (size_t j = 0; j < r->size(); j++) vp_check((uint8_t)r->at(j).m_value == m[j] && !r->at(j).m_eoq, "peeked items in order"); } }
    agree(); }
  vp_cover("queue"); }

static struct { encoding_name e; char const* n; } const OWN[] = { { encoding_name::UTF_8, "utf-8" }, { encoding_name::IBM866, "ibm866" }, { encoding_name::ISO_8859_2, "iso-8859-2" }, { encoding_name::ISO_8859_3, "iso-8859-3" }, { encoding_name::ISO_8859_4, "iso-8859-4" }, { encoding_name::ISO_8859_5, "iso-8859-5" }, { encoding_name::ISO_8859_6, "iso-8859-6" }, { encoding_name::ISO_8859_7, "iso-8859-7" }, { encoding_name::ISO_8859_8, "iso-8859-8" }, { encoding_name::ISO_8859_8_I, "iso-8859-8-i" }, { encoding_name::ISO_8859_10, "iso-8859-10" }, { encoding_name::ISO_8859_13, "iso-8859-13" }, { encoding_name::ISO_8859_14, "iso-8859-14" }, { encoding_name::ISO_8859_15, "iso-8859-15" }, { encoding_name::ISO_8859_16, "iso-8859-16" }, { encoding_name::KOI8_R, "koi8-r" }, { encoding_name::KOI8_U, "koi8-u" }, { encoding_name::macintosh, "macintosh" }, { encoding_name::windows_874, "windows-874" }, { encoding_name::windows_1250, "windows-1250" }, { encoding_name::windows_1251, "windows-1251" }, { encoding_name::windows_1252, "windows-1252" }, { encoding_name::windows_1253, "windows-1253" }, { encoding_name::windows_1254, "windows-1254" }, { encoding_name::windows_1255, "windows-1255" }, { encoding_name::windows_1256, "windows-1256" }, { encoding_name::windows_1257, "windows-1257" }, { encoding_name::windows_1258, "windows-1258" }, { encoding_name::x_mac_cyrillic, "x-mac-cyrillic" }, { encoding_name::GBK, "gbk" }, { encoding_name::gb18030, "gb18030" }, { encoding_name::Big5, "big5" }, { encoding_name::EUC_JP, "euc-jp" }, { encoding_name::ISO_2022_JP, "iso-2022-jp" }, { encoding_name::Shift_JIS, "shift_jis" }, { encoding_name::EUC_KR, "euc-kr" }, { encoding_name::replacement, "replacement" }, { encoding_name::UTF_16BE, "utf-16be" }, { encoding_name::UTF_16LE, "utf-16le" }, { encoding_name::x_user_defined, "x-user-defined" } };
static bool own_name(std::u32string const& s, encoding_name e) { for (auto& o : OWN) if (o.e == e) { std::string_view n = o.n; if (n.size() != s.size()) return false; for (size_t i = 0; i < n.size(); i++) if (s[i] != (char32_t)n[i]) return false; return true; } return false; }
extern "C" void h_decoder() {
  bool fatal = vp_choose(2, "fatal"), keep = vp_choose(2, "ignore_bom"); unsigned how = (unsigned)vp_choose(3, "how"); encoding_name e; bool thrown = false; std::u32string s;
  if (how == 2) { e = OWN[vp_choose(std::size(OWN), "encoding")].e; vp_check(own_name(we::get_encoding_label(e), e), "name of an encoding"); try { we::text_decoder d(e, fatal, keep); vp_check(own_name(d.encoding(), e) && d.fatal() == fatal && d.ignore_bom() == keep, "encoding and flags"); } catch (std::range_error const&) { thrown = true; } }
  else { auto& r = LABELS[vp_choose(std::size(LABELS), "label")]; std::string_view l = r.label; std::u8string s8; std::u16string s16; for (char c : l) s.push_back(c); if (how) s[0] = (char32_t)vp_sym(7, "c"); for (char32_t c : s) { s8.push_back((char8_t)c); s16.push_back((char16_t)c); } std::u32string t; for (char32_t c : s) t.push_back(lower(c)); if (ref::ws(t[0])) t.erase(0, 1); e = label_oracle(t); vp_check(we::get_encoding_name(s8) == e && we::get_encoding_name(s16) == e, "labels in other string types");
    try { we::text_decoder d(s, fatal, keep); vp_check(own_name(d.encoding(), e) && d.fatal() == fatal && d.ignore_bom() == keep, "encoding and flags"); } catch (std::range_error const&) { thrown = true; } }
  vp_check(thrown == (e == (encoding_name)0 || e == encoding_name::replacement), "exactly the labels of encodings other than the replacement make a decoder"); vp_cover(thrown ? "refused" : "made"); we::text_decoder z; vp_check(own_name(z.encoding(), encoding_name::UTF_8) && !z.fatal() && !z.ignore_bom(), "UTF-8 unless told otherwise"); }
