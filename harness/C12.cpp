// @engine --fork64
// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp
// @entry h_dec_euckr : any 0..3 bytes decoded as EUC-KR give the text of the reference index
// @entry h_dec_big5 : any 0..3 bytes decoded as Big5, with the four two-character sequences
// @entry h_dec_sjis : any 0..3 bytes decoded as Shift_JIS, with half-width katakana and the user-defined rows
// @entry h_dec_eucjp : any 0..3 bytes (after 8F: 0..2, thorough 3) decoded as EUC-JP, with half-width katakana and JIS X 0212
// @entry h_dec_gb2 : any 0..3 bytes decoded as gb18030 and as GBK
// @entry h_dec_gb4 : any four-byte sequence, complete or broken at any place, decoded as gb18030
// @entry h_dec_2022 : any 0..4 bytes, after none or any of five escape sequences, decoded as ISO-2022-JP
// @entry h_enc_euckr : any scalar value encoded as EUC-KR: the bytes of the first pointer of the reference index, or an error for that code point
// @entry h_enc_big5 : any scalar value encoded as Big5
// @entry h_enc_sjis : any scalar value encoded as Shift_JIS
// @entry h_enc_eucjp : any scalar value encoded as EUC-JP
// @entry h_enc_gb : any scalar value encoded as gb18030 and as GBK; the ones gb18030 encodes decode back to themselves
// @entry h_enc_2022 : any scalar value, before and after characters of each character set, encoded as ISO-2022-JP: decoding gives the text back, the text ends in ASCII, escapes only where the character set changes
// @entry h_html : encoding text with an unmappable character in the middle writes its decimal character reference and nothing else changes
// @assume the index tables are compared with harness/data/enc_tables.h, which was checked against CPython's codecs when written
#include "enc.h"
#include "data/enc_tables.h"
#include <algorithm>
using std::uint32_t; using std::uint8_t;
static std::u32string const BAD = U"\uFFFD";
typedef std::u32string (*oracle)(std::string const&);
static void run_dec(encoding_name e, std::string const& in, std::u32string const& want) {
  auto q = bytes_queue(in); we::io_queue<char32_t> out; auto c = we::get_encoding_decoder(e); auto r = we::process_queue(c, q, out, we::error_mode_name::Replacement);
  vp_check(finished(r), "decoding ends"); vp_check(ref::same(text_of(out), want), "text of the bytes"); vp_cover("decoded");
}
// two-byte encodings: pointer(lead, trail) or -1; single(byte) >= 0 for one-byte characters; lead(byte)
template <class S, class L, class P> static std::u32string two(std::string const& in, S single, L islead, P lookup) {
  std::u32string o; for (size_t i = 0; i < in.size();) { uint32_t b = (uint8_t)in[i++]; std::int32_t c = single(b);
    if (c >= 0) { o.push_back(c); continue; }
    if (!islead(b) || i == in.size()) { o += BAD; continue; }
    b = (uint32_t)vp_conc(b); uint32_t t = (uint8_t)in[i]; std::u32string x; if (lookup(b, t, x)) { o += x; i++; } else { o += BAD; if (t >= 0x80) i++; } }
  return o;
}
template <size_t M> static bool tab(std::int32_t const (&t)[M], uint32_t p, std::u32string& x) { if (p >= M) return false; std::int32_t c = t[p]; if (c < 0) return false; x.push_back((char32_t)c); return true; }
static std::int32_t ascii(uint32_t b) { return b < 0x80 ? (std::int32_t)b : -1; }
static bool l81fe(uint32_t b) { return b >= 0x81 && b <= 0xFE; }
static std::string bytes3() { return vp_bytes(vp_len(0, 3, "n"), "b"); }
extern "C" void h_dec_euckr() { std::string in = bytes3(); auto w = two(in, ascii, l81fe, [](uint32_t l, uint32_t t, std::u32string& x) { return t >= 0x41 && t <= 0xFE && tab(refidx::euc_kr, (l - 0x81) * 190 + (t - 0x41), x); }); run_dec(encoding_name::EUC_KR, in, w); }
extern "C" void h_dec_big5() {
  std::string in = bytes3(); auto w = two(in, ascii, l81fe, [](uint32_t l, uint32_t t, std::u32string& x) {
    uint32_t k; if (t >= 0x40 && t <= 0x7E) k = t - 0x40; else if (t >= 0xA1 && t <= 0xFE) k = t - 0xA1 + 63; else return false;
    if (l == 0x88 && t == 0x62) { x = U"\u00CA\u0304"; return true; } if (l == 0x88 && t == 0x64) { x = U"\u00CA\u030C"; return true; } if (l == 0x88 && t == 0xA3) { x = U"\u00EA\u0304"; return true; } if (l == 0x88 && t == 0xA5) { x = U"\u00EA\u030C"; return true; }
    return tab(refidx::big5, (l - 0x81) * 157 + k, x); }); run_dec(encoding_name::Big5, in, w); }
static bool sjis_lookup(uint32_t l, uint32_t t, std::u32string& x) {
  uint32_t k; if (t >= 0x40 && t <= 0x7E) k = t - 0x40; else if (t >= 0x80 && t <= 0xFC) k = t - 0x80 + 63; else return false;
  uint32_t row = l <= 0x9F ? l - 0x81 : l - 0xE0 + 31; if (l >= 0xF0 && l <= 0xF9) { x.push_back(0xE000 + (l - 0xF0) * 188 + k); return true; } return tab(refidx::jis0208, row * 188 + k, x); }
extern "C" void h_dec_sjis() { std::string in = bytes3(); auto w = two(in, [](uint32_t b) -> std::int32_t { return b <= 0x80 ? (std::int32_t)b : b >= 0xA1 && b <= 0xDF ? (std::int32_t)(b - 0xA1 + 0xFF61) : -1; }, [](uint32_t b) { return (b >= 0x81 && b <= 0x9F) || (b >= 0xE0 && b <= 0xFC); }, sjis_lookup); run_dec(encoding_name::Shift_JIS, in, w); }
extern "C" void h_dec_eucjp() {
  bool pre = vp_choose(2, "jis0212"); std::string in = vp_bytes(vp_len(0, pre && !vp_thorough() ? 2 : 3, "n"), "b"); if (pre) in = "\x8F" + in; std::u32string o;
  for (size_t i = 0; i < in.size();) { uint32_t b = (uint8_t)in[i++]; if (b < 0x80) { o.push_back(b); continue; }
    b = (uint32_t)vp_conc(b); bool lead = b == 0x8E || b == 0x8F || (b >= 0xA1 && b <= 0xFE); if (!lead || i == in.size()) { o += BAD; continue; }
    uint32_t t = (uint8_t)in[i]; bool three = false;
    if (b == 0x8E && t >= 0xA1 && t <= 0xDF) { o.push_back(0xFF61 + t - 0xA1); i++; continue; }
    if (b == 0x8F && t >= 0xA1 && t <= 0xFE) { three = true; b = (uint32_t)vp_conc(t); if (++i == in.size()) { o += BAD; continue; } t = (uint8_t)in[i]; }
    std::u32string x; bool ok = false; if (b >= 0xA1 && b <= 0xFE && t >= 0xA1 && t <= 0xFE) { b = (uint32_t)vp_conc(b); uint32_t p = (b - 0xA1) * 94 + (t - 0xA1); ok = three ? tab(refidx::jis0212, p, x) : tab(refidx::jis0208, p, x); }
    if (ok) { o += x; i++; } else { o += BAD; if (t >= 0x80) i++; } }
  run_dec(encoding_name::EUC_JP, in, o); }
static std::u32string gb_oracle(std::string const& in) {
  std::u32string o; size_t n = in.size();
  auto B = [&](size_t i) { return (uint32_t)(uint8_t)in[i]; };
  for (size_t i = 0; i < n;) { uint32_t b = B(i); if (b < 0x80) { o.push_back(b); i++; continue; } if (b == 0x80) { o.push_back(0x20AC); i++; continue; } if (b == 0xFF) { o += BAD; i++; continue; }
    if (i + 1 == n) { o += BAD; break; } uint32_t t = B(i + 1);
    if (t >= 0x30 && t <= 0x39) { if (i + 2 == n) { o += BAD; break; } uint32_t c = B(i + 2); if (c < 0x81 || c > 0xFE) { o += BAD; i++; continue; } if (i + 3 == n) { o += BAD; break; } uint32_t d = B(i + 3); if (d < 0x30 || d > 0x39) { o += BAD; i++; continue; }
      uint32_t p = (b - 0x81) * 12600 + (t - 0x30) * 1260 + (c - 0x81) * 10 + (d - 0x30); i += 4;
      if ((p > 39419 && p < 189000) || p > 1237575) { o += BAD; continue; } if (p == 7457) { o.push_back(0xE7C7); continue; }
      size_t lo = 0, hi = std::size(refidx::ranges); while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (refidx::ranges[m][0] <= p) lo = m; else hi = m; } o.push_back(refidx::ranges[lo][1] + (p - refidx::ranges[lo][0])); continue; }
    uint32_t k; bool in2 = true; if (t >= 0x40 && t <= 0x7E) k = t - 0x40; else if (t >= 0x80 && t <= 0xFE) k = t - 0x80 + 63; else in2 = false; std::u32string x;
    if (in2) { b = (uint32_t)vp_conc(b); in2 = tab(refidx::gb18030, (b - 0x81) * 190 + k, x); } if (in2) { o += x; i += 2; } else { o += BAD; i += t < 0x80 ? 1 : 2; } }
  return o;
}
extern "C" void h_dec_gb2() { std::string in = bytes3(); auto w = gb_oracle(in); run_dec(vp_choose(2, "gbk") ? encoding_name::GBK : encoding_name::gb18030, in, w); }
extern "C" void h_dec_gb4() {
  std::string in = vp_bytes(4, "b"); uint8_t a = in[0], b = in[1], c = in[2], d = in[3]; vp_assume(a >= 0x81 && a <= 0xFE); vp_assume(b >= 0x30 && b <= 0x39); vp_assume(c >= 0x81 && c <= 0xFE);
  if (!(d >= 0x30 && d <= 0x39)) { in[0] = (char)vp_conc(a); vp_assume(in[0] == '\x81' || in[0] == '\xE3'); } in[0] = (char)vp_conc((uint8_t)in[0]); in[1] = (char)vp_conc(b); in[3] = (char)vp_conc(d); auto w = gb_oracle(in); run_dec(encoding_name::gb18030, in, w); }
extern "C" void h_dec_2022() {
  static char const* const esc[] = { "", "\x1B(B", "\x1B(J", "\x1B(I", "\x1B$@", "\x1B$B" }; unsigned e = (unsigned)vp_choose(6, "escape"); std::string in = std::string(esc[e]) + vp_bytes(vp_len(0, vp_thorough() ? 4 : 3, "n"), "b");
  enum { A, R, K, J } set = A; bool shifted = false; std::u32string o; size_t n = in.size(); auto B = [&](size_t i) { return (uint32_t)(uint8_t)in[i]; };
  for (size_t i = 0; i < n;) { uint32_t b = B(i);
    if (b == 0x1B) { int to = -1; if (i + 2 < n) { uint32_t x = B(i + 1), y = B(i + 2); if (x == 0x28) { if (y == 0x42) to = A; else if (y == 0x4A) to = R; else if (y == 0x49) to = K; } else if (x == 0x24 && (y == 0x40 || y == 0x42)) to = J; }
      if (to < 0) { o += BAD; shifted = false; i++; continue; } if (shifted) o += BAD; set = (decltype(set))to; shifted = true; i += 3; continue; }
    shifted = false; i++;
    if (set == A || set == R) { if (b == 0x0E || b == 0x0F || b >= 0x80) o += BAD; else if (set == R && b == 0x5C) o.push_back(0xA5); else if (set == R && b == 0x7E) o.push_back(0x203E); else o.push_back(b); continue; }
    if (set == K) { if (b >= 0x21 && b <= 0x5F) o.push_back(b - 0x21 + 0xFF61); else o += BAD; continue; }
    if (b < 0x21 || b > 0x7E || i == n) { o += BAD; continue; }
    uint32_t t = B(i); if (t == 0x1B) { // an escape in place of the trail byte: one error, then the escape is read
      o += BAD; continue; }
    i++; std::u32string x; if (t >= 0x21 && t <= 0x7E) { b = (uint32_t)vp_conc(b); if (tab(refidx::jis0208, (b - 0x21) * 94 + t - 0x21, x)) { o += x; continue; } } o += BAD; }
  run_dec(encoding_name::ISO_2022_JP, in, o); }
// ------------------------------------------------------------------ encoders
struct inverse { std::vector<uint32_t> cp, ptr; };
template <size_t M, class Keep, class Last> static inverse inv(std::int32_t const (&t)[M], Keep keep, Last last) {
  static uint32_t first[0x30000]; static bool have[0x30000]; for (size_t i = 0; i < 0x30000; i++) have[i] = false;
  for (uint32_t i = 0; i < M; i++) if (t[i] >= 0 && keep(i)) if (!have[t[i]] || last((uint32_t)t[i])) { have[t[i]] = true; first[t[i]] = i; }
  inverse r; for (uint32_t c = 0; c < 0x30000; c++) if (have[c]) { r.cp.push_back(c); r.ptr.push_back(first[c]); } return r; }
static std::int32_t find(inverse const& v, uint32_t c) { size_t lo = 0, hi = v.cp.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v.cp[m] < c) lo = m + 1; else hi = m; } return lo < v.cp.size() && v.cp[lo] == c ? (std::int32_t)v.ptr[lo] : -1; }
static bool all(uint32_t) { return true; }
static bool none(uint32_t) { return false; }
// any scalar value: the block of 256 is case-split, the position in it stays symbolic
static uint32_t any_scalar() { uint32_t hi = (uint32_t)vp_choose(0x1100, "block"); vp_assume(hi < 0xD8 || hi > 0xDF); return hi << 8 | vp_u8("cp"); }
static void run_enc(encoding_name e, uint32_t cp, std::string const& want, bool ok) {
  std::u32string s(1, (char32_t)cp); auto q = text_queue(s); we::io_queue<char> out; auto ec = we::get_encoder(e); auto r = we::encode_or_fail(q, ec, out);
  vp_check(failed(r) == !ok, "error exactly on unmappable code points"); if (ok) { vp_check(ref::same(bytes_of(out), want), "bytes of the code point"); vp_cover("encoded"); } else { vp_check(std::get_if<we::result_error>(&r)->code_point == cp, "the error names the code point"); vp_check(bytes_of(out).empty(), "nothing written for it"); vp_cover("unmappable"); } }
static std::string b2(uint32_t a, uint32_t b) { std::string s; s.push_back((char)a); s.push_back((char)b); return s; }
extern "C" void h_enc_euckr() { inverse v = inv(refidx::euc_kr, all, none); uint32_t c = any_scalar(); if (c < 0x80) { run_enc(encoding_name::EUC_KR, c, std::string(1, (char)c), true); return; } std::int32_t p = find(v, c); run_enc(encoding_name::EUC_KR, c, b2(p / 190 + 0x81, p % 190 + 0x41), p >= 0); }
extern "C" void h_enc_big5() {
  inverse v = inv(refidx::big5, [](uint32_t i) { return i >= 5024; }, [](uint32_t c) { return c == 0x2550 || c == 0x255E || c == 0x2561 || c == 0x256A || c == 0x5341 || c == 0x5345; }); uint32_t c = any_scalar(); if (c < 0x80) { run_enc(encoding_name::Big5, c, std::string(1, (char)c), true); return; }
  std::int32_t p = find(v, c); uint32_t t = p % 157; run_enc(encoding_name::Big5, c, b2(p / 157 + 0x81, t < 63 ? t + 0x40 : t - 63 + 0xA1), p >= 0); }
extern "C" void h_enc_sjis() {
  inverse v = inv(refidx::jis0208, [](uint32_t i) { return i < 8272 || i > 8835; }, none); uint32_t c = any_scalar(); encoding_name e = encoding_name::Shift_JIS; if (c <= 0x80) { run_enc(e, c, std::string(1, (char)c), true); return; }
  if (c == 0xA5) { run_enc(e, c, "\\", true); return; } if (c == 0x203E) { run_enc(e, c, "~", true); return; } if (c >= 0xFF61 && c <= 0xFF9F) { run_enc(e, c, std::string(1, (char)(c - 0xFF61 + 0xA1)), true); return; }
  std::int32_t p = find(v, c == 0x2212 ? 0xFF0D : c); uint32_t l = p / 188, t = p % 188; run_enc(e, c, b2(l < 31 ? l + 0x81 : l - 31 + 0xE0, t < 63 ? t + 0x40 : t - 63 + 0x80), p >= 0); }
extern "C" void h_enc_eucjp() {
  inverse v = inv(refidx::jis0208, all, none); uint32_t c = any_scalar(); encoding_name e = encoding_name::EUC_JP; if (c < 0x80) { run_enc(e, c, std::string(1, (char)c), true); return; }
  if (c == 0xA5) { run_enc(e, c, "\\", true); return; } if (c == 0x203E) { run_enc(e, c, "~", true); return; } if (c >= 0xFF61 && c <= 0xFF9F) { run_enc(e, c, b2(0x8E, c - 0xFF61 + 0xA1), true); return; }
  std::int32_t p = find(v, c == 0x2212 ? 0xFF0D : c); run_enc(e, c, b2(p / 94 + 0xA1, p % 94 + 0xA1), p >= 0); }
extern "C" void h_enc_gb() {
  inverse v = inv(refidx::gb18030, all, none); bool gbk = vp_choose(2, "gbk"); encoding_name e = gbk ? encoding_name::GBK : encoding_name::gb18030; uint32_t c = any_scalar(); if (c < 0x80) { run_enc(e, c, std::string(1, (char)c), true); return; }
  if (c == 0xE5E5) { run_enc(e, c, "", false); return; } if (gbk && c == 0x20AC) { run_enc(e, c, "\x80", true); return; }
  std::int32_t p = find(v, c); if (p >= 0 || gbk) { uint32_t t = p % 190; run_enc(e, c, b2(p / 190 + 0x81, t < 63 ? t + 0x40 : t - 63 + 0x80), p >= 0); return; }
  uint32_t q; if (c == 0xE7C7) q = 7457; else { size_t lo = 0, hi = std::size(refidx::ranges); while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (refidx::ranges[m][1] <= c) lo = m; else hi = m; } q = refidx::ranges[lo][0] + (c - refidx::ranges[lo][1]); }
  std::string w; w.push_back((char)(q / 12600 + 0x81)); w.push_back((char)(q / 1260 % 10 + 0x30)); w.push_back((char)(q / 10 % 126 + 0x81)); w.push_back((char)(q % 10 + 0x30)); run_enc(e, c, w, true); vp_cover("four bytes"); }
static int set_of(uint32_t c) { if (c == 0xA5 || c == 0x203E) return 1; return c < 0x80 ? 0 : 2; }
extern "C" void h_enc_2022() {
  static char32_t const ctx[] = { U'a', U'\\', U'\u00A5', U'\u3042' }; inverse v = inv(refidx::jis0208, all, none); uint32_t c = any_scalar(); encoding_name e = encoding_name::ISO_2022_JP;
  uint32_t m = c == 0x2212 ? 0xFF0D : c; if (m >= 0xFF61 && m <= 0xFF9F) m = refidx::iso_2022_jp_katakana[m - 0xFF61];
  bool ok = m < 0x80 ? m != 0x0E && m != 0x0F && m != 0x1B : m == 0xA5 || m == 0x203E || find(v, m) >= 0;
  std::u32string s, t; if (vp_choose(2, "before")) s.push_back(ctx[vp_choose(4, "b")]); t = s; s.push_back(c); if (vp_choose(2, "after")) { s.push_back(U'z'); t.push_back(m); t.push_back(U'z'); } else t.push_back(m);
  auto q = text_queue(s); we::io_queue<char> out; auto ec = we::get_encoder(e); auto r = we::encode_or_fail(q, ec, out); vp_check(failed(r) == !ok, "error exactly on unmappable code points"); if (!ok) { vp_cover("unmappable"); return; }
  // the expected bytes: an escape wherever the character set changes
  std::string w; int at = 0; auto shift = [&](int to) { if (to == at) return; w += to == 0 ? "\x1B(B" : to == 1 ? "\x1B(J" : "\x1B$B"; at = to; };
  for (char32_t x : t) { if (at == 1 && x < 0x80 && x != U'\\' && x != U'~') { w.push_back((char)x); continue; } shift(set_of(x)); if (x < 0x80) w.push_back((char)x); else if (x == 0xA5) w.push_back('\\'); else if (x == 0x203E) w.push_back('~'); else { std::int32_t p = find(v, x); w.push_back((char)(p / 94 + 0x21)); w.push_back((char)(p % 94 + 0x21)); } }
  shift(0); vp_check(ref::same(bytes_of(out), w), "bytes of the text"); vp_cover("encoded"); }
extern "C" void h_html() {
  static encoding_name const es[] = { encoding_name::EUC_KR, encoding_name::Big5, encoding_name::Shift_JIS, encoding_name::EUC_JP, encoding_name::GBK, encoding_name::ISO_2022_JP, encoding_name::windows_1252 };
  encoding_name e = es[vp_choose(std::size(es), "encoding")]; uint32_t c = 0x20000 + (uint32_t)vp_choose(2, "plane") * 0xC1000 + 0xFF000 * 0 + vp_u8("cp"); vp_assume(c >= 0xE0000 || (c >= 0x20000 && c < 0x20002)); // not in any index
  std::u32string s = U"a"; s.push_back(c); s += U"b"; auto q = text_queue(s); we::io_queue<char> out; auto r = we::encode(q, e, out); vp_check(finished(r), "encoding ends"); std::string w = "a&#"; w += (char)('0' + c / 100000 % 10); w += (char)('0' + c / 10000 % 10); w += (char)('0' + c / 1000 % 10); w += (char)('0' + c / 100 % 10); w += (char)('0' + c / 10 % 10); w += (char)('0' + c % 10); w += ";b";
  vp_check(ref::same(bytes_of(out), w), "decimal character reference"); vp_cover("referenced"); }
