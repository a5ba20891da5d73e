// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp
// @entry h_sets : membership of any code point in each of the eight percent-encode sets
// @entry h_byte : any byte percent-encoded is % and two upper-case hexadecimal digits, recognised as a percent-encoded byte and decoded back
// @entry h_starts : any 0..4 bytes: is / starts with a percent-encoded byte
// @entry h_decode : any 0..7 bytes percent-decoded
// @entry h_string_decode : any 0..2 (thorough: 0..3) scalar values, around a percent-encoded byte, percent-decoded to bytes
// @entry h_utf8 : any scalar value, alone or next to a space, percent sign or letter (thorough: any two scalar values), UTF-8 percent-encoded with each set (longer strings: the path set); a code point alone likewise
// @entry h_roundtrip : percent-decoding what the component set encoded gives the UTF-8 bytes back, same strings
// @entry h_plus : spaces become plus signs exactly when asked for, any 0..3 ASCII characters
// @entry h_legacy : text mixing encodable and unencodable characters, percent-encoded after windows-1252, Shift_JIS and ISO-2022-JP encoding
// @entry h_integer : any integer below 2^17 (thorough: 2^21) serialized in decimal
#include "enc.h"
#include <wordring/whatwg/url/infra.hpp>
using namespace wordring::whatwg; using std::uint8_t; using std::uint32_t;
typedef bool (*set_t)(char32_t);
static bool in(char32_t c, char const* s) { bool r = false; for (; *s; s++) r |= c == (char32_t)*s; return r; }
static bool c0(char32_t c) { return (c <= 0x1F) | (c > 0x7E); }
static bool r_frag(char32_t c) { return c0(c) | in(c, " \"<>`"); }
static bool r_query(char32_t c) { return c0(c) | in(c, " \"#<>"); }
static bool r_squery(char32_t c) { return c0(c) | in(c, " \"#<>'"); }
static bool r_path(char32_t c) { return c0(c) | in(c, " \"#<>?`{}"); }
static bool r_user(char32_t c) { return c0(c) | in(c, " \"#<>?`{}/:;=@[\\]^|"); }
static bool r_comp(char32_t c) { return c0(c) | in(c, " \"#<>?`{}/:;=@[\\]^|$%&+,"); }
static bool r_form(char32_t c) { bool keep = ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | in(c, "*-._"); return !keep; }
static set_t const lib[8] = { is_c0_control_percent_encode_set, is_fragment_percent_encode_set, is_query_percent_encode_set, is_special_query_percent_encode_set, is_path_percent_encode_set, is_userinfo_percent_encode_set, is_component_percent_encode_set, application_x_www_form_urlencoded_percent_encode_set };
static set_t const rf[8] = { c0, r_frag, r_query, r_squery, r_path, r_user, r_comp, r_form };
extern "C" void h_sets() { unsigned k = vp_choose(8, "set"); char32_t c = (char32_t)vp_u32("cp"); vp_assume(c <= 0x10FFFF); vp_check(lib[k](c) == rf[k](c), "membership in the set"); vp_cover("set"); }
static char hexd(uint32_t v) { return (char)(v < 10 ? '0' + v : 'A' + v - 10); }
template <class S> static void pct(S& s, uint8_t b) { s.push_back('%'); s.push_back(hexd(b >> 4)); s.push_back(hexd(b & 15)); }
extern "C" void h_byte() {
  uint8_t b = vp_u8("b"); std::string s, w; percent_encode(b, std::back_inserter(s)); pct(w, b); vp_check(ref::same(s, w), "percent-encoded byte");
  vp_check(is_percent_encoded_byte(s.begin(), s.end()), "recognised"); std::string d; percent_decode(s.begin(), s.end(), std::back_inserter(d)); vp_check(d.size() == 1 && (uint8_t)d[0] == b, "decoded back"); vp_cover("byte");
}
static int hexv(uint32_t b) { return b >= '0' && b <= '9' ? (int)b - '0' : b >= 'a' && b <= 'f' ? (int)b - 'a' + 10 : b >= 'A' && b <= 'F' ? (int)b - 'A' + 10 : -1; }
static bool at(std::string const& s, size_t i) { return i + 2 < s.size() && s[i] == '%' && hexv((uint8_t)s[i + 1]) >= 0 && hexv((uint8_t)s[i + 2]) >= 0; }
extern "C" void h_starts() {
  std::string s = vp_bytes(vp_len(0, 4, "n"), "b"); bool w = at(s, 0);
  vp_check(starts_with_percent_encoded_byte(s.begin(), s.end()) == w, "starts with"); vp_check(is_percent_encoded_byte(s.begin(), s.end()) == (w && s.size() == 3), "is"); vp_cover("starts");
}
static std::string decoded(std::string const& s) { std::string o; for (size_t i = 0; i < s.size();) if (at(s, i)) { o.push_back((char)(hexv((uint8_t)s[i + 1]) * 16 + hexv((uint8_t)s[i + 2]))); i += 3; } else o.push_back(s[i++]); return o; }
extern "C" void h_decode() { std::string s = vp_bytes(vp_len(0, vp_thorough() ? 8 : 7, "n"), "b"), d; std::string w = decoded(s); percent_decode(s.begin(), s.end(), std::back_inserter(d)); vp_check(ref::same(d, w), "decoded bytes"); vp_cover("decoded"); }
extern "C" void h_string_decode() {
  std::u32string s = vp_scalars(vp_len(0, vp_thorough() ? 2 : 1, "n"), "c"); if (vp_choose(2, "pct")) { s += U"%"; s.push_back(vp_sym(7, "h")); s.push_back(vp_sym(7, "l")); } s += vp_scalars(vp_len(0, 1, "m"), "d");
  std::string w = decoded(ref::enc<std::string>(s)), d; string_percent_decode(s.begin(), s.end(), std::back_inserter(d)); vp_check(ref::same(d, w), "decoded bytes"); vp_cover("decoded");
}
// one scalar value, alone or before or after a space, a percent sign or a letter (thorough: 0..2 scalar values)
static std::u32string text() { if (vp_thorough()) return vp_scalars(vp_len(0, 2, "n"), "c"); std::u32string s; unsigned k = vp_choose(4, "shape"); if (k == 0) return s; s.push_back(vp_scalar("c")); if (k > 1) s.insert(k == 2 ? s.begin() : s.end(), (char32_t)" %a"[vp_choose(3, "a")]); return s; }
static std::u32string encoded(std::string const& bytes, unsigned k, bool plus = false) { std::u32string o; for (char c : bytes) { uint8_t b = (uint8_t)c; if (plus && b == ' ') o.push_back('+'); else if (rf[k](b)) pct(o, b); else o.push_back(b); } return o; }
extern "C" void h_utf8() {
  std::u32string s = text(); unsigned k = s.size() > 1 ? 4 : vp_choose(8, "set"); std::u32string w = encoded(ref::enc<std::string>(s), k);
  vp_check(ref::same(utf8_percent_encode(s, lib[k]), w), "percent-encoded string"); if (s.size() == 1) vp_check(ref::same(utf8_percent_encode(s[0], lib[k]), w), "percent-encoded code point"); vp_cover("encoded");
}
extern "C" void h_roundtrip() {
  unsigned k = vp_thorough() ? 6 + vp_choose(2, "set") : 6; std::u32string s = text(); std::u32string e = utf8_percent_encode(s, lib[k]); std::string d;
  bool asc = true; for (char32_t c : e) asc &= c < 0x7F; vp_check(asc, "the encoded string is ASCII"); string_percent_decode(e.begin(), e.end(), std::back_inserter(d)); vp_check(ref::same(d, ref::enc<std::string>(s)), "decoded back"); vp_cover("round trip");
}
extern "C" void h_plus() {
  bool plus = vp_choose(2, "plus"); unsigned k = vp_choose(2, "form") ? 7 : 0; std::u32string s = vp_ascii<std::u32string>(vp_len(0, 3, "n"), "c");
  vp_check(ref::same(percent_encode_after_encoding(encoding_name::UTF_8, s, lib[k], plus), encoded(ref::enc<std::string>(s), k, plus)), "space as plus"); vp_cover("plus");
}
struct item { char32_t c; char const* sb; char const* sj; char const* jis; }; // bytes in windows-1252, Shift_JIS; JIS row (ISO-2022-JP)
static item const items[] = { { 'a', "a", "a", nullptr }, { ' ', " ", " ", nullptr }, { 0xE9, "\xE9", nullptr, nullptr }, { 0x3042, nullptr, "\x82\xA0", "\x24\x22" }, { 0x20AC, "\x80", nullptr, nullptr }, { 0x1F600, nullptr, nullptr, nullptr }, { 0xA5, "\xA5", "\x5C", nullptr } };
extern "C" void h_legacy() {
  unsigned e = vp_choose(3, "encoding"), n = vp_len(0, vp_thorough() ? 4 : 3, "n"), k = vp_choose(2, "form") ? 7 : 3; std::u32string s, w; int mode = 0; // ISO-2022-JP: 0 ASCII, 1 Roman, 2 JIS X 0208
  auto esc = [&](int m) { if (mode != m) { mode = m; w += encoded(m == 0 ? "\x1B(B" : m == 1 ? "\x1B(J" : "\x1B$B", k); } };
  for (unsigned i = 0; i < n; i++) {
    item const& t = items[vp_choose(sizeof items / sizeof *items, "char")]; s.push_back(t.c); char const* b = e == 0 ? t.sb : t.sj;
    if (e == 2) { b = nullptr; if (t.c < 0x80) { if (mode == 2) esc(0); b = t.sb; } else if (t.c == 0xA5) { esc(1); b = "\\"; } else if (t.jis) { esc(2); b = t.jis; } }
    if (e == 2 && !b && mode == 2) esc(0); if (b) w += encoded(b, k); else { w += U"%26%23"; std::string d = std::to_string((unsigned)t.c); w.append(d.begin(), d.end()); w += U"%3B"; }
  }
  if (e == 2) esc(0);
  auto nm = e == 0 ? encoding_name::windows_1252 : e == 1 ? encoding_name::Shift_JIS : encoding_name::ISO_2022_JP;
  vp_check(percent_encode_after_encoding(nm, s, lib[k]) == w, "encoded, unencodable characters as references"); vp_cover("legacy");
}
extern "C" void h_integer() {
  uint32_t v = vp_sym(vp_thorough() ? 21 : 17, "v"); std::string s; serialize_integer((char32_t)v, std::back_inserter(s)); vp_check(s.size() >= 1 && s.size() <= 10, "length");
  std::uint64_t x = 0; bool dig = true; for (char c : s) { dig &= c >= '0' && c <= '9'; x = x * 10 + (c - '0'); } vp_check(dig, "digits"); vp_check(x == v, "value"); vp_check(s.size() == 1 || s[0] != '0', "no leading zero"); vp_cover("integer");
}
