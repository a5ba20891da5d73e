// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp lib/whatwg/url/host.cpp
// @rt runtime/rt_icu.cpp runtime/rt_sys.cpp
// @flags -DVP_FIND
// @entry h_number : any string of 1..5 ASCII characters as one part of an IPv4 address
// @entry h_big : decimal, hexadecimal and octal numbers around 2^32 and 2^64 and with leading zeros (the last two or three digits, thorough four, are any), alone and as the last part
// @entry h_parse : any string of 1..5 ASCII characters: not an IPv4 address, a failure, or the same address as the reference
// @entry h_parts : one to five parts of one or two characters, decimal digits or the ones that change the radix
// @entry h_dotted : four decimal parts of one to three digits each, with or without the final dot
// @entry h_serialize : any 32-bit address serializes to four decimal numbers and parses back to itself
// @entry h_valid : valid IPv4 address strings are exactly four decimal numbers 0 to 255 without leading zeros; any 0..8 characters and dotted quads
// @entry h_equal : hosts are equal exactly when they are of the same kind and value
#include "url.h"
extern "C" void h_number() {
  std::u32string s = vp_ascii<std::u32string>(vp_len(1, 5, "n"), "c"); uint64_t w; bool ok = ru::number(s, w);
  auto r = parse_ipv4_number(s); vp_check(r.first.has_value() == ok, "is a number"); if (ok) vp_check((uint64_t)*r.first == w, "value"); vp_cover(ok ? "number" : "not a number");
}
// what the standard reports on: a final dot, a part that is not plain decimal, a number above 255
static bool odd(std::u32string s) { bool o = false; if (s.back() == '.') { o = true; s.pop_back(); } for (auto& p : ru::split(s, '.')) { uint64_t w; if (!ru::number(p, w)) return o; if (p.size() >= 2 && p[0] == '0') o = true; if (w > 255) o = true; } return o; }
static void same(std::u32string const& s) {
  uint32_t a = 0; ru::kind k = ru::ipv4(s, a); std::error_code ec; host_base h = parse_ipv4(s, ec); vp_check((bool)ec == (k != ru::notip && odd(s)), "the error code reports exactly rejected addresses and unusual spellings");
  if (k == ru::fail) { vp_check(failedHost(h), "failure"); vp_cover("failure"); return; }
  if (k == ru::notip) { vp_check(!failedHost(h) && h.type() != host_type_name::Ipv4Address, "not an IPv4 address"); vp_check(h.type() == host_type_name::OpaqueHost && ref::same(h.get<opaque_host_base>().m_value, s), "the input unchanged"); vp_cover("not an address"); return; }
  vp_check(h.type() == host_type_name::Ipv4Address, "an IPv4 address"); vp_check(h.get<ipv4_address_base>().m_value == a, "address"); vp_cover("address");
}
extern "C" void h_parse() { same(vp_ascii<std::u32string>(vp_len(1, vp_thorough() ? 6 : 5, "n"), "c")); }
extern "C" void h_parts() {
  unsigned n = vp_len(1, 5, "parts"); std::u32string s; static char32_t const al[] = U"0179xfX."; for (unsigned i = 0; i < n; i++) { if (i) s += U"."; unsigned m = n > 3 ? 1 : vp_len(0, 2, "len"); for (unsigned j = 0; j < m; j++) s.push_back(n > 3 && i < 2 ? al[vp_choose(2, "d")] : al[vp_choose(7, "d")]); } if (s.empty()) return; same(s);
}
extern "C" void h_big() {
  static char32_t const* const pre[3][4] = { { U"4294967", U"429496", U"1844674407370955", U"0" }, { U"0xFFFFF", U"0x1000000", U"0xFFFFFFFFFFFFF", U"0x0000000" }, { U"037777777", U"0400000000", U"0177777777777777777", U"0000000000" } };
  unsigned r = vp_choose(3, "radix"); std::u32string s = vp_choose(2, "dot") ? U"0." : U""; s += pre[r][vp_choose(4, "prefix")]; if (r == 0 && s.back() == '0') return;
  unsigned n = vp_len(2, vp_thorough() ? 4 : 3, "n"); for (unsigned i = 0; i < n; i++) { uint32_t d = vp_sym(r == 2 ? 3 : 4, "d"); if (r == 0) vp_assume(d < 10); s.push_back(d < 10 ? '0' + d : 'a' + d - 10); } same(s);
}
extern "C" void h_dotted() {
  std::u32string s; for (int i = 0; i < 4; i++) { if (i) s += U"."; unsigned n = vp_thorough() || i == 0 || i == 3 ? vp_len(1, 3, "n") : 1 + 2 * vp_choose(2, "n"); for (unsigned j = 0; j < n; j++) { uint32_t d = vp_sym(4, "d"); vp_assume(d < 10); if (j == 0 && n > 1) vp_assume(d > 0); s.push_back('0' + d); } } if (vp_choose(2, "dot")) s += U"."; same(s);
}
extern "C" void h_serialize() {
  uint32_t a = vp_u32("address"); unsigned k = vp_choose(4, "which"); if (!vp_thorough()) a = (0x7F00C805u & ~(0xFFu << (8 * k))) | (a & 0xFFu) << (8 * k); // quick: each byte in turn
  host_base h(ipv4_address_base{ a }); std::u32string s = serialize_ipv4(h); vp_check(ref::same(s, ru::ipv4s(a)), "dotted decimal"); vp_check(ref::same(serialize_host(h), s), "host serializer");
  std::error_code ec; host_base b = parse_ipv4(s, ec); vp_check(b.type() == host_type_name::Ipv4Address && b.get<ipv4_address_base>().m_value == a, "parses back"); vp_check(b == h, "equal"); vp_check(is_valid_ipv4_address_string(s), "valid"); vp_cover("serialized");
}
extern "C" void h_valid() {
  std::u32string s; if (vp_choose(2, "shape")) { for (int i = 0; i < 4; i++) { if (i) s += U"."; unsigned n = i == 1 ? vp_len(1, 4, "n") : 1; for (unsigned j = 0; j < n; j++) s.push_back(vp_sym(7, "c")); } } else { s = vp_ascii<std::u32string>(vp_len(0, vp_thorough() ? 8 : 7, "n"), "c"); }
  auto p = ru::split(s, '.'); bool ok = p.size() == 4; for (auto& x : p) { uint32_t v = 0; if (x.empty() || x.size() > 3 || (x.size() > 1 && x[0] == '0')) { ok = false; break; } for (char32_t c : x) { if (c < '0' || c > '9') ok = false; v = v * 10 + (c - '0'); } if (v > 255) ok = false; }
  vp_check(is_valid_ipv4_address_string(s) == ok, "valid IPv4 address string"); vp_cover(ok ? "valid" : "invalid");
}
extern "C" void h_equal() {
  auto mk = [](unsigned k, uint32_t v) -> host_base { std::u32string t(1, (char32_t)('a' + v)); switch (k) { case 0: return domain_base{ t }; case 1: return ipv4_address_base{ v }; case 2: { ipv6_address_base x{}; x[5] = v; return x; } case 3: return opaque_host_base{ t }; default: return empty_host_base{}; } };
  unsigned k = vp_choose(5, "kind"), l = vp_choose(5, "kind"); uint32_t v = vp_sym(3, "v"), w = vp_sym(3, "v"); host_base a = mk(k, v), b = mk(l, w);
  vp_check((a == b) == (k == l && (v == w || k == 4)), "equality"); vp_cover("equal");
}
