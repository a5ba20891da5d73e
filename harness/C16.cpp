// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp lib/whatwg/url/host.cpp
// @rt runtime/rt_icu.cpp runtime/rt_sys.cpp
// @flags -DVP_FIND
// @entry h_parse : any string of 0..6 characters: rejected exactly when the reference rejects it, else the same eight pieces
// @entry h_shape : up to nine pieces of one digit with the colons doubled, or left out, at any places
// @entry h_digits : pieces of one to five characters, each any ASCII character, in a full and in a compressed address
// @entry h_v4 : dotted tails of any characters after zero to seven pieces, compressed or not
// @entry h_v4_parts : dotted tails of three to five decimal numbers of up to four digits
// @entry h_serialize : every pattern of zero and non-zero pieces serializes as the reference does and parses back
// @entry h_piece : any 16-bit value of any one piece (thorough: and of two neighbouring pieces) between zero or non-zero pieces
// @entry h_host : a bracketed address as host: parsed, serialized in brackets, and an unclosed bracket rejected
#include "url.h"
static void same(std::u32string const& s) {
  std::array<uint16_t, 8> a; bool ok = ru::ipv6(s, a); std::error_code ec; host_base h = parse_ipv6(s, ec);
  if (!ok) { vp_check(failedHost(h), "not an IPv6 address"); vp_check(!!ec, "the error is reported"); vp_cover("rejected"); return; }
  vp_check(h.type() == host_type_name::Ipv6Address, "an IPv6 address"); vp_check(!ec, "no error reported"); vp_check(ref::same(h.get<ipv6_address_base>().m_value, a), "pieces"); vp_cover("accepted");
}
extern "C" void h_parse() { static char const al[] = "0:.fg1F"; unsigned n = vp_len(0, vp_thorough() ? 7 : 6, "n"); std::u32string s; for (unsigned i = 0; i < n; i++) s.push_back(n <= 4 ? (char32_t)vp_sym(7, "c") : (char32_t)al[vp_choose(5, "c")]); same(s); }
extern "C" void h_shape() {
  unsigned n = vp_len(0, 9, "pieces"); std::u32string s; unsigned k = vp_choose(n + 2, "double"), k2 = vp_choose(2, "again") ? vp_choose(n + 1, "double") : 99; // ':' doubled before piece k (k = n: after the last)
  for (unsigned i = 0; i <= n; i++) { if (i == k || i == k2) s += U"::"; else if (i && i < n) s += U":"; if (i < n) s.push_back(U'0' + (char32_t)(vp_sym(3, "d"))); } same(s);
}
extern "C" void h_digits() { bool full = vp_choose(2, "full"); unsigned p = vp_choose(3, "place"), n = vp_len(1, vp_thorough() ? 5 : 4, "n"); std::u32string x; for (unsigned i = 0; i < n; i++) x.push_back(vp_sym(7, "c")); if (n == 4 && vp_choose(2, "five")) x.push_back('a');
  if (full) same(p == 0 ? x + U":1:2:3:4:5:6:7" : p == 1 ? U"1:2:3:" + x + U":4:5:6:7" : U"1:2:3:4:5:6:7:" + x); else same(p == 0 ? x + U"::1" : p == 1 ? U"1::" + x + U":2" : U"1::" + x); }
extern "C" void h_v4() {
  static char32_t const* const pre[] = { U"::", U"1::", U"1:2:3:4:5:6:", U"1:2:3:4:5:6:7:", U"1:2:3:4:5::", U"1:2:3:4::5:", U"1:2:3:4:5:6::", U"" }; std::u32string s = pre[vp_choose(8, "pieces")];
  unsigned k = vp_choose(3, "shape"); if (k == 0) { unsigned n = vp_len(0, 3, "n"); s += U"1.2."; for (unsigned i = 0; i < n; i++) s.push_back(vp_sym(7, "c")); s += U".4"; } else if (k == 1) { unsigned n = vp_len(0, 3, "n"); s += U"1.2.3."; for (unsigned i = 0; i < n; i++) s.push_back(vp_sym(7, "c")); } else { unsigned n = vp_len(0, 3, "n"); for (unsigned i = 0; i < n; i++) s.push_back(vp_sym(7, "c")); s += U".2.3.4"; if (vp_choose(2, "more")) s.push_back(vp_sym(7, "c")); } same(s);
}
extern "C" void h_v4_parts() { std::u32string s = U"::"; unsigned n = vp_len(3, 5, "parts"); for (unsigned i = 0; i < n; i++) { if (i) s += U"."; unsigned m = i == 1 ? vp_len(0, 4, "len") : i == n - 1 ? vp_len(1, 3, "len") : 1; for (unsigned j = 0; j < m; j++) { uint32_t d = vp_sym(4, "d"); vp_assume(d < 10); s.push_back('0' + d); } } same(s); }
static void back(std::array<uint16_t, 8> const& a) {
  ipv6_address_base x{}; x.m_value = a; host_base h(x); std::u32string s = serialize_ipv6(h), w = ru::ipv6s(a); vp_check(ref::same(s, w), "shortest form, longest run of zeros compressed"); vp_check(ref::same(serialize_host(h), U"[" + w + U"]"), "in brackets");
  std::error_code ec; host_base b = parse_ipv6(s, ec); vp_check(b.type() == host_type_name::Ipv6Address && b == h, "parses back"); vp_cover("serialized");
}
extern "C" void h_serialize() { std::array<uint16_t, 8> a; for (int i = 0; i < 8; i++) a[i] = vp_choose(2, "zero") ? 0 : (uint16_t)(0x9 + 0x17 * i * i); back(a); }
extern "C" void h_piece() { std::array<uint16_t, 8> a; uint16_t f = vp_choose(2, "others") ? 0 : 7; a.fill(f); unsigned i = vp_choose(8, "piece"); a[i] = vp_u16("v"); if (vp_thorough() && i < 7 && vp_choose(2, "two")) a[i + 1] = vp_u16("w"); back(a); }
extern "C" void h_host() {
  std::u32string x = U"1::"; unsigned n = vp_len(0, 2, "n"); for (unsigned i = 0; i < n; i++) x.push_back(vp_sym(7, "c")); bool close = vp_choose(2, "close"), opaque = vp_choose(2, "opaque"); std::u32string s = U"[" + x + (close ? U"]" : U""); if (!close) { bool e = s.back() == ']'; vp_assume(!e); }
  std::array<uint16_t, 8> a; bool ok = close && ru::ipv6(x, a); std::error_code ec; host_base h = opaque ? parse_host(s, true, ec) : parse_host(s, ec); vp_check(failedHost(h) == !ok, "accepted"); if (ok) vp_check(h.type() == host_type_name::Ipv6Address && ref::same(h.get<ipv6_address_base>().m_value, a), "pieces"); vp_cover("host");
}
