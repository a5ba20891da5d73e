// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp lib/whatwg/url/host.cpp lib/whatwg/url/url.cpp
// @rt runtime/rt_icu.cpp runtime/rt_sys.cpp
// @flags -DVP_FIND
// @entry h_points : any 32-bit number: URL code point, forbidden host code point
// @entry h_drive : any 0..4 code points: drive letters, normalized drive letters, text starting with a drive letter
// @entry h_dots : any 0..6 (thorough 0..7) code points below 256: single and double dot segments
// @entry h_scheme : any 0..6 ASCII characters: special schemes and default ports
// @entry h_record : any user name and password of 0..1 characters, host kinds, schemes, and paths of 0..2 segments of 0..2 characters: credentials, cannot-have, shortening
// @entry h_ipv6 : any 0..4 ASCII characters, and 5..7 of those an address consists of, and any two or three after seven pieces; alone and as a bracketed host
// @entry h_opaque : any 0..4 code points as an opaque host
// @entry h_domain : any 0..5 (thorough 0..6) ASCII characters as a domain and as a host, strictly and not: validity, ASCII and Unicode forms
// @assume domain names are ASCII, at most 27 characters, without labels of the form "??--" (ICU is modelled for these; non-ASCII names are C28)
// @assume the writing predicates the library documents as not implemented (is_valid_url_string and its parts) are not called
#include "url.h"
#include "urlref.h"
using S = std::u32string;
static S any(size_t n, unsigned bits) { S s; for (size_t i = 0; i < n; i++) s.push_back((char32_t)vp_sym(bits, "c")); return s; }
static bool upt(char32_t c) { bool r = ru::alpha(c) | ru::digit(c) | ru::mem(c, "!$&'()*+,-./:;=?@_~"); bool hi = (c >= 0xA0) & (c <= 0x10FFFD) & !((c >= 0xD800) & (c <= 0xDFFF)) & !((c >= 0xFDD0) & (c <= 0xFDEF)) & ((c & 0xFFFE) != 0xFFFE); return r | hi; }
extern "C" void h_points() { char32_t c = (char32_t)vp_u32("c"); vp_check(is_url_code_point(c) == upt(c), "URL code point"); vp_check(is_forbidden_host_code_point(c) == ru::forbidden(c), "forbidden host code point"); vp_cover("point"); }
extern "C" void h_drive() {
  S s = any(vp_len(0, 4, "n"), 21); vp_check(is_windows_drive_letter(s) == ru::drive(s), "drive letter"); vp_check(is_normalized_windows_drive_letter(s) == ru::ndrive(s), "normalized drive letter"); vp_check(starts_with_windows_drive_letter(s.data(), s.data() + s.size()) == ru::sdrive(s), "starts with a drive letter");
  if (s.size() == 2) { vp_check(is_windows_drive_letter(s[0], s[1]) == ru::drive(s), "drive letter, two characters"); vp_check(is_normalized_windows_drive_letter(s[0], s[1]) == ru::ndrive(s), "normalized drive letter, two characters"); if (ru::drive(s)) vp_cover("drive"); } vp_cover("no drive");
}
extern "C" void h_dots() { S s = any(vp_len(0, vp_thorough() ? 7 : 6, "n"), 8); bool a = ru::dot1(s), b = ru::dot2(s); vp_check(is_single_dot_path_segment(s) == a, "single dot segment"); vp_check(is_double_dot_path_segment(s) == b, "double dot segment"); if (a) vp_cover("single"); if (b) vp_cover("double"); }
extern "C" void h_scheme() { S s = any(vp_len(0, 6, "n"), 7); bool sp = ru::special(s); vp_check(is_special_scheme(s) == sp, "special scheme"); auto p = default_port(s); int w = ru::defport(s); vp_check(p.has_value() == (w >= 0), "has a default port"); if (w >= 0) { vp_check(*p == w, "default port"); vp_cover("port"); } if (sp) { url_record_base u; u.m_scheme = s; vp_check(is_special(u), "special URL"); vp_cover("special"); } }
extern "C" void h_record() {
  url_record_base u; static char32_t const* const sch[] = { U"http", U"file", U"x" }; u.m_scheme = sch[vp_choose(3, "scheme")]; bool file = u.m_scheme == U"file";
  u.m_username = any(vp_len(0, 1, "user"), 7); u.m_password = any(vp_len(0, 1, "password"), 7); bool cr = !u.m_username.empty() || !u.m_password.empty(); vp_check(includes_credentials(u) == cr, "includes credentials");
  bool none = false; switch (vp_choose(4, "host")) { case 0: none = true; break; case 1: u.m_host = host_base(domain_base{ U"" }); none = true; break; case 2: u.m_host = host_base(domain_base{ U"h" }); break; default: u.m_host = host_base(ipv4_address_base{ vp_u32("a") }); }
  u.m_cannot_be_base_url = vp_choose(2, "opaque path"); vp_check(cannot_have_username_or_password_or_port(u) == (none || u.m_cannot_be_base_url || file), "cannot have a user name, password or port");
  ru::rec r; r.scheme = u.m_scheme; size_t n = vp_len(0, 2, "segments"); for (size_t i = 0; i < n; i++) { S s = any(vp_len(0, 2, "len"), 7); u.m_path.push_back(s); r.path.push_back(s); }
  shorten_urls_path(u); ru::shorten(r); vp_check(u.m_path.size() == r.path.size(), "shortened path"); for (size_t i = 0; i < r.path.size(); i++) vp_check(ref::same(u.m_path[i], r.path[i]), "rest of the path"); vp_cover(n > r.path.size() ? "shortened" : "kept");
}
static bool v6(S const& s) { std::array<uint16_t, 8> a; return ru::ipv6(s, a); }
extern "C" void h_ipv6() { size_t n = vp_len(0, 9, "n"); S s; if (n > 7) s = U"1:2:3:4:5:6:7" + any(n - 6, 7); else if (n <= 4) s = any(n, 7); else { s.push_back(U"0:"[vp_choose(2, "c")]); for (size_t i = 1; i < n; i++) s.push_back(U":0.f"[vp_choose(4, "c")]); } bool w = v6(s); vp_check(is_valid_ipv6_address_string(s) == w, "valid IPv6 string"); S b = U"[" + s + U"]"; vp_check(is_valid_opaque_host_string(b) == w, "bracketed, as an opaque host"); vp_check(is_valid_host_string(b) == w, "bracketed, as a host"); vp_cover(w ? "valid" : "invalid"); }
extern "C" void h_opaque() {
  S s = any(vp_len(0, 4, "n"), 21); bool w = !s.empty(); if (s.size() >= 3 && s[0] == '[' && s.back() == ']') w = v6(s.substr(1, s.size() - 2)); else for (size_t i = 0; w && i < s.size(); i++) { if (s[i] == '%') w = s.size() - i >= 3 && ru::hexv(s[i + 1]) >= 0 && ru::hexv(s[i + 2]) >= 0; else w = upt(s[i]) & !ru::forbidden(s[i]); }
  vp_check(is_valid_opaque_host_string(s) == w, "valid opaque host string"); vp_cover(w ? "valid" : "invalid");
}
extern "C" void h_domain() {
  S s = any(vp_len(0, vp_thorough() ? 6 : 5, "n"), 7), low; bool ldh = true, hole = s.empty(); size_t st = 0; for (size_t i = 0; i < s.size(); i++) { char32_t c = s[i]; low.push_back(ru::lower(c)); if (c == '.') { if (i == st) hole = true; st = i + 1; } else ldh &= ru::alpha(c) | ru::digit(c) | (c == '-'); }
  bool w = ldh && !hole; vp_check(is_valid_domain_string(s) == w, "valid domain string");
  std::error_code e1, e2, e3; S a = domain_to_ascii(s, true, e1), b = domain_to_ascii(s, e2), u = domain_to_unicode(s, e3);
  vp_check(!e1 == w, "strict: fails exactly for empty labels and characters other than letters, digits and hyphens"); vp_check(!e2 == !s.empty(), "not strict: fails only for the empty name"); vp_check(!e3, "the Unicode form of an ASCII name is no error");
  if (w) vp_check(ref::same(a, low), "ASCII form, strict"); if (!s.empty()) { vp_check(ref::same(b, low), "ASCII form"); vp_check(ref::same(u, low), "Unicode form"); } vp_cover(w ? "valid" : "invalid");
}
