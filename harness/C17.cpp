// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp lib/whatwg/url/host.cpp lib/whatwg/url/url.cpp
// @rt runtime/rt_icu.cpp runtime/rt_sys.cpp
// @flags -DVP_FIND
// @entry h_scheme : any 0..3 ASCII characters before a colon and a rest, and in place of the whole URL
// @entry h_slashes : special, file and other schemes followed by up to 5 characters of / \ ? # : @ and a letter
// @entry h_user : up to 4 characters of : @ / and others, then @host; any single ASCII character in the user name
// @entry h_port : numbers whose last two digits are any (small, with leading zeros, around 65535 and 2^32) and any single character after host and colon, for schemes with different default ports
// @entry h_path : up to 5 characters of / \ . ? # and a letter, and dot segments written with %2e, in special, file and other URLs
// @entry h_path_any : any two ASCII characters, and any scalar value, inside the path, query and fragment
// @entry h_file : file URLs: drive letters, hosts and paths of up to 6 characters
// @entry h_host : any two ASCII characters in the host of a special and of another URL
// @entry h_strip : tabs, newlines, spaces and controls around and inside a URL
// @assume domain names are ASCII, at most 27 characters, no label has hyphens in its third and fourth place (runtime/rt_icu.cpp models ICU for these)
#include "urlref.h"
using namespace ru;
extern "C" void h_scheme() { std::u32string s = vp_ascii<std::u32string>(vp_len(0, vp_thorough() ? 4 : 3, "n"), "c"); unsigned k = vp_choose(3, "rest"); both(s + (k == 0 ? U":x" : k == 1 ? U"p://h" : U""), nullptr, true); }
extern "C" void h_slashes() { static char32_t const* const sc[] = { U"http:", U"wss:", U"a:", U"file:" }; std::u32string s = sc[vp_choose(4, "scheme")]; both(s + from("/\\?#:@b", vp_len(0, vp_thorough() ? 6 : 5, "n"), "c"), nullptr, true); }
extern "C" void h_user() { bool sp = vp_choose(2, "special"); std::u32string s = sp ? U"http://" : U"a://"; if (vp_choose(2, "any")) { s.push_back(vp_sym(7, "c")); s += U"b:"; s.push_back(vp_sym(7, "d")); } else s += from(":@/a%", vp_len(0, 4, "n"), "c"); both(s + U"@h", nullptr, true); }
extern "C" void h_port() {
  static char32_t const* const sc[] = { U"http", U"https", U"ws", U"wss", U"ftp", U"a" }; std::u32string s = sc[vp_choose(6, "scheme")]; s += U"://h:"; static char32_t const* const pre[] = { U"", U"0", U"00", U"655", U"8", U"44", U"6553", U"00008", U"99999", U"4294967", U"42949673" }; unsigned k = vp_choose(11, "prefix"), n = vp_len(0, 2, "n"); s += pre[k];
  for (unsigned i = 0; i < n; i++) { uint32_t d = vp_sym(4, "d"); vp_assume(d < 10); s.push_back('0' + d); } if (vp_choose(2, "char")) s.push_back(vp_sym(7, "c")); both(s, nullptr, n <= 1); }
extern "C" void h_path() {
  static char32_t const* const sc[] = { U"http://h", U"a://h", U"file://", U"a:" }; std::u32string s = sc[vp_choose(4, "scheme")]; s += U"/"; unsigned n = vp_len(0, vp_thorough() ? 6 : 5, "n");
  static char32_t const* const tok[] = { U"/", U".", U"\\", U"x", U"%2e", U"?", U"#", U"%2E" }; for (unsigned i = 0; i < n; i++) s += tok[vp_choose(n > 4 && !vp_thorough() ? 4 : 8, "c")]; both(s, nullptr, n <= 3); }
extern "C" void h_path_any() { static char32_t const* const sc[] = { U"http://h/", U"a://h/", U"a:b" }; std::u32string s = sc[vp_choose(3, "scheme")]; unsigned w = vp_choose(3, "where"); if (w) s += w == 1 ? U"?" : U"#"; if (vp_choose(2, "wide")) s.push_back(vp_scalar("c")); else { s.push_back(vp_sym(7, "a")); s.push_back(vp_sym(7, "b")); } both(s + U"z", nullptr, true); }
extern "C" void h_file() { unsigned n = vp_len(0, vp_thorough() ? 7 : 5, "n"); std::u32string s = U"file:"; unsigned k = vp_choose(4, "pre"); s += k == 0 ? U"" : k == 1 ? U"//" : k == 2 ? U"///" : U"//localhost"; both(s + from("/c:|.?", n, "c"), nullptr, true); }
extern "C" void h_host() { bool sp = vp_choose(2, "special"); std::u32string s = sp ? U"http://" : U"a://"; unsigned k = vp_choose(3, "shape"); char32_t a = vp_sym(7, "a"), b = vp_sym(7, "b"); if (k == 0) { s.push_back(a); s.push_back(b); } else if (k == 1) { s += U"x"; s.push_back(a); s += U"Y"; } else { s += U"1.%"; s.push_back(a); s.push_back(b); s += U"z"; } both(s + (vp_choose(2, "path") ? U"/" : U""), nullptr, true); }
extern "C" void h_strip() { std::u32string s; unsigned k = vp_choose(4, "where"); char32_t a = vp_sym(6, "a"), b = vp_sym(6, "b"); vp_assume(a <= 0x20); vp_assume(b <= 0x20); std::u32string ab{ a, b }; both(k == 0 ? ab + U"http://h/" : k == 1 ? U"http://h/" + ab : k == 2 ? U"ht" + ab + U"tp://h/" : U"http://h/" + ab + U"x", nullptr, true); }
