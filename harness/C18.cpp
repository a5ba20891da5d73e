// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp lib/whatwg/url/host.cpp lib/whatwg/url/url.cpp
// @rt runtime/rt_icu.cpp runtime/rt_sys.cpp
// @flags -DVP_FIND
// @entry h_relative : references of up to 4 (thorough 5) characters of / \ . ? # : and letters against ten base URLs, with and without a scheme in front
// @entry h_dots : references of dot segments, names and slashes against bases with zero to three path segments
// @entry h_file : references to drives, hosts and paths against file bases with and without drive letters
// @entry h_any : any two ASCII characters as the reference
// @assume domain names are ASCII, at most 27 characters, no label has hyphens in its third and fourth place (runtime/rt_icu.cpp models ICU for these)
#include "urlref.h"
using namespace ru;
static char32_t const* const bases[] = { U"http://u:p@h:8/a/b?q#f", U"https://h", U"a://u@h:7/x/y?z#w", U"a:/p/q", U"mailto:x?y", U"a:/", U"file:///C:/a/b?q", U"file://h/a", U"file:///", U"ws://1.2.3.4/a/../b/" };
extern "C" void h_relative() { std::u32string b = bases[vp_choose(10, "base")]; unsigned k = vp_choose(3, "scheme"); std::u32string s = k == 0 ? U"" : k == 1 ? U"http:" : b.substr(0, b.find(':') + 1); both(s + from("/\\.?#:c", vp_len(0, k == 0 ? vp_thorough() ? 5 : 4 : 3, "n"), "c"), &b, k == 0); }
extern "C" void h_dots() { static char32_t const* const bs[] = { U"http://h", U"http://h/a/", U"a:/a/b", U"a://h/a/b/c", U"a://h", U"file:///C:/x" }; std::u32string b = bs[vp_choose(6, "base")], s; static char32_t const* const tok[] = { U"/", U"..", U"x", U".%2E", U"." }; unsigned n = vp_len(0, vp_thorough() ? 6 : 5, "n"); for (unsigned i = 0; i < n; i++) s += tok[vp_choose(n > 4 ? 3 : 5, "c")]; both(s, &b, false); }
extern "C" void h_file() { static char32_t const* const bs[] = { U"file:///C:/a/b", U"file:///C:", U"file://h/x/y", U"file:///", U"file://h/D:/", U"http://h/C:/x" }; std::u32string b = bs[vp_choose(6, "base")]; std::u32string s = vp_choose(2, "scheme") ? U"file:" : U""; static char32_t const* const tok[] = { U"/", U"c:", U"d|", U"..", U"x", U"?", U"\\" }; unsigned n = vp_len(0, 4, "n"); for (unsigned i = 0; i < n; i++) s += tok[vp_choose(7, "c")]; both(s, &b, n <= 3); }
extern "C" void h_any() { std::u32string b = bases[vp_choose(10, "base")], s = vp_choose(2, "dot") ? U"./" : U""; s.push_back(vp_sym(7, "c")); s.push_back(vp_sym(7, "d")); both(s, &b, true); }
