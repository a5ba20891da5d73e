// @libs lib/whatwg/encoding/encoding.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/indexes_pointer.cpp lib/whatwg/url/host.cpp lib/whatwg/url/url.cpp
// @rt runtime/rt_icu.cpp runtime/rt_sys.cpp
// @flags -DVP_FIND
// @entry h_protocol : any of 14 schemes, and any two ASCII characters, set on sixteen URLs
// @entry h_composed : any scheme, credentials, host and port combined, then any setter they restrict
// @entry h_user : user name and password of any two ASCII characters set on sixteen URLs
// @entry h_host : hosts and host names of up to 4 characters, with ports and paths after them, set on sixteen URLs
// @entry h_host_any : any two ASCII characters as the host and host name
// @entry h_port : ports set on sixteen URLs: numbers, numbers followed by other characters, and others
// @entry h_path : path names of up to 4 characters of / \ . ? # and others, and any two ASCII characters, set on sixteen URLs
// @entry h_query : query and fragment of any two ASCII characters, with and without the leading mark, set on sixteen URLs
// @entry h_href : href replaced by any of several URLs and non-URLs: a rejected one leaves the URL as it was
// @entry h_two : two setters after each other; the serialization always parses back to the same URL
// @assume domain names are ASCII, at most 27 characters, no label has hyphens in its third and fourth place (runtime/rt_icu.cpp models ICU for these)
#include "urlref.h"
using namespace ru;
struct url : basic_url<std::u32string> { using basic_url<std::u32string>::basic_url; url_record_base& rec() { return m_url; } };
static char32_t const* const urls[] = { U"http://u:p@h:8/a?b#c", U"http://1.2.3.4/", U"https://[::1]/x", U"file:///a", U"file://h/C:/b", U"a://h:9/x", U"a:///p", U"a:/p", U"mailto:x", U"ws://h", U"ftp://u@h:80/", U"a://h", U"http://h:443/", U"ws://:q@h/?", U"a://u@h/x/y#", U"file:///C:/a?b" };
enum { URLS = 16 };
static std::u32string rm(std::u32string const& s) { std::u32string o; for (char32_t c : s) if (!mem(c, "\t\n\r")) o.push_back(c); return o; }
static bool nocred(rec const& r) { return r.host == 0 || (r.host == 4 && r.hostv.empty()) || r.opaque || r.scheme == U"file"; }
static void set_protocol(rec& r, std::u32string s) {
  s = rm(s) + U":"; if (!alpha(s[0])) return; size_t k = 0; while (alpha(s[k]) | digit(s[k]) | mem(s[k], "+-.")) k++; if (s[k] != ':') return; std::u32string n; for (size_t i = 0; i < k; i++) n.push_back(lower(s[i]));
  if (special(r.scheme) != special(n)) return; if ((!r.user.empty() || !r.pass.empty() || r.port >= 0) && n == U"file") return; if (r.scheme == U"file" && r.hostv.empty()) return; r.scheme = n; if (r.port == defport(n)) r.port = -1;
}
static void port_prefix(rec& r, std::u32string const& s) { size_t k = 0; while (k < s.size() && digit(s[k])) k++; rec t = r; t.port = r.port; if (k && port(s.substr(0, k), t)) r.port = t.port; }
static void set_host(rec& r, std::u32string s, bool name) {
  if (r.opaque) return; s = rm(s); bool sp = special(r.scheme), file = r.scheme == U"file"; size_t e = 0; while (e < s.size() && !(s[e] == '/' || s[e] == '?' || s[e] == '#' || (sp && s[e] == '\\'))) { e++; } std::u32string a = s.substr(0, e); rec t = r;
  if (file) { if (a.empty()) { r.host = 4; r.hostv.clear(); return; } if (!host(a, true, t)) return; if (t.host == 1 && t.hostv == U"localhost") { t.host = 4; t.hostv.clear(); } r = t; return; }
  size_t k = colon(a); std::u32string h = a.substr(0, k); if (h.empty() && (sp || k < a.size())) return; if (h.empty() && (!r.user.empty() || !r.pass.empty() || r.port >= 0)) return; if (!host(h, sp, t)) return; r = t; if (k < a.size() && !name) port_prefix(r, a.substr(k + 1));
}
static void set_port(rec& r, std::u32string const& s) { if (nocred(r)) return; if (s.empty()) { r.port = -1; return; } port_prefix(r, rm(s)); }
static void set_path(rec& r, std::u32string s) { if (r.opaque) return; r.path.clear(); s = rm(s); bool sp = special(r.scheme); if (s.empty() && !sp) return; path(isslash(s, 0, sp) ? s.substr(1) : s, r, true); }
static void set_query(rec& r, std::u32string s) { if (s.empty()) { r.query.reset(); return; } if (s[0] == '?') s.erase(0, 1); r.query = pe(rm(s), special(r.scheme) ? 3 : 2); }
static void set_hash(rec& r, std::u32string s) { if (s.empty()) { r.frag.reset(); return; } if (s[0] == '#') s.erase(0, 1); r.frag = pe(rm(s), 1); }
static void start(url& u, rec& r) { std::u32string b = urls[vp_choose(URLS, "url")]; u.href(b); bool ok = parse(b, nullptr, r); vp_assume(ok); }
static bool eq(std::u32string const& a, std::u32string const& b) { return ref::same(a, b); }
static void done(url& u, rec const& r) {
  check(u.rec(), r); vp_check(eq(u.href(), str(r)), "href"); vp_check(eq(to_string(u, true), str(r, false)), "without fragment"); vp_check(eq(u.protocol(), r.scheme + U":"), "protocol"); vp_check(eq(u.username(), r.user) && eq(u.password(), r.pass), "user name and password");
  std::u32string pt = r.port >= 0 ? dec(r.port) : U""; vp_check(eq(u.hostname(), r.hostv), "host name"); vp_check(eq(u.port(), pt), "port"); vp_check(eq(u.host(), r.port >= 0 ? r.hostv + U":" + pt : r.hostv), "host and port"); vp_check(eq(u.pathname(), pathname(r)), "path name");
  vp_check(eq(u.search(), r.query && !r.query->empty() ? U"?" + *r.query : U""), "search"); vp_check(eq(u.hash(), r.frag && !r.frag->empty() ? U"#" + *r.frag : U""), "hash"); vp_cover("set");
}
static std::u32string two() { std::u32string s; s.push_back(vp_sym(7, "c")); if (vp_choose(2, "two")) s.push_back(vp_sym(7, "d")); return s; }
extern "C" void h_protocol() { url u; rec r; start(u, r); static char32_t const* const sc[] = { U"http", U"HTTPS", U"ws", U"wss", U"ftp", U"file", U"b", U"a+1.x-", U"1", U"", U"http:x", U"h\ntt\tp", U"b/c", U"https:8" }; std::u32string s = vp_choose(2, "any") ? two() : std::u32string(sc[vp_choose(14, "scheme")]); u.protocol(s); set_protocol(r, s); done(u, r); }
static std::u32string composed() { // any combination of the parts a setter has to consider
  static char32_t const* const sch[] = { U"http", U"https", U"ftp", U"a" }; static char32_t const* const us[] = { U"", U"u@", U":p@", U"u:p@" }; static char32_t const* const ports[] = { U"", U":80", U":443", U":21" };
  std::u32string s = sch[vp_choose(4, "scheme")]; s += U"://"; s += us[vp_choose(4, "credentials")]; s += vp_choose(2, "host") ? U"h" : U"1.2.3.4"; s += ports[vp_choose(4, "port")]; if (vp_choose(2, "rest")) s += U"/x?q#f"; return s;
}
extern "C" void h_composed() {
  std::u32string b = composed(); url u; rec r; u.href(b); bool ok = parse(b, nullptr, r); vp_assume(ok); static char32_t const* const sc[] = { U"http", U"https", U"wss", U"ftp", U"file", U"b" };
  switch (vp_choose(5, "setter")) { case 0: { std::u32string s = sc[vp_choose(6, "to")]; u.protocol(s); set_protocol(r, s); break; } case 1: { std::u32string s = vp_choose(2, "empty") ? U"" : U"v"; u.username(s); if (!nocred(r)) r.user = pe(s, 5); break; } case 2: u.password(U""); if (!nocred(r)) r.pass.clear(); break; case 3: { std::u32string s = vp_choose(2, "empty") ? U"" : U"80"; u.port(s); set_port(r, s); break; } default: { std::u32string s = vp_choose(2, "empty") ? U"" : U"k:21"; u.host(s); set_host(r, s, false); } } done(u, r);
}
extern "C" void h_user() { url u; rec r; start(u, r); bool p = vp_choose(2, "password"); std::u32string s = vp_choose(2, "empty") ? U"" : two(); if (p) u.password(s); else u.username(s); if (!nocred(r)) (p ? r.pass : r.user) = pe(s, 5); done(u, r); }
static void hosts(std::u32string const& s) { url u; rec r; start(u, r); bool n = vp_choose(2, "name"); if (n) u.hostname(s); else u.host(s); set_host(r, s, n); done(u, r); }
extern "C" void h_host() { unsigned k = vp_choose(3, "shape"); if (k == 0) hosts(from("x:/1.#", vp_len(0, 3, "n"), "c")); else if (k == 1) { static char32_t const* const hs[] = { U"X.y", U"1.2.3", U"[::2]", U"[::", U"localhost", U"a:b@c", U"0x100.1", U"%41", U"x?y", U"x\\y", U"x:443", U"x:65536", U"x:80z", U"[::3]:99", U":80", U"x:" }; hosts(hs[vp_choose(16, "host")]); } else { std::u32string s = U"x:"; s.push_back(vp_sym(7, "c")); hosts(s); } }
extern "C" void h_host_any() { hosts(two()); }
extern "C" void h_port() { url u; rec r; start(u, r); static char32_t const* const ps[] = { U"", U"80", U"443", U"21", U"65535", U"65536", U"8x", U"x", U" 8", U"00080", U"99999999999", U"8\n0", U"9/1" }; std::u32string s = vp_choose(2, "any") ? std::u32string(1, (char32_t)vp_sym(7, "c")) + (vp_choose(2, "one") ? U"" : U"1") : std::u32string(ps[vp_choose(13, "port")]); u.port(s); set_port(r, s); done(u, r); }
extern "C" void h_path() { url u; rec r; start(u, r); std::u32string s = vp_choose(2, "any") ? two() : from("/.\\?c|", vp_len(0, vp_thorough() ? 5 : 3, "n"), "c"); u.pathname(s); set_path(r, s); done(u, r); }
extern "C" void h_query() { url u; rec r; start(u, r); bool q = vp_choose(2, "query"), m = vp_choose(2, "mark"); std::u32string s = m ? q ? U"?" : U"#" : U""; if (vp_choose(2, "some")) s += two(); if (q) { u.search(s); set_query(r, s); } else { u.hash(s); set_hash(r, s); } done(u, r); }
extern "C" void h_href() { url u; rec r, n; start(u, r); static char32_t const* const hs[] = { U"http://x/y", U"b:c", U"/x", U"", U"http://", U"http://a:b", U"file:c:", U" ws://1/ " }; std::u32string s = hs[vp_choose(8, "href")]; bool ok = parse(s, nullptr, n), thrown = false; try { u.href(s); } catch (...) { thrown = true; } vp_check(thrown == !ok, "rejected"); done(u, ok ? n : r);
  bool t2 = false; try { url v(s, std::u32string(urls[0])); rec b, w; parse(urls[0], nullptr, b); bool o2 = parse(s, &b, w); vp_check(o2, "accepted"); check(v.rec(), w); } catch (std::error_code const&) { t2 = true; } rec b, w; parse(urls[0], nullptr, b); vp_check(t2 == !parse(s, &b, w), "constructor"); }
extern "C" void h_two() {
  url u; rec r; start(u, r); static char32_t const* const vs[] = { U"x", U"", U"//y", U"80", U"..", U"?a#b", U"ws", U"@" };
  for (int i = 0; i < 2; i++) { std::u32string s = vs[vp_choose(8, "value")]; switch (vp_choose(8, "setter")) { case 0: u.protocol(s); set_protocol(r, s); break; case 1: u.username(s); if (!nocred(r)) r.user = pe(s, 5); break; case 2: u.host(s); set_host(r, s, false); break; case 3: u.hostname(s); set_host(r, s, true); break; case 4: u.port(s); set_port(r, s); break; case 5: u.pathname(s); set_path(r, s); break; case 6: u.search(s); set_query(r, s); break; default: u.hash(s); set_hash(r, s); } }
  check(u.rec(), r); std::u32string h = u.href(); vp_check(eq(h, str(r)), "href"); url v(h); vp_check(eq(v.href(), h), "the serialization parses back and serializes to itself"); vp_cover("two");
}
