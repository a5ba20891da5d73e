// Reference URL parser and serializer: the grammar of the URL standard (2020/21) by splitting strings, not as a state machine.
#pragma once
#include "url.h"
namespace ru {
struct rec { std::u32string scheme, user, pass; int host = 0; /* 0 null, 1 domain, 2 IPv4, 3 IPv6, 4 opaque or empty */ std::u32string hostv; int port = -1; std::vector<std::u32string> path; bool opaque = false; std::optional<std::u32string> query, frag; };
inline bool mem(char32_t c, char const* s) { bool r = false; for (; *s; s++) r |= c == (char32_t)(unsigned char)*s; return r; }
inline bool ctl(char32_t c) { return (c <= 0x1F) | (c > 0x7E); }
inline bool esc(char32_t c, int k) { switch (k) { case 0: return ctl(c); case 1: return ctl(c) | mem(c, " \"<>`"); case 2: return ctl(c) | mem(c, " \"#<>"); case 3: return ctl(c) | mem(c, " \"#<>'"); case 4: return ctl(c) | mem(c, " \"#<>?`{}"); default: return ctl(c) | mem(c, " \"#<>?`{}/:;=@[\\]^|"); } } // 0 C0, 1 fragment, 2 query, 3 special query, 4 path, 5 userinfo
inline std::u32string pe(std::u32string const& s, int k) { std::u32string o; for (char32_t c : s) { if (c < 0x80 && !esc(c, k)) { o.push_back(c); continue; } for (char b : ref::enc<std::string>(std::u32string(1, c))) { uint32_t v = (uint8_t)b, h = v >> 4, l = v & 15; o.push_back('%'); o.push_back(h < 10 ? '0' + h : 'A' + h - 10); o.push_back(l < 10 ? '0' + l : 'A' + l - 10); } } return o; }
inline bool special(std::u32string const& s) { return s == U"http" || s == U"https" || s == U"ws" || s == U"wss" || s == U"ftp" || s == U"file"; }
inline int defport(std::u32string const& s) { return s == U"http" || s == U"ws" ? 80 : s == U"https" || s == U"wss" ? 443 : s == U"ftp" ? 21 : -1; }
inline bool alpha(char32_t c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
inline bool digit(char32_t c) { return (c >= '0') & (c <= '9'); }
inline char32_t lower(char32_t c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
inline bool forbidden(char32_t c) { return (c == 0) | mem(c, "\t\n\r #%/:?@[\\]"); }
// percent-decodes ASCII text (bytes of 0x80 and above: outside the harness's bounds)
inline std::u32string pd(std::u32string const& s) { std::u32string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { uint32_t v = hexv(s[i + 1]) * 16 + hexv(s[i + 2]); vp_assume(v < 0x80); o.push_back(v); i += 2; } else { vp_assume(s[i] < 0x80); o.push_back(s[i]); } return o; }
inline bool host(std::u32string const& s, bool sp, rec& r) {
  if (!s.empty() && s[0] == '[') { std::array<uint16_t, 8> a; if (s.back() != ']' || s.size() < 2 || !ipv6(s.substr(1, s.size() - 2), a)) return false; r.host = 3; r.hostv = U"[" + ipv6s(a) + U"]"; return true; }
  if (!sp) { for (char32_t c : s) if (c != '%' && forbidden(c)) return false; r.host = 4; r.hostv = pe(s, 0); return true; }
  std::u32string d = pd(s); for (auto& c : d) { if (forbidden(c)) return false; c = lower(c); } if (d.empty()) return false;
  uint32_t a; kind k = ipv4(d, a); if (k == fail) return false; if (k == ok) { r.host = 2; r.hostv = ipv4s(a); return true; } r.host = 1; r.hostv = d; return true;
}
inline bool drive(std::u32string const& s) { return s.size() == 2 && alpha(s[0]) && (s[1] == ':' || s[1] == '|'); }
inline bool ndrive(std::u32string const& s) { return s.size() == 2 && alpha(s[0]) && s[1] == ':'; }
inline bool sdrive(std::u32string const& s) { return s.size() >= 2 && drive(s.substr(0, 2)) && (s.size() == 2 || mem(s[2], "/\\?#")); }
inline void shorten(rec& r) { if (r.path.empty() || (r.scheme == U"file" && r.path.size() == 1 && ndrive(r.path[0]))) return; r.path.pop_back(); }
inline bool dot1(std::u32string const& s) { return s == U"." || (s.size() == 3 && s[0] == '%' && s[1] == '2' && (s[2] == 'e' || s[2] == 'E')); }
inline bool dot2(std::u32string const& s) { for (size_t k : { 1u, 3u }) if (s.size() > k && dot1(s.substr(0, k)) && dot1(s.substr(k))) return true; return false; }
inline void tail(std::u32string const& s, rec& r) { // s starts with '?', '#' or is empty
  if (s.empty()) return; size_t h = 0; if (s[0] == '?') { h = 1; while (h < s.size() && s[h] != '#') h++; r.query = pe(s.substr(1, h - 1), special(r.scheme) ? 3 : 2); } if (h < s.size()) r.frag = pe(s.substr(h + 1), 1); }
inline void path(std::u32string const& s, rec& r, bool whole = false) { // whole: '?' and '#' are part of the path (setter)
  bool sp = special(r.scheme); size_t i = 0; std::u32string seg;
  for (;; i++) {
    bool end = i == s.size() || (!whole && (s[i] == '?' || s[i] == '#')), slash = !end && (s[i] == '/' || (sp && s[i] == '\\')); if (!end && !slash) { seg.push_back(s[i]); continue; }
    std::u32string e = pe(seg, 4); seg.clear();
    if (dot2(e)) { shorten(r); if (end) r.path.emplace_back(); } else if (dot1(e)) { if (end) r.path.emplace_back(); } else { if (r.scheme == U"file" && r.path.empty() && drive(e)) e[1] = ':'; r.path.push_back(e); }
    if (end) break;
  }
  if (i < s.size()) tail(s.substr(i), r);
}
inline void pathstart(std::u32string const& s, rec& r) { if (special(r.scheme)) { path(!s.empty() && (s[0] == '/' || s[0] == '\\') ? s.substr(1) : s, r); return; } if (s.empty() || s[0] == '?' || s[0] == '#') { tail(s, r); return; } path(s[0] == '/' ? s.substr(1) : s, r); }
inline bool port(std::u32string const& p, rec& r) { uint64_t v = 0; for (char32_t c : p) { if (!digit(c)) return false; v = v * 10 + (c - '0'); if (v > 65535) return false; } if (!p.empty()) { r.port = (int)v; int d = defport(r.scheme); if (r.port == d) r.port = -1; } return true; }
inline size_t colon(std::u32string const& h) { bool in = false; for (size_t i = 0; i < h.size(); i++) { if (h[i] == ':' && !in) return i; if (h[i] == '[') in = true; if (h[i] == ']') in = false; } return h.size(); }
inline bool authority(std::u32string const& s, rec& r) {
  bool sp = special(r.scheme); size_t e = 0; while (e < s.size() && !(s[e] == '/' || s[e] == '?' || s[e] == '#' || (sp && s[e] == '\\'))) e++;
  std::u32string a = s.substr(0, e); size_t at = a.size(); while (at > 0 && a[at - 1] != '@') at--; 
  if (at > 0) { std::u32string cred = a.substr(0, at - 1); a.erase(0, at); if (a.empty()) return false; size_t k = 0; while (k < cred.size() && cred[k] != ':') k++; r.user = pe(cred.substr(0, k), 5); if (k < cred.size()) r.pass = pe(cred.substr(k + 1), 5); }
  size_t k = colon(a); std::u32string h = a.substr(0, k); if (h.empty() && (sp || k < a.size())) return false; if (!host(h, sp, r)) return false; if (k < a.size() && !port(a.substr(k + 1), r)) return false;
  pathstart(s.substr(e), r); return true;
}
inline std::u32string skip(std::u32string const& s) { size_t i = 0; while (i < s.size() && (s[i] == '/' || s[i] == '\\')) i++; return s.substr(i); }
inline bool isslash(std::u32string const& s, size_t i, bool bs) { return i < s.size() && (s[i] == '/' || (bs && s[i] == '\\')); }
inline bool file(std::u32string const& s, rec const* b, rec& r) {
  r.scheme = U"file"; r.host = 4; bool fb = b && b->scheme == U"file";
  if (isslash(s, 0, true)) {
    if (isslash(s, 1, true)) { std::u32string t = s.substr(2); size_t e = 0; while (e < t.size() && !mem(t[e], "/\\?#")) e++; std::u32string h = t.substr(0, e);
      if (drive(h)) { path(t, r); return true; } if (!h.empty()) { if (!host(h, true, r)) return false; if (r.host == 1 && r.hostv == U"localhost") { r.host = 4; r.hostv.clear(); } } pathstart(t.substr(e), r); return true; }
    std::u32string t = s.substr(1); if (fb) { r.host = b->host; r.hostv = b->hostv; if (!sdrive(t) && !b->path.empty() && ndrive(b->path[0])) r.path.push_back(b->path[0]); } path(t, r); return true; }
  if (fb) { r.host = b->host; r.hostv = b->hostv; r.path = b->path; r.query = b->query; if (s.empty() || s[0] == '#') { tail(s, r); return true; } r.query.reset(); if (s[0] == '?') { tail(s, r); return true; } if (sdrive(s)) r.path.clear(); else shorten(r); path(s, r); return true; }
  path(s, r); return true;
}
inline bool relative(std::u32string const& s, rec const& b, rec& r) {
  r.scheme = b.scheme; bool sp = special(r.scheme); auto cp = [&] { r.user = b.user; r.pass = b.pass; r.host = b.host; r.hostv = b.hostv; r.port = b.port; };
  if (isslash(s, 0, sp)) { if (isslash(s, 1, sp)) return authority(sp ? skip(s) : s.substr(2), r); cp(); path(s.substr(1), r); return true; }
  cp(); r.path = b.path; r.query = b.query; if (s.empty() || s[0] == '#') { tail(s, r); return true; } r.query.reset(); if (s[0] == '?') { tail(s, r); return true; } shorten(r); path(s, r); return true;
}
inline bool parse(std::u32string in, rec const* b, rec& r) {
  while (!in.empty() && in[0] <= 0x20) in.erase(0, 1); while (!in.empty() && in.back() <= 0x20) in.pop_back();
  std::u32string s; for (char32_t c : in) if (!mem(c, "\t\n\r")) s.push_back(c);
  size_t k = 0; if (!s.empty() && alpha(s[0])) { while (k < s.size() && (alpha(s[k]) | digit(s[k]) | mem(s[k], "+-."))) k++; }
  if (k > 0 && k < s.size() && s[k] == ':') {
    for (size_t i = 0; i < k; i++) r.scheme.push_back(lower(s[i])); s.erase(0, k + 1);
    if (r.scheme == U"file") return file(s, b, r);
    if (special(r.scheme)) { if (b && b->scheme == r.scheme && !(isslash(s, 0, false) && isslash(s, 1, false))) return relative(s, *b, r); return authority(skip(s), r); }
    if (isslash(s, 0, false)) { if (isslash(s, 1, false)) return authority(s.substr(2), r); path(s.substr(1), r); return true; }
    r.opaque = true; size_t e = 0; while (e < s.size() && s[e] != '?' && s[e] != '#') e++; r.path.push_back(pe(s.substr(0, e), 0)); tail(s.substr(e), r); return true;
  }
  if (!b) return false;
  if (b->opaque) { if (s.empty() || s[0] != '#') return false; r = *b; r.frag.reset(); tail(s, r); return true; }
  if (b->scheme == U"file") return file(s, b, r);
  return relative(s, *b, r);
}
inline std::u32string pathname(rec const& r) { if (r.opaque) return r.path[0]; std::u32string o; for (auto& p : r.path) o += U"/" + p; return o; }
inline std::u32string str(rec const& r, bool frag = true) {
  std::u32string o = r.scheme + U":"; if (r.host) { o += U"//"; if (!r.user.empty() || !r.pass.empty()) { o += r.user; if (!r.pass.empty()) o += U":" + r.pass; o += U"@"; } o += r.hostv; if (r.port >= 0) o += U":" + dec(r.port); }
  else if (!r.opaque && r.path.size() > 1 && r.path[0].empty()) o += U"/.";
  o += pathname(r); if (r.query) o += U"?" + *r.query; if (frag && r.frag) o += U"#" + *r.frag; return o;
}
inline bool eqo(std::optional<std::u32string> const& a, std::optional<std::u32string> const& b) { return a.has_value() == b.has_value() && (!a || ref::same(*a, *b)); }
inline void check(url_record_base const& u, rec const& r) {
  vp_check(ref::same(u.m_scheme, r.scheme), "scheme"); vp_check(ref::same(u.m_username, r.user), "username"); vp_check(ref::same(u.m_password, r.pass), "password");
  int k = 0; if (u.m_host) switch (u.m_host->type()) { case host_type_name::Domain: k = 1; break; case host_type_name::Ipv4Address: k = 2; break; case host_type_name::Ipv6Address: k = 3; break; default: k = 4; }
  vp_check(k == r.host, "kind of host"); if (k) vp_check(ref::same(serialize_host(*u.m_host), r.hostv), "host"); vp_check(u.m_port ? *u.m_port == r.port : r.port == -1, "port");
  vp_check(u.m_cannot_be_base_url == r.opaque, "cannot be a base"); vp_check(u.m_path.size() == r.path.size(), "number of path segments"); bool p = true; for (size_t i = 0; i < r.path.size(); i++) p &= ref::same(u.m_path[i], r.path[i]); vp_check(p, "path");
  vp_check(eqo(u.m_query, r.query), "query"); vp_check(eqo(u.m_fragment, r.frag), "fragment");
}
inline bool same(url_record_base const& a, url_record_base const& b) { bool h = a.m_host.has_value() == b.m_host.has_value() && (!a.m_host || *a.m_host == *b.m_host); if (!h || a.m_path.size() != b.m_path.size()) return false; bool p = true; for (size_t i = 0; i < a.m_path.size(); i++) p &= ref::same(a.m_path[i], b.m_path[i]);
  return p && ref::same(a.m_scheme, b.m_scheme) && ref::same(a.m_username, b.m_username) && ref::same(a.m_password, b.m_password) && a.m_port == b.m_port && a.m_cannot_be_base_url == b.m_cannot_be_base_url && eqo(a.m_query, b.m_query) && eqo(a.m_fragment, b.m_fragment); }
// parses in (against base) with the library and the reference; again: also parse what the library serializes
inline void both(std::u32string const& in, std::u32string const* base, bool again) {
  std::optional<url_record_base> bu; rec br, r; if (base) { bu = pase_url(*base); bool bo = parse(*base, nullptr, br); vp_check(bu.has_value() == bo, "base is a URL"); if (!bo) return; }
  auto u = pase_url(in, bu ? &*bu : nullptr); bool ok = parse(in, base ? &br : nullptr, r); vp_check(u.has_value() == ok, "is a URL"); if (!ok) { vp_cover("rejected"); return; }
  check(*u, r); vp_cover("accepted"); if (!again) return;
  std::u32string s = serialize_url(*u); vp_check(ref::same(s, str(r)), "serialized"); vp_check(ref::same(serialize_url(*u, true), str(r, false)), "serialized without the fragment");
  auto v = pase_url(s); vp_check(v.has_value(), "the serialized URL is a URL"); vp_check(same(*u, *v), "the serialized URL parses to the same record"); vp_check(equals(*u, *v), "equal"); vp_cover("again");
}
inline std::u32string from(char const* al, size_t n, const char* name) { size_t m = 0; while (al[m]) m++; std::u32string s; for (size_t i = 0; i < n; i++) s.push_back((unsigned char)al[vp_choose(m, name)]); return s; }
}
