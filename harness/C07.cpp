// @entry h_hist thorough=1500 : any forest of 0..3 (thorough 0..4) nodes, each an element or a text, built by insertions at any places, then any 2 (thorough 3) of: insert, erase, move
// @entry h_hist3 : the same from 0..1 (thorough 0..2) nodes with any 3 (thorough 4) operations
// @entry h_big thorough=1500 : any forest of 4 (thorough 4..5) nodes, then any one operation, then an insertion reusing storage
// @entry h_reuse thorough=1500 : any forest of 3 (thorough 4) nodes living in storage freed before, reused in any order, then any one operation (thorough: and an insertion)
// @entry h_whole : any forest of 0..3 nodes: copy, move, assignment, swap, clear; copies are independent
// @entry h_chars : any forest of 1..3 (thorough 1..4) nodes with text data of 0..2 characters: character iteration from any node, forwards and backwards, for reading and writing, also as wchar_t
// @entry h_access : any forest of 1..3 (thorough 1..4) nodes: every form of access agrees: constant and other iterators of siblings and of the serial order, post-increment and -decrement, writing through * and ->, inserting a copy of a node by a reference to it
// @assume moves are to places outside the moved subtree; children are inserted under elements only
#include "util.h"
#include "tagv.h"
#include "forest.h"
using T = wordring::tag_tree<VNode>;
static VNode mk(bool text, int v) { VNode n; n.text = text; n.val = v; return n; }
struct fm : forest { std::vector<bool> text; void place2(int& p, size_t& at) { place(p, at); vp_assume(p < 0 || !text[p]); } };
template <class It> static void walk(It b, It e, fm& m, int p, bool& ok) {
  size_t i = 0; auto& k = m.kids(p);
  for (auto it = b; it != e; ++it, ++i) {
    if (i >= k.size()) vp_fail("no extra siblings");
    ok &= it->val == m.n[k[i]].val; ok &= it->text == m.text[k[i]];
    auto q = it.parent(); if (p >= 0) { ok &= q->val == m.n[p].val; vp_check(q.begin() == b, "parent leads back to the same children"); } else vp_check(q == It(), "a root has no parent");
    walk(it.begin(), it.end(), m, k[i], ok);
  }
  vp_check(i == k.size(), "no missing siblings");
  if (p >= 0 || i) { auto it = e; while (i) { --it; --i; ok &= it->val == m.n[k[i]].val; } vp_check(it == b, "walking back reaches the first sibling"); }
}
static void ser(fm& m, int x, std::vector<int>& o) { o.push_back(x * 2); for (int k : m.n[x].kids) ser(m, k, o); if (!m.text[x]) o.push_back(x * 2 + 1); }
static void same(T& t, fm& m) {
  bool ok = true; walk(t.begin(), t.end(), m, -1, ok); T const& c = t; walk(c.begin(), c.end(), m, -1, ok); vp_check(ok, "same nodes in the same places as the reference forest");
  vp_check(t.size() == m.count(), "node count"); vp_check(t.empty() == m.roots.empty(), "emptiness");
  std::vector<int> o; for (int r : m.roots) ser(m, r, o); size_t i = 0; bool s = true; auto it = t.sbegin();
  for (; it != t.send(); ++it, ++i) { if (i >= o.size()) vp_fail("serial order has no extra stops"); bool end = o[i] & 1; int x = o[i] / 2;
    vp_check(it.is_end_tag() == end, "serial order: end tag"); vp_check(it.is_start_tag() == (!end && !m.text[x]), "serial order: start tag");
    if (!end) s &= it->val == m.n[x].val;
    if (!m.text[x]) { auto st = it.start_tag(), en = it.end_tag(); s &= st->val == m.n[x].val; vp_check(st.is_start_tag() && en.is_end_tag() && st.end_tag() == en && en.start_tag() == st && (end ? en : st) == it, "start and end tags refer to each other"); } else vp_check(it.start_tag() == t.send() && it.end_tag() == t.send(), "no tags for a text"); }
  vp_check(i == o.size(), "serial order has no missing stops"); while (i) { --it; --i; if (!(o[i] & 1)) s &= it->val == m.n[o[i] / 2].val; vp_check(it.is_end_tag() == !!(o[i] & 1), "serial order backwards"); } vp_check(it == t.sbegin(), "serial order backwards reaches the start"); vp_check(s, "serial order of values");
}
static T::iterator at(T& t, fm& m, int p, size_t i);
static T::iterator nodeIt(T& t, fm& m, int x) { return at(t, m, m.n[x].par, m.idx(x)); }
static T::iterator at(T& t, fm& m, int p, size_t i) { T::iterator it; if (p < 0) it = t.begin(); else { it = nodeIt(t, m, p).begin(); } while (i--) ++it; return it; }
static void ins(T& t, fm& m, bool chk) { int p; size_t i; m.place2(p, i); int v = vp_u8("v"); bool tx = vp_choose(2, "text"); VNode nd = mk(tx, v); VNode const keep = nd; T::iterator r = (m.n.size() & 1) ? t.insert(at(t, m, p, i), keep) : t.insert(at(t, m, p, i), std::move(nd)); vp_check(keep.val == v, "the inserted node is copied"); int id = m.add(p, i, v); m.text.push_back(tx); if (chk) vp_check(r == nodeIt(t, m, id), "insert returns the new position"); }
static void op(T& t, fm& m) {
  switch (vp_choose(3, "op")) {
  case 0: ins(t, m, true); break;
  case 1: { vp_assume(!m.roots.empty()); int x = m.pick("node"); int p = m.n[x].par; size_t i = m.idx(x); auto r = t.erase(nodeIt(t, m, x)); m.erase(x); vp_check(r == at(t, m, p, i), "erase returns the following position"); vp_cover("erase"); break; }
  default: { vp_assume(!m.roots.empty()); int x = m.pick("node"); int p; size_t i; m.place2(p, i); vp_assume(!m.inside(p, x));
    auto r = t.move(at(t, m, p, i), nodeIt(t, m, x)); size_t j = m.n[x].par == p && m.idx(x) < i ? i - 1 : i; m.unlink(x); m.n[x].par = p; m.kids(p).insert(m.kids(p).begin() + j, x); vp_check(r == nodeIt(t, m, x), "move returns the new position"); vp_cover("move"); }
  }
  same(t, m);
}
static void build(T& t, fm& m, size_t n) { for (size_t k = 0; k < n; k++) ins(t, m, false); }
extern "C" void h_hist() { T t; fm m; build(t, m, vp_len(0, vp_thorough() ? 4 : 3, "n")); same(t, m); for (int i = 0, k = vp_thorough() ? 3 : 2; i < k; i++) op(t, m); vp_cover("history"); }
extern "C" void h_hist3() { T t; fm m; build(t, m, vp_len(0, vp_thorough() ? 2 : 1, "n")); for (int i = 0, k = vp_thorough() ? 4 : 3; i < k; i++) op(t, m); vp_cover("history"); }
extern "C" void h_big() { T t; fm m; build(t, m, vp_len(4, vp_thorough() ? 5 : 4, "n")); op(t, m); ins(t, m, true); same(t, m); vp_cover("big"); }
extern "C" void h_reuse() { T t; fm m; size_t n = vp_thorough() ? 4 : 3; std::vector<T::iterator> v; for (size_t i = 0; i < n; i++) v.push_back(t.insert(t.end(), mk(i & 1, 0))); while (!v.empty()) { size_t i = vp_choose(v.size(), "freed"); t.erase(v[i]); v.erase(v.begin() + i); ins(t, m, false); }
  same(t, m); op(t, m); if (vp_thorough()) { ins(t, m, true); same(t, m); } vp_cover("reuse"); }
extern "C" void h_whole() {
  T t; fm m, e; build(t, m, vp_len(0, 3, "n"));
  switch (vp_choose(6, "op")) {
  case 0: { T u(t); fm m2 = m; same(u, m); op(u, m2); same(t, m); break; }
  case 1: { T u(std::move(t)); same(u, m); op(u, m); break; }
  case 2: { T u; u.insert(u.end(), mk(false, 7)); u = t; same(u, m); fm m2 = m; op(u, m2); same(t, m); break; }
  case 3: { T u; u.insert(u.end(), mk(true, 7)); u = std::move(t); same(u, m); break; }
  case 4: { T u; fm o; u.insert(u.end(), mk(false, 7)); o.add(-1, 0, 7); o.text.push_back(false); u.swap(t); same(u, m); same(t, o); break; }
  default: t.clear(); same(t, e); ins(t, e, true); same(t, e);
  }
  vp_cover("whole");
}
template <class It, class Cv> static void charwalk(It b, It e, std::vector<int> const& own, std::u32string const& all, size_t from, T& t, fm& m, Cv cv) {
  It it = b; std::u32string got, rev; size_t i = from;
  for (; it != e && got.size() <= all.size(); ++i) { if (i >= all.size()) vp_fail("no extra characters"); if constexpr (!std::is_same_v<Cv, int>) vp_check(cv(it) == nodeIt(t, m, own[i]), "a character belongs to its text node"); vp_check((char32_t)*it.operator->() == (char32_t)*it, "-> and * agree"); if (i & 1) { It o = it++; got.push_back((char32_t)*o); } else { got.push_back((char32_t)*it); ++it; } }
  std::u32string want = all.substr(from); vp_check(ref::same(got, want), "characters of all texts in document order");
  while (it != b && rev.size() <= all.size()) { if (rev.size() & 1) it--; else --it; rev.insert(rev.begin(), (char32_t)*it); } vp_check(ref::same(rev, want), "the same characters backwards");
}
extern "C" void h_chars() {
  T t; fm m; size_t n = vp_len(1, vp_thorough() ? 4 : 3, "n"); build(t, m, n); std::u32string all; std::vector<int> own; std::vector<size_t> start;
  std::vector<int> o = m.pre(); for (int x : o) { start.push_back(all.size()); if (m.text[x]) { size_t l = vp_len(0, 2, "len"); auto it = nodeIt(t, m, x); for (size_t i = 0; i < l; i++) { char32_t c = vp_u8("c"); it->data.push_back(c); all.push_back(c); own.push_back(x); } } }
  size_t k = vp_choose(o.size(), "from"); auto np = nodeIt(t, m, o[k]); size_t from = start[k];
  { T::character_iterator b(np); charwalk(b, b.end(), own, all, from, t, m, [](T::character_iterator const& i) { return static_cast<T::iterator>(i); }); }
  { T::const_character_iterator b(np); charwalk(b, b.end(), own, all, from, t, m, [](T::const_character_iterator const& i) { return static_cast<T::iterator>(i); }); }
  { T::wchar_iterator b(np), e(t.end()); charwalk(b, e, own, all, from, t, m, 0); }
  T::character_iterator w(np), we = w.end(); for (size_t i = from; w != we; ++w, ++i) { *w = *w ^ 1; if (i < all.size()) all[i] ^= 1; }
  std::u32string now; for (int x : o) if (m.text[x]) now += nodeIt(t, m, x)->data; vp_check(ref::same(now, all), "writing through the iterator changes that character"); vp_cover("chars");
}

template <class It> static void forms(It b, It e, fm& m, int p) {
  auto& k = m.kids(p); size_t i = 0; It it = b; while (it != e && i < k.size()) { vp_check(it.operator->() == &*it, "-> and * reach the same node"); It o = it++; vp_check(o->val == m.n[k[i]].val, "post-increment returns the old position"); ++i; It n = o; ++n; vp_check(n == it && o != it, "post-increment moves on"); forms(o.begin(), o.end(), m, k[i - 1]); }
  vp_check(it == e && i == k.size(), "all siblings");
  if constexpr (std::is_same_v<It, T::iterator>) { while (it != b && i) { It o = it--; --i; It n = o; --n; vp_check(n == it && o != it, "post-decrement returns the old position"); vp_check(it->val == m.n[k[i]].val, "post-decrement moves back"); } vp_check(!i, "all siblings backwards"); }
}
template <class It> static void serial(It b, It e, fm& m, std::vector<int> const& o) {
  size_t i = 0; It it = b; while (it != e && i < o.size()) { bool end = o[i] & 1; int x = o[i] / 2; vp_check(it.operator->() == &*it, "-> and * reach the same stop"); It q = it++; vp_check(q.is_end_tag() == end && q.is_start_tag() == (!end && !m.text[x]), "serial order: tags"); if (!end) vp_check(q->val == m.n[x].val, "serial order: values"); It n = q; ++n; vp_check(n == it && q != it, "serial order: post-increment moves on"); ++i;
    if (!m.text[x]) vp_check(q.start_tag()->val == m.n[x].val && q.end_tag().is_end_tag(), "tags of an element"); else vp_check(q.start_tag() == e && q.end_tag() == e, "a text has no tags"); }
  vp_check(it == e && i == o.size(), "all stops"); while (it != b && i) { It q = it--; --i; It n = q; --n; vp_check(n == it && q != it, "serial order: post-decrement returns the old position"); vp_check(it.is_end_tag() == !!(o[i] & 1), "serial order: post-decrement moves back"); } vp_check(!i, "all stops backwards");
}
extern "C" void h_access() {
  T t; fm m; build(t, m, vp_len(1, vp_thorough() ? 4 : 3, "n")); T const& c = t; forms(t.begin(), t.end(), m, -1); forms(c.begin(), c.end(), m, -1); forms(c.cbegin(), c.cend(), m, -1);
  std::vector<int> o; for (int r : m.roots) ser(m, r, o); serial(t.sbegin(), t.send(), m, o); serial(c.sbegin(), c.send(), m, o);
  int x = m.pick("node"), v = vp_u8("w"); auto it = nodeIt(t, m, x); T::const_iterator ci = it; vp_check(ci == it && !(ci != it) && ci->val == it->val && T::const_iterator(it.parent()) == ci.parent(), "constant and other iterators agree");
  T::serial_iterator si = it; vp_check(static_cast<T::iterator>(si) == it && si->val == it->val, "a node's place in the serial order"); T::const_serial_iterator cs = it, cs2 = ci; vp_check(cs == si && cs2 == cs && static_cast<T::const_iterator>(cs) == ci, "constant serial iterators agree");
  switch (vp_choose(4, "form")) { case 0: (*it).val = v; break; case 1: it->val = v; break; case 2: (*si).val = v; break; default: si->val = v; } m.n[x].val = v; same(t, m); vp_cover("access");
  int y = m.pick("source"), p; size_t i; m.place2(p, i); bool tx = m.text[y]; int sv = m.n[y].val; auto src = nodeIt(t, m, y); t.insert(at(t, m, p, i), *src); m.add(p, i, sv); m.text.push_back(tx); same(t, m); vp_cover("a node from the tree itself");
}
