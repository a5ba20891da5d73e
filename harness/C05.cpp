// @entry h_hist thorough=1500 : any forest of 0..3 (thorough 0..4) nodes built by insertions at any places (any values), then any 2 (thorough 3) of: insert, erase, move, subtree copy
// @entry h_hist3 : the same with 0..1 (thorough 0..2) initial nodes and any 3 (thorough 4) operations
// @entry h_big thorough=1500 : any forest of 4 (thorough 4..5) nodes built by insertions at any places, then any one of: insert, erase, move, subtree copy, followed by an insertion reusing storage
// @entry h_reuse thorough=1500 : any forest of 3 (thorough 4) nodes living in storage freed before, reused in any order, then any one of the operations, then an insertion
// @entry h_cycle : any forest of 1..4 nodes, in new storage or in storage freed before and reused in any order: moving a node into its own subtree is refused and changes nothing
// @entry h_whole : any forest of 0..3 nodes: copy, move, swap, clear, assign, construction from a value
// @entry h_access : any forest of 1..3 (thorough 1..4) nodes (any values): every form of access agrees: constant and other iterators, post-increment and -decrement, reverse children, writing through * and ->, front, back; inserting a value held in the tree itself
// @assume subtree copies are made to places outside the copied subtree; positions come from the same tree
#include "util.h"
#include <cassert>
#include <stdexcept>
#include <wordring/tree/tree.hpp>
#include "forest.h"
using T = wordring::tree<mval>;
static void walk(T const& t, T::const_iterator b, T::const_iterator e, forest& m, int p, bool& ok) {
  size_t i = 0; auto& k = m.kids(p);
  for (auto it = b; it != e; ++it, ++i) {
    if (i >= k.size()) { vp_fail("no extra siblings"); }
    ok &= *it == m.n[k[i]].val; vp_check(t.size(it) == m.count(k[i]), "subtree size");
    if (p >= 0) { auto q = it.parent(); ok &= *q == m.n[p].val; vp_check(q.begin() == b, "parent leads back to the same children"); } else vp_check(it.parent() == T::const_iterator() , "a root has no parent");
    walk(t, it.begin(), it.end(), m, k[i], ok);
  }
  vp_check(i == k.size(), "no missing siblings");
  if (i) { auto it = e; while (i) { --it; --i; ok &= *it == m.n[k[i]].val; } vp_check(it == b, "walking back reaches the first sibling"); }
}
static void same(T const& t, forest& m) {
  bool ok = true; walk(t, t.begin(), t.end(), m, -1, ok); vp_check(ok, "same values in the same places as the reference forest");
  vp_check(t.size() == m.count(), "element count"); vp_check(t.empty() == m.roots.empty(), "emptiness");
  if (!m.roots.empty()) vp_check(t.front() == m.n[m.roots[0]].val, "front is the first root");
}
static T::iterator at(T& t, forest& m, int p, size_t i);
static T::iterator nodeIt(T& t, forest& m, int x) { return at(t, m, m.n[x].par, m.idx(x)); }
static T::iterator at(T& t, forest& m, int p, size_t i) { T::iterator it; if (p < 0) it = t.begin(); else it = nodeIt(t, m, p).begin(); while (i--) ++it; return it; }
static void ins(T& t, forest& m) { int p; size_t i; m.place(p, i); int v = vp_u8("v"); T::iterator r; switch (m.n.size() & 1) { case 0: { mval x(v); r = t.insert(at(t, m, p, i), x); vp_check(x == v, "the inserted value is copied"); break; } default: r = t.emplace(at(t, m, p, i), v); } int id = m.add(p, i, v); vp_check(*r == v, "insert returns the new element"); vp_check(r == nodeIt(t, m, id), "insert returns the new position"); }
static void build(T& t, forest& m, size_t n) { for (size_t k = 0; k < n; k++) { int p; size_t i; m.place(p, i); int v = vp_u8("v"); t.insert(at(t, m, p, i), v); m.add(p, i, v); } }
static void op(T& t, forest& m) {
  switch (vp_choose(4, "op")) {
  case 0: ins(t, m); break;
  case 1: { vp_assume(!m.roots.empty()); int x = m.pick("node"); int p = m.n[x].par; size_t i = m.idx(x); auto r = t.erase(nodeIt(t, m, x)); m.erase(x); vp_check(r == at(t, m, p, i), "erase returns the following position"); vp_cover("erase"); break; }
  case 2: { vp_assume(!m.roots.empty()); int x = m.pick("node"); int p; size_t i; m.place(p, i); vp_assume(!m.inside(p, x)); vp_assume(!(m.n[x].par == p && m.idx(x) == i));
    auto r = t.move(at(t, m, p, i), nodeIt(t, m, x)); size_t j = m.n[x].par == p && m.idx(x) < i ? i - 1 : i; m.unlink(x); m.n[x].par = p; m.kids(p).insert(m.kids(p).begin() + j, x); vp_check(r == nodeIt(t, m, x), "move returns the new position"); vp_cover("move"); break; }
  default: { vp_assume(!m.roots.empty()); int x = m.pick("node"); int p; size_t i; m.place(p, i); vp_assume(!m.inside(p, x)); auto r = t.insert(at(t, m, p, i), T::const_iterator(nodeIt(t, m, x))); int c = m.copy(m, x, p, i); vp_check(r == nodeIt(t, m, c), "subtree copy returns the new position"); vp_cover("copy"); }
  }
  same(t, m);
}
extern "C" void h_hist() { T t; forest m; size_t n = vp_len(0, vp_thorough() ? 4 : 3, "n"); build(t, m, n); same(t, m); for (int i = 0, k = vp_thorough() ? 3 : 2; i < k; i++) op(t, m); vp_cover("history"); }
extern "C" void h_hist3() { T t; forest m; build(t, m, vp_len(0, vp_thorough() ? 2 : 1, "n")); for (int i = 0, k = vp_thorough() ? 4 : 3; i < k; i++) op(t, m); vp_cover("history"); }
extern "C" void h_big() { T t; forest m; build(t, m, vp_len(4, vp_thorough() ? 5 : 4, "n")); op(t, m); int p; size_t i; m.place(p, i); int v = vp_u8("w"); t.insert(at(t, m, p, i), v); m.add(p, i, v); same(t, m); vp_cover("big"); }
// the forest's n nodes get the n first slots of storage in any order: each slot is used once, then freed just before the insertion that reuses it
static void rebuild(T& t, forest& m, size_t n) { std::vector<T::iterator> v; for (size_t i = 0; i < n; i++) v.push_back(t.insert(t.end(), 0)); while (!v.empty()) { size_t i = vp_choose(v.size(), "freed"); t.erase(v[i]); v.erase(v.begin() + i); build(t, m, 1); } }
extern "C" void h_reuse() { T t; forest m; size_t n = vp_thorough() ? 4 : 3; rebuild(t, m, n); op(t, m); int p; size_t i; m.place(p, i); int v = vp_u8("w"); t.insert(at(t, m, p, i), v); m.add(p, i, v); same(t, m); vp_cover("reuse"); }
extern "C" void h_cycle() { T t; forest m; size_t n = vp_len(1, 4, "n"); if (vp_choose(2, "reuse")) rebuild(t, m, n); else build(t, m, n); int x = m.pick("node"); int p; size_t i; m.place(p, i); vp_assume(m.inside(p, x)); bool th = false; try { t.move(at(t, m, p, i), nodeIt(t, m, x)); } catch (std::invalid_argument const&) { th = true; } vp_check(th, "moving a node into its own subtree is refused"); same(t, m); vp_cover("cycle"); }
extern "C" void h_whole() {
  T t; forest m, e; build(t, m, vp_len(0, 3, "n")); int v = vp_u8("x"); forest one; one.add(-1, 0, v);
  switch (vp_choose(7, "op")) {
  case 0: { T u(t); same(u, m); op(u, m); break; }
  case 1: { T u(t); T w(std::move(u)); same(w, m); break; }
  case 2: { mval x(v); T u(x); vp_check(x == v, "the root value is copied"); same(u, one); u.swap(t); same(u, m); same(t, one); op(t, one); break; }
  case 3: { t.clear(); same(t, e); op(t, e); break; }
  case 4: { mval x(v); t.assign(x); vp_check(x == v, "the assigned value is copied"); same(t, one); op(t, one); break; }
  case 5: { T u(v); forest m1 = m; if (!m.roots.empty()) { int x = m.pick("node"); T const& ct = t; (void)ct; u.insert(u.begin().end(), T::const_iterator(nodeIt(t, m, x))); one.copy(m1, x, 0, 0); same(u, one); same(t, m); vp_cover("cross"); } break; }
  default: { T u; u = t; same(u, m); mval k(5), vv(v); T w(std::move(k)); w.assign(std::move(vv)); same(w, one); w = std::move(u); same(w, m); }
  }
  vp_cover("whole");
}

template <class It> static void forms(It b, It e, forest& m, int p) {
  auto& k = m.kids(p); size_t i = 0; It it = b; while (it != e && i < k.size()) { vp_check(it.operator->() == &*it, "-> and * reach the same element"); It o = it++; vp_check(*o == m.n[k[i]].val, "post-increment returns the old position"); ++i; It n = o; ++n; vp_check(n == it && o != it, "post-increment moves on");
    size_t j = m.n[k[i - 1]].kids.size(); auto r = o.rbegin(), re = o.rend(); while (r != re && j) { --j; vp_check(*r == m.n[m.n[k[i - 1]].kids[j]].val, "children in reverse"); ++r; } vp_check(r == re && !j, "as many children in reverse"); forms(o.begin(), o.end(), m, k[i - 1]); }
  vp_check(it == e && i == k.size(), "all siblings"); while (it != b && i) { It o = it--; --i; It n = o; --n; vp_check(n == it && o != it, "post-decrement returns the old position"); vp_check(*it == m.n[k[i]].val, "post-decrement moves back"); } vp_check(!i, "all siblings backwards");
}
extern "C" void h_access() {
  T t; forest m; build(t, m, vp_len(1, vp_thorough() ? 4 : 3, "n")); T const& c = t; forms(t.begin(), t.end(), m, -1); forms(c.begin(), c.end(), m, -1); forms(t.cbegin(), t.cend(), m, -1);
  int f = m.n[m.roots[0]].val; vp_check(t.front() == f && c.front() == f && &t.front() == &*t.begin(), "front is the first root"); if (m.roots.size() == 1) vp_check(t.back() == f && c.back() == f && &t.back() == &*t.begin(), "back is the only root");
  int x = m.pick("node"), v = vp_u8("w"); auto it = nodeIt(t, m, x); T::const_iterator ci = it; vp_check(ci == it && it == ci && !(ci != it) && *ci == *it, "constant and other iterators agree"); if (vp_choose(2, "form")) *it = v; else *it.operator->() = v; m.n[x].val = v; same(t, m);
  T u(t); forest m2 = m; t.front() = v; m.n[m.roots[0]].val = v; same(t, m); same(u, m2); vp_cover("access");
  int y = m.pick("source"), p; size_t i; m.place(p, i); int sv = m.n[y].val; auto si = nodeIt(t, m, y); if (vp_choose(2, "how")) t.insert(at(t, m, p, i), *si); else t.emplace(at(t, m, p, i), *si); m.add(p, i, sv); same(t, m); vp_cover("a value from the tree itself");
}
