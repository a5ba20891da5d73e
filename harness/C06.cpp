// @entry h_tree : any forest of 1..5 (thorough 1..6) nodes (all ordered shapes, any values): pre-order and level-order iteration from any node
// @entry h_tag : the same over the tag-based tree, shapes of 1..4 (thorough 1..5) nodes
#include "util.h"
#include "tagv.h"
#include "forest.h"
#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>
using namespace wordring;
// every shape once: nodes appended in document order
template <class Tree, class Mk> static void shape(Tree& t, forest& m, std::vector<typename Tree::iterator>& its, size_t n, Mk mk) {
  for (size_t k = 0; k < n; k++) { std::vector<int> open{ -1 }; if (k) for (int x = (int)k - 1; x >= 0; x = m.n[x].par) open.push_back(x); int p = open[vp_choose(open.size(), "parent")]; int v = vp_u8("v");
    its.push_back(t.insert(p < 0 ? t.end() : its[p].end(), mk(v))); m.add(p, m.kids(p).size(), v); }
}
template <class It, class Base, class Get> static void order(Base start, std::vector<int> const& want, forest& m, Get get) {
  It it(start), e; size_t i = 0; bool ok = true; bool post = vp_choose(2, "post");
  while (it != e && i <= want.size()) { if (i == want.size()) vp_fail("no extra nodes"); ok &= get(*it) == m.n[want[i]].val; ok &= get(*it.operator->()) == m.n[want[i]].val; ok &= get(*it.base()) == m.n[want[i]].val; It c = it; vp_check(c == it, "copies are equal"); if (post) { auto b = it++; ok &= get(*b) == m.n[want[i]].val; } else ++it; ++i; vp_check((it == e) == (i == want.size()), "ends exactly after the last node"); if (i < want.size()) vp_check(it != c, "moved on"); }
  vp_check(i == want.size(), "visits every node"); vp_check(ok, "visits the nodes in order");
}
template <class Tree, class Mk, class Get> static void run(size_t n, Mk mk, Get get) {
  Tree t; forest m; std::vector<typename Tree::iterator> its; shape(t, m, its, n, mk); int x = (int)vp_choose(n, "start"); std::vector<int> pre; m.pre(x, pre);
  order<tree_iterator<typename Tree::iterator>>(its[x], pre, m, get); order<level_order_tree_iterator<typename Tree::iterator>>(its[x], m.level(x), m, get); 
  typename Tree::const_iterator cx = its[x]; order<tree_iterator<typename Tree::const_iterator>>(cx, pre, m, get);
  vp_cover("order");
}
extern "C" void h_tree() { run<tree<int>>(vp_len(1, vp_thorough() ? 6 : 5, "n"), [](int v) { return v; }, [](int const& v) { return v; }); }
extern "C" void h_tag() { run<tag_tree<VNode>>(vp_len(1, vp_thorough() ? 5 : 4, "n"), [](int v) { VNode n; n.val = v; return n; }, [](VNode const& n) { return n.val; }); }
