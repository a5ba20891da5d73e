// Reference model of an ordered forest, used by the tree harnesses.
#pragma once
// a value that shows when it was moved from
struct mval { int v; mval(int x = -1) : v(x) {} mval(mval const&) = default; mval& operator=(mval const&) = default; mval(mval&& o) noexcept : v(o.v) { o.v = -2; } mval& operator=(mval&& o) noexcept { if (this != &o) { v = o.v; o.v = -2; } return *this; } operator int() const { return v; } };
#include "vp.h"
#include <vector>
struct forest {
  struct node { int val; int par; std::vector<int> kids; bool live; };
  std::vector<node> n; std::vector<int> roots;
  std::vector<int>& kids(int p) { return p < 0 ? roots : n[p].kids; }
  size_t idx(int x) { auto& k = kids(n[x].par); for (size_t i = 0; i < k.size(); i++) if (k[i] == x) return i; return k.size(); }
  int add(int p, size_t at, int v) { int id = (int)n.size(); n.push_back({ v, p, {}, true }); kids(p).insert(kids(p).begin() + at, id); return id; }
  void unlink(int x) { auto& k = kids(n[x].par); k.erase(k.begin() + idx(x)); }
  void kill(int x) { n[x].live = false; for (int c : n[x].kids) kill(c); }
  void erase(int x) { unlink(x); kill(x); }
  bool inside(int p, int sub) { for (; p >= 0; p = n[p].par) if (p == sub) return true; return false; }
  int copy(forest& src, int x, int p, size_t at) { int r = add(p, at, src.n[x].val); std::vector<int> ks = src.n[x].kids; for (int c : ks) copy(src, c, r, n[r].kids.size()); return r; }
  size_t count(int x) { size_t c = 1; for (int k : n[x].kids) c += count(k); return c; }
  size_t count() { size_t c = 0; for (int k : roots) c += count(k); return c; }
  void pre(int x, std::vector<int>& o) { o.push_back(x); for (int k : n[x].kids) pre(k, o); }
  std::vector<int> pre() { std::vector<int> o; for (int k : roots) pre(k, o); return o; }
  std::vector<int> level(int x) { std::vector<int> o{ x }; for (size_t i = 0; i < o.size(); i++) for (int k : n[o[i]].kids) o.push_back(k); return o; }
  // arbitrary live node / arbitrary insertion place
  int pick(char const* nm) { std::vector<int> o = pre(); return o[vp_choose(o.size(), nm)]; }
  void place(int& p, size_t& at) { std::vector<int> o = pre(); int i = (int)vp_choose(o.size() + 1, "parent"); p = i == 0 ? -1 : o[i - 1]; at = vp_choose(kids(p).size() + 1, "index"); }
};
