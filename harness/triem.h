// Reference model of a trie: a finite map from keys over a small alphabet to values.
#pragma once
#include <limits>
#include <cassert>
#include <stdexcept>
#include <iterator>
#include <algorithm>
#include "util.h"
#include <wordring/trie/trie.hpp>
#include <vector>
template <class L> struct keys {
  using S = std::basic_string<L>;
  std::vector<L> abc; std::vector<S> all;      // alphabet in increasing unsigned order; all keys of length 1..len
  keys(std::vector<L> a, size_t len) : abc(a) { std::vector<S> cur{ S() }; for (size_t l = 0; l < len; l++) { std::vector<S> nx; for (auto& p : cur) for (L c : abc) nx.push_back(p + c); for (auto& k : nx) all.push_back(k); cur = nx; } }
};
template <class T, class L> struct model {
  using S = std::basic_string<L>;
  keys<L> const& K; std::vector<bool> in; std::vector<std::uint32_t> val;
  model(keys<L> const& k) : K(k), in(k.all.size()), val(k.all.size()) {}
  size_t count() const { size_t n = 0; for (bool b : in) n += b; return n; }
  bool prefix(S const& p) const { if (p.empty()) return true; for (size_t i = 0; i < in.size(); i++) if (in[i] && K.all[i].size() >= p.size() && K.all[i].compare(0, p.size(), p) == 0) return true; return false; }
  int idx(S const& s) const { for (size_t i = 0; i < in.size(); i++) if (K.all[i] == s) return (int)i; return -1; }
  bool has(S const& s) const { int i = idx(s); return i >= 0 && in[i]; }
  void map(T& t) const {                       // the trie is this map
    vp_check(t.size() == count(), "number of keys"); vp_check(t.empty() == (count() == 0), "emptiness");
    bool ok = true; T const& c = t;
    for (size_t i = 0; i < in.size(); i++) {
      S const& k = K.all[i]; vp_check(t.contains(k) == in[i], "membership"); auto it = t.find(k);
      vp_check((it != t.end()) == in[i], "exact search"); bool thrown = false;
      if (in[i]) { ok &= (std::uint32_t)t.at(k) == val[i]; ok &= (std::uint32_t)t.at(it) == val[i]; }
      else { try { (void)t.at(k); } catch (std::out_of_range&) { thrown = true; } vp_check(thrown, "reading an absent key is reported"); }
    }
    vp_check(ok, "values of keys");
  }
  template <class It> void down(It it, S const& p, size_t depth) const { // iteration shows exactly the prefixes of stored keys, in label order
    vp_check((bool)it == has(p), "end-of-key flag"); vp_check(!it == !has(p), "end-of-key flag, negated");
    if (!p.empty()) { vp_check(*it == p.back(), "label"); S s; it.string(s); vp_check(s == p, "key spelled by a position"); }
    auto b = it.begin(), e = it.end(); size_t n = 0;
    for (L c : K.abc) { S q = p + c; bool w = prefix(q); auto ch = it[c]; vp_check((ch != e) == w, "child by label");
      if (w) { vp_check(b != e, "children in order"); vp_check(b == ch, "children in label order"); vp_check(b.parent() == it, "parent"); down(b, q, depth + 1); ++b; n++; } }
    vp_check(b == e, "no further children");
  }
  void walk(T& t) const { down(t.begin(), S(), 0); }
  void search(T& t) const {
    for (S const& k : K.all) { vp_check((t.search(k) != t.end()) == prefix(k), "prefix search");
      size_t n = 0; while (n < k.size() && prefix(k.substr(0, n + 1))) n++;
      auto r = t.lookup(k.begin(), k.end()); vp_check(r.second == k.begin() + n, "longest matching prefix"); if (n) { S s; r.first.string(s); vp_check(s == k.substr(0, n), "position of the longest matching prefix"); } else vp_check(r.first == t.begin(), "no match leads to the root"); }
  }
};
template <class L> inline std::vector<L> alphabet(int kind);
template <> inline std::vector<char> alphabet<char>(int k) { if (k == 0) return { 'a', 'b' }; if (k == 1) return { '\0', '\xFF' }; if (k == 2) return { '\0', 'a', '\xFF' }; return { 'a', 'b', 'c' }; }
template <> inline std::vector<char16_t> alphabet<char16_t>(int k) { if (k == 0) return { 0x3042, 0x3044 }; if (k == 1) return { 0x0000, 0xFFFF }; return { 0x0041, 0x3041, 0x30FF }; }
template <> inline std::vector<char32_t> alphabet<char32_t>(int k) { if (k == 0) return { 0x61, 0x3042 }; if (k == 1) return { 0x0, 0x10FFFF }; return { 0x61, 0x161, 0x10061 }; }
