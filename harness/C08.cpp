// @entry h_trie : byte-labelled compact trie: any 3 (thorough 4) operations (insert, erase, subscript assignment) on keys of length 1..2 over {a,b} or {00,FF} with any values
// @entry h_stable : the same for the stable trie; positions of value slots do not move while keys are inserted
// @entry h_deep : both tries: any set of 2 (thorough 3) of the keys of length 1..3 over two labels inserted in any order with any values, then any one erased (and inserted again)
// @entry h_three : both tries: keys of length 1..2 over {00,a,FF} or {a,b,c}: 3 insertions, one erasure
// @entry h_seq2 thorough=1500 : both tries: any sequence of 1..5 (thorough 1..6) insertions of absent and erasures of present keys of length 1..2 over {00,01} or {a,b}, any values
// @entry h_seq3 thorough=1500 : the same with 1..4 (thorough 1..5) steps over {00,02,05} or {a,b,c}
// @entry h_wide : char16_t and char32_t labels, both tries: any 2 (thorough 3) operations on keys of length 1..2
// @entry h_bulk : construction from any list of 0..3 keys (sorted or not, duplicates, empty keys) equals inserting them one by one
// @entry h_bulkw : the same with char16_t and char32_t labels
// @entry h_base : the byte-level tries trie_base and stable_trie_base: any 3 (thorough 4) operations on keys of length 1..2 over {61,62} or {00,FF}, or construction from any list of 0..3 (thorough 4) keys
// @entry h_const : every trie: after any 2 insertions, every form of access (iterator pairs, keys, subscripts, const objects, copies) agrees with the map
// @assume keys are drawn from small alphabets that include the extreme labels; stored values are 0..2^31-1
#include "triem.h"
using namespace wordring;
template <class T, class L> struct run {
  using S = std::basic_string<L>;
  keys<L> K; T t; model<T, L> m;
  run(std::vector<L> const& abc, size_t len) : K(abc, len), m(K) {}
  run(int abc, size_t len) : K(alphabet<L>(abc), len), m(K) {}
  std::uint32_t v() { return (std::uint32_t)vp_sym(31, "v"); }
  void ins(size_t i) { std::uint32_t x = v(); auto it = t.insert(K.all[i], x); if (!m.in[i]) { m.in[i] = true; m.val[i] = x; } S s; it.string(s); vp_check(s == K.all[i], "insert returns the position of the key"); vp_check((bool)it, "insert returns the end of the key"); }
  void del(size_t i, bool byPos) { if (byPos) t.erase(t.find(K.all[i])); else t.erase(K.all[i]); m.in[i] = false; }
  void sub(size_t i) { std::uint32_t x = v(); if (!m.in[i]) { m.in[i] = true; m.val[i] = 0; } vp_check((std::uint32_t)t[K.all[i]] == m.val[i], "subscript reads the stored value"); t[K.all[i]] = (std::int32_t)x; m.val[i] = x; }
  void op() { size_t i = vp_choose(K.all.size(), "key"); switch (vp_choose(3, "op")) { case 0: ins(i); break; case 1: vp_assume(m.count() > 0); del(i, i & 1); vp_cover("erase"); break; default: sub(i); } }
  void same() { m.map(t); m.walk(t); m.search(t); }
  void ops(int n) { for (int i = 0; i < n; i++) op(); same(); vp_cover("operations"); }
  void deep(int n, size_t lim = 99) { for (int i = 0; i < n; i++) { size_t k = vp_choose(K.all.size(), "key"); vp_assume(!m.in[k]); ins(k); } same(); size_t k = vp_choose(K.all.size(), "erased"); vp_assume(m.in[k]); del(k, true); same(); if (vp_choose(2, "again")) { ins(k); same(); } vp_cover("deep"); }
};
extern "C" void h_trie() { run<trie<char>, char> r((int)vp_choose(2, "alphabet"), 2); r.ops(vp_thorough() ? 4 : 3); }
extern "C" void h_stable() { run<stable_trie<char>, char> r((int)vp_choose(2, "alphabet"), 2); r.ops(vp_thorough() ? 4 : 3); }
extern "C" void h_deep() { if (vp_choose(2, "kind")) { run<trie<char>, char> r((int)vp_choose(2, "alphabet"), 3); r.deep(vp_thorough() ? 3 : 2); } else { run<stable_trie<char>, char> r((int)vp_choose(2, "alphabet"), 3); r.deep(vp_thorough() ? 3 : 2); } }
extern "C" void h_three() { int a = (int)vp_choose(2, "alphabet") + 2; if (vp_choose(2, "kind")) { run<trie<char>, char> r(a, 2); r.deep(3); } else { run<stable_trie<char>, char> r(a, 2); r.deep(3); } }
template <class T> static void seq(std::vector<char> abc, int n) { run<T, char> r(abc, 2); for (int k = (int)vp_len(1, n, "steps"); k; k--) { size_t i = vp_choose(r.K.all.size(), "key"); if (r.m.in[i]) r.del(i, i & 1); else r.ins(i); } r.m.map(r.t); r.m.walk(r.t); vp_cover("sequence"); }
static void seqs(std::vector<char> abc, int n) { if (vp_choose(2, "kind")) seq<trie<char>>(abc, n); else seq<stable_trie<char>>(abc, n); }
extern "C" void h_seq2() { seqs(vp_choose(2, "alphabet") ? std::vector<char>{ 0, 1 } : std::vector<char>{ 'a', 'b' }, vp_thorough() ? 6 : 5); }
extern "C" void h_seq3() { seqs(vp_choose(2, "alphabet") ? std::vector<char>{ 0, 2, 5 } : std::vector<char>{ 'a', 'b', 'c' }, vp_thorough() ? 5 : 4); }
extern "C" void h_wide() { int a = (int)vp_choose(3, "alphabet"), n = vp_thorough() ? 3 : 2;
  switch (vp_choose(4, "kind")) { case 0: { run<trie<char16_t>, char16_t> r(a, 2); r.ops(n); break; } case 1: { run<trie<char32_t>, char32_t> r(a, 2); r.ops(n); break; } case 2: { run<stable_trie<char16_t>, char16_t> r(a, 2); r.ops(n); break; } default: { run<stable_trie<char32_t>, char32_t> r(a, 2); r.ops(n); } } }
template <class T, class L = char> static void bulk() {
  keys<L> K(alphabet<L>((int)vp_choose(2, "alphabet")), 2); size_t n = vp_choose(4, "n"); std::vector<std::basic_string<L>> v; model<T, L> m(K);
  for (size_t i = 0; i < n; i++) { size_t k = vp_choose(K.all.size() + 1, "key"); v.push_back(k ? K.all[k - 1] : std::basic_string<L>()); if (k) m.in[k - 1] = true; }
  T t(v.begin(), v.end()); m.map(t); m.walk(t); m.search(t); T u; u.insert(std::basic_string<L>(2, L(0x7A)), 5); u.assign(v.begin(), v.end()); m.map(u); m.walk(u);
  size_t k = vp_choose(K.all.size(), "erased"); t.erase(K.all[k]); m.in[k] = false; m.map(t); m.walk(t); vp_cover("bulk");
}
extern "C" void h_bulkw() { switch (vp_choose(4, "kind")) { case 0: bulk<trie<char16_t>, char16_t>(); break; case 1: bulk<stable_trie<char16_t>, char16_t>(); break; case 2: bulk<trie<char32_t>, char32_t>(); break; default: bulk<stable_trie<char32_t>, char32_t>(); } }
extern "C" void h_bulk() { if (vp_choose(2, "kind")) bulk<trie<char>>(); else bulk<stable_trie<char>>(); }

using u8 = std::uint8_t; template <> inline std::vector<u8> alphabet<u8>(int k) { if (k == 0) return { 0x61, 0x62 }; return { 0, 0xFF }; }
// every form of access
template <class T, class L> static void access(T& t, model<T, L> const& m) {
  T const& c = t; auto const& K = m.K; bool ok = true; vp_check(c.size() == m.count() && c.empty() == (m.count() == 0) && c.max_size() >= c.size(), "size of a constant trie");
  for (size_t i = 0; i < K.all.size(); i++) { auto const& k = K.all[i]; ok &= c.contains(k.begin(), k.end()) == m.in[i]; ok &= c.contains(k) == m.in[i]; auto f = c.find(k.begin(), k.end()); ok &= (f != c.end()) == m.in[i]; ok &= (f == c.cend()) == !m.in[i]; if constexpr (requires { c.search(k.begin(), k.end()); }) ok &= (c.search(k.begin(), k.end()) != c.cend()) == m.prefix(k); ok &= (c.search(k) != c.end()) == m.prefix(k);
    auto rd = [&](auto g) { try { return (std::int64_t)(std::uint32_t)g(); } catch (std::out_of_range&) { return (std::int64_t)-1; } }; std::int64_t w = m.in[i] ? (std::int64_t)m.val[i] : -1;
    ok &= rd([&] { return t.at(k.begin(), k.end()); }) == w; ok &= rd([&] { return c.at(k.begin(), k.end()); }) == w; ok &= rd([&] { return c.at(k); }) == w; ok &= rd([&] { return t.at(k); }) == w; if (m.in[i]) { ok &= (std::uint32_t)c.at(f) == m.val[i]; ok &= (std::uint32_t)t.at(f) == m.val[i]; ok &= (std::uint32_t)t[k] == m.val[i]; }
    if (m.prefix(k)) { auto p = c.search(k); std::basic_string<L> s; p.string(s); ok &= s == k; auto q = p; ok &= !(q != p) && q == p; auto r = c.begin(); for (L x : k) r = r[x]; ok &= r == p; } }
  ok &= c.begin() == c.cbegin() && c.end() == c.cend(); { auto a = c.begin().begin(), b = a; if (a != c.end()) { auto o = a++; ok &= o == b; ++b; ok &= a == b; } } vp_check(ok, "every form of access agrees with the map"); vp_cover("accessed"); }
template <class T, class L> static void basis() {
  if (vp_choose(2, "how")) { run<T, L> r((int)vp_choose(2, "alphabet"), 2); r.ops(vp_thorough() ? 4 : 3); access(r.t, r.m); T d(r.t); r.m.map(d); d.clear(); vp_check(d.empty() && d.begin().begin() == d.end(), "cleared"); r.m.map(r.t); r.t.swap(d); r.m.map(d); r.m.walk(d); vp_check(r.t.empty(), "swapped"); return; }
  keys<L> K(alphabet<L>((int)vp_choose(2, "alphabet")), 2); size_t n = vp_choose(vp_thorough() ? 5 : 4, "n"); std::vector<std::basic_string<L>> v; model<T, L> m(K); for (size_t i = 0; i < n; i++) { size_t k = vp_choose(K.all.size(), "key"); v.push_back(K.all[k]); m.in[k] = true; }
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); T t(v.begin(), v.end()); m.map(t); m.walk(t); m.search(t); access(t, m); std::vector<std::int32_t> z(t.ibegin(), t.iend()); T u(z.begin(), z.end()); m.map(u); size_t k = vp_choose(K.all.size(), "erased"); u.erase(K.all[k]); m.in[k] = false; m.map(u); m.walk(u); vp_cover("constructed"); }
extern "C" void h_base() { if (vp_choose(2, "kind")) basis<wordring::detail::trie_base<>, u8>(); else basis<wordring::detail::stable_trie_base<>, u8>(); }
template <class T, class L> static void konst() { run<T, L> r((int)vp_choose(2, "alphabet"), 2); for (int i = 0; i < 2; i++) r.ins(vp_choose(r.K.all.size(), "key")); access(r.t, r.m); T d(r.t); r.del(0, false); access(r.t, r.m); T e; e = std::move(r.t); access(e, r.m); }
extern "C" void h_const() { switch (vp_choose(6, "kind")) { case 0: konst<trie<char>, char>(); break; case 1: konst<stable_trie<char>, char>(); break; case 2: konst<trie<char16_t>, char16_t>(); break; case 3: konst<stable_trie<char16_t>, char16_t>(); break; case 4: konst<trie<char32_t>, char32_t>(); break; default: konst<stable_trie<char32_t>, char32_t>(); } }
