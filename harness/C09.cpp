// @entry h_ints : any trie (compact and stable, 1- and 2-byte labels) built by 2 (thorough 3) operations on keys of length 1..2 with any values: rebuilding it from its 32-bit, 16-bit or 8-bit serialized integers gives an equal trie that can still be modified
// @entry h_stream : the same through operator<< and operator>> on a stream, also with two tries written one after the other
// @entry h_bytes : the serialized bytes are the 32-bit integers in big-endian order, two per node
// @assume keys are drawn from small alphabets that include the extreme labels; stored values are 0..2^31-1
#include "triem.h"
#include "strm.h"
#include <wordring/serialize/serialize_iterator.hpp>
using namespace wordring;
template <class T, class L> struct made {
  keys<L> K; T t; model<T, L> m;
  made(int abc) : K(alphabet<L>(abc), 2), m(K) {}
  void ops(int n, bool del) { for (int i = 0; i < n; i++) { size_t k = vp_choose(K.all.size(), "key"); if (del && m.in[k]) { t.erase(K.all[k]); m.in[k] = false; } else { std::uint32_t x = (std::uint32_t)vp_sym(31, "v"); t.insert(K.all[k], x); if (!m.in[k]) { m.in[k] = true; m.val[k] = x; } } } }
  void same(T& u, char const*) { m.map(u); m.walk(u); }
  void modify(T& u) { auto in = m.in; auto val = m.val; size_t k = vp_choose(2, "further") ? 0 : K.all.size() - 1; if (m.in[k]) { u.erase(K.all[k]); m.in[k] = false; } else { u.insert(K.all[k], 7); m.in[k] = true; m.val[k] = 7; } m.map(u); m.walk(u); m.in = in; m.val = val; }
};
template <class T, class L> static void ints() {
  made<T, L> r((int)vp_choose(2, "alphabet")); r.ops(vp_thorough() ? 3 : 2, true); T& t = r.t;
  switch (vp_choose(5, "form")) {
  case 0: { std::vector<std::int32_t> v(t.ibegin(), t.iend()); T u(v.begin(), v.end()); r.same(u, ""); r.modify(u); break; }
  case 1: { std::vector<std::uint32_t> v(t.ibegin(), t.iend()); T u; u.insert(r.K.all[0], 3); u.assign(v.begin(), v.end()); r.same(u, ""); break; }
  case 2: { std::vector<std::uint8_t> v(serialize_iterator(t.ibegin()), serialize_iterator(t.iend())); T u; u.assign(v.begin(), v.end()); r.same(u, ""); r.modify(u); break; }
  case 3: { std::string v(serialize_iterator(t.ibegin()), serialize_iterator(t.iend())); T u(v.begin(), v.end()); r.same(u, ""); T w(serialize_iterator(t.ibegin()), serialize_iterator(t.iend())); r.same(w, ""); break; }
  default: { std::vector<std::uint16_t> v; for (auto i = t.ibegin(); i != t.iend(); ++i) { std::uint32_t x = *i; v.push_back((std::uint16_t)(x >> 16)); v.push_back((std::uint16_t)x); } T u(v.begin(), v.end()); r.same(u, ""); } }
  r.same(t, ""); T c(t); r.same(c, ""); T d; d = t; T e; e.swap(d); r.same(e, ""); r.modify(e); r.same(t, ""); vp_check(d.size() == 0 && d.empty(), "swap exchanges the contents"); vp_cover("integers");
}
extern "C" void h_ints() { switch (vp_choose(4, "kind")) { case 0: ints<trie<char>, char>(); break; case 1: ints<stable_trie<char>, char>(); break; case 2: ints<trie<char16_t>, char16_t>(); break; default: ints<stable_trie<char16_t>, char16_t>(); } }
template <class T, class L> static void strm() {
  made<T, L> r((int)vp_choose(2, "alphabet")), q(0); r.ops(vp_thorough() ? 3 : 2, true); q.ops(1, false);
  membuf b; { mem_ostream os(&b); os << r.t; if (vp_choose(2, "two")) os << q.t; else q.m.in.assign(q.m.in.size(), false); } size_t one = 8 + 8 * (size_t)std::distance(r.t.ibegin(), r.t.iend()) / 2; (void)one;
  b.rewind(); mem_istream is(&b); T u; u.insert(r.K.all[1], 9); is >> u; r.same(u, ""); if (q.m.count()) { T w; is >> w; q.same(w, ""); vp_cover("two tries in one stream"); } r.modify(u); vp_cover("stream");
}
extern "C" void h_stream() { switch (vp_choose(3, "kind")) { case 0: strm<trie<char>, char>(); break; case 1: strm<stable_trie<char>, char>(); break; default: strm<trie<char32_t>, char32_t>(); } }
extern "C" void h_bytes() {
  made<trie<char>, char> r(0); r.ops(2, false); std::vector<std::uint32_t> v(r.t.ibegin(), r.t.iend()); vp_check(v.size() % 2 == 0, "two integers per node"); bool ok = true; size_t i = 0;
  for (auto p = serialize_iterator(r.t.ibegin()); p != serialize_iterator(r.t.iend()); ++p, ++i) ok &= i / 4 < v.size() && *p == (std::uint8_t)(v[i / 4] >> (24 - 8 * (i % 4)));
  vp_check(ok && i == v.size() * 4, "bytes of the integers, most significant first"); vp_cover("bytes");
}
