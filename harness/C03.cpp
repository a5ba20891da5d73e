// @entry h_ints : every value of every signed/unsigned 8/16/32/64-bit integer type
// @entry h_bytes : every byte string of 0..9 bytes read as a 1/2/4/8-byte integer (short input: the bytes present, as a big-endian number)
// @entry h_iter : every sequence of 0..3 integers of each width through the byte iterators and back, incl. iterator equality at every position
#include "util.h"
#include <wordring/serialize/serialize.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
#include <list>
using namespace wordring;
template <class T> static void one() {
  using U = std::make_unsigned_t<T>; U x = (U)vp_sym(sizeof(T) * 8, "x"); T v = (T)x;
  auto a = serialize(v); vp_check(a.size() == sizeof(T), "as many bytes as the type");
  bool ok = true; for (unsigned i = 0; i < sizeof(T); i++) { std::uint8_t w = (std::uint8_t)(x >> (8 * (sizeof(T) - 1 - i))); ok &= a[i] == w; ok &= serialize(v, i) == w; }
  vp_check(ok, "big-endian byte order");
  T r = 0; auto it = deserialize(a.begin(), a.end(), r); vp_check(r == v, "round trip"); vp_check(it == a.end(), "all bytes consumed");
  std::string s((char const*)a.data(), a.size()); s.push_back((char)vp_u8("next")); T q = 0; auto jt = deserialize(s.begin(), s.end(), q);
  vp_check(q == v, "round trip through signed chars"); vp_check(jt == s.begin() + sizeof(T), "following bytes untouched"); vp_cover("int");
}
extern "C" void h_ints() {
  switch (vp_choose(8, "type")) { case 0: one<std::int8_t>(); break; case 1: one<std::uint8_t>(); break; case 2: one<std::int16_t>(); break; case 3: one<std::uint16_t>(); break;
    case 4: one<std::int32_t>(); break; case 5: one<std::uint32_t>(); break; case 6: one<std::int64_t>(); break; default: one<std::uint64_t>(); }
}
template <class T> static void bytes() {
  std::string s = vp_bytes(vp_len(0, 9, "len"), "b"); std::uint64_t w = 0; size_t n = s.size() < sizeof(T) ? s.size() : sizeof(T);
  for (size_t i = 0; i < n; i++) w = (w << 8) | (unsigned char)s[i];
  T r = (T)0x55; auto it = deserialize(s.cbegin(), s.cend(), r); vp_check(r == (T)w, "value of the bytes present"); vp_check(it == s.cbegin() + n, "stops after the value or at the end"); vp_cover("bytes");
}
extern "C" void h_bytes() { switch (vp_choose(5, "type")) { case 0: bytes<std::uint8_t>(); break; case 1: bytes<std::int16_t>(); break; case 2: bytes<std::uint32_t>(); break; case 3: bytes<std::int32_t>(); break; default: bytes<std::uint64_t>(); } }
template <class T, class C> static void iter() {
  using U = std::make_unsigned_t<T>; size_t n = vp_len(0, 3, "n"); C v; std::vector<std::uint8_t> want;
  for (size_t i = 0; i < n; i++) { U x = (U)vp_sym(sizeof(T) * 8, "x"); v.push_back((T)x); for (unsigned k = 0; k < sizeof(T); k++) want.push_back((std::uint8_t)(x >> (8 * (sizeof(T) - 1 - k)))); }
  using SI = serialize_iterator<typename C::const_iterator>; SI a(v.begin()), e(v.end()); std::vector<std::uint8_t> got; size_t p = 0; bool post = vp_choose(2, "post");
  auto b = v.cbegin();
  while (a != e && got.size() < want.size() + 1) { vp_check(!(a == e), "iterator equality consistent"); SI c = a; vp_check(c == a, "copies are equal"); got.push_back(*a); if (post) { SI o = a++; vp_check(o == c, "post-increment returns old position"); vp_check(*o == got.back(), "old position still readable"); } else ++a; vp_check(c != a, "advanced iterator differs");
    if (++p % sizeof(T) == 0) ++b; vp_check(a.base() == b, "base position"); }
  vp_check(a == e, "ends at the end"); vp_check(ref::same(got, want), "byte sequence is the big-endian concatenation");
  using DI = deserialize_iterator<T, std::vector<std::uint8_t>::const_iterator>; DI d(want.begin()), de(want.end()); auto vi = v.begin(); bool ok = true; size_t cnt = 0;
  while (d != de && cnt < n + 1) { ok &= *d == *vi; DI o = d; if (post) { DI q = d++; vp_check(q == o, "post-increment returns old position"); } else ++d; vp_check(d != o, "advanced"); ++vi; ++cnt; }
  vp_check(d == de && cnt == n, "as many values as were written"); vp_check(ok, "values restored"); vp_cover("iter");
}
extern "C" void h_iter() {
  switch (vp_choose(6, "type")) { case 0: iter<std::uint8_t, std::vector<std::uint8_t>>(); break; case 1: iter<std::int16_t, std::vector<std::int16_t>>(); break; case 2: iter<std::uint32_t, std::vector<std::uint32_t>>(); break; case 3: iter<std::int32_t, std::list<std::int32_t>>(); break; case 4: iter<std::uint64_t, std::vector<std::uint64_t>>(); break; default: iter<std::int8_t, std::list<std::int8_t>>(); }
}
