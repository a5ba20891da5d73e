// @entry h_pairs : every string of 0..4 (thorough 0..6) Unicode scalar values, every ordered pair of the encoding forms UTF-8 (char and char8_t), UTF-16, UTF-32
// @entry h_sources : the same conversions from string_view, null-terminated pointer, array and iterator-range sources; 0..2 scalar values
// @entry h_single : one scalar value: reader consumes exactly the units the writer produced, with arbitrary well-formed text following
#include "util.h"
#include <wordring/whatwg/infra/unicode.hpp>
using namespace wordring::whatwg;
template <class From, class To> static void pair(std::u32string const& u) {
  From src = ref::enc<From>(u); To want = ref::enc<To>(u);
  To got = encoding_cast<To>(src);
  vp_check(ref::same(got, want), "conversion yields exactly the standard encoding of the same scalar values");
  From back = encoding_cast<From>(got);
  vp_check(ref::same(back, src), "converting back restores the original");
  vp_cover("converted");
}
template <class From> static void row(unsigned t, std::u32string const& u) {
  switch (t) { case 0: pair<From, std::string>(u); break; case 1: pair<From, std::u8string>(u); break; case 2: pair<From, std::u16string>(u); break; default: pair<From, std::u32string>(u); }
}
extern "C" void h_pairs() {
  unsigned f = vp_choose(4, "from"), t = vp_choose(4, "to");
  std::u32string u = vp_scalars(vp_len(0, vp_thorough() ? 6 : 4, "len"), "c");
  switch (f) { case 0: row<std::string>(t, u); break; case 1: row<std::u8string>(t, u); break; case 2: row<std::u16string>(t, u); break; default: row<std::u32string>(t, u); }
}
template <class From, class To> static void src2(unsigned k, std::u32string const& u) {
  using C = typename From::value_type;
  From s = ref::enc<From>(u); To want = ref::enc<To>(u), got;
  if (k == 0) got = encoding_cast<To>(std::basic_string_view<C>(s));
  else if (k == 1) { for (char32_t c : u) vp_assume(c != 0); C const* p = s.c_str(); got = encoding_cast<To>(p); }
  else if (k == 2) { C a[10]{}; size_t n = 0; for (char32_t c : u) vp_assume(c != 0); for (C c : s) a[n++] = c; encoding_cast(a, std::back_inserter(got)); }
  else encoding_cast(s.begin(), s.end(), std::back_inserter(got));
  vp_check(ref::same(got, want), "conversion is the same from every kind of source");
  vp_cover("source");
}
extern "C" void h_sources() {
  unsigned k = vp_choose(4, "kind"), f = vp_choose(3, "from");
  std::u32string u = vp_scalars(vp_len(0, 2, "len"), "c");
  if (f == 0) { src2<std::string, std::u32string>(k, u); src2<std::string, std::u16string>(k, u); }
  else if (f == 1) { src2<std::u16string, std::string>(k, u); src2<std::u16string, std::u8string>(k, u); }
  else { src2<std::u32string, std::string>(k, u); src2<std::u8string, std::u32string>(k, u); }
}
template <class S> static void single() {
  char32_t c = vp_scalar("c"), d = vp_scalar("d");
  S s; to_string(c, std::back_inserter(s)); size_t n = s.size(); ref::put(s, d);
  vp_check(ref::same(s, ref::enc<S>(std::u32string{ c, d })), "one scalar value is written as its standard encoding");
  char32_t r = 0xFFFFFFFF; auto it = to_code_point(s.begin(), s.end(), r);
  vp_check(r == c, "reading yields the scalar value written");
  vp_check(it == s.begin() + n, "reading consumes exactly the units of one scalar value");
  vp_cover("single");
}
extern "C" void h_single() {
  switch (vp_choose(4, "form")) { case 0: single<std::string>(); break; case 1: single<std::u8string>(); break; case 2: single<std::u16string>(); break; default: single<std::u32string>(); }
}
