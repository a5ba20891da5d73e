#pragma once
#include <cstddef>
#include <cstdint>
using std::nullptr_t;
#if defined(VP_FIND) && defined(VP_SYMBOLIC)
// std::find over contiguous char32_t decided without one branch per element (same result, computed as a selection)
#include <algorithm>
#include <string>
#include <string_view>
namespace std {
inline const char32_t* vp_find32(const char32_t* f, const char32_t* l, char32_t v) {
  size_t n = (size_t)(l - f), k = n; for (size_t i = n; i-- > 0;) k = f[i] == v ? i : k; return f + k; }
template <> inline const char32_t* find<const char32_t*, char32_t>(const char32_t* f, const char32_t* l, const char32_t& v) { return vp_find32(f, l, v); }
}
#endif
