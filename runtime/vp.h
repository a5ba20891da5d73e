// Harness interface. Under the engine these are symbolic primitives; natively they replay recorded values.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
extern "C" {
std::uint64_t vp_sym(unsigned bits, const char* name);       // fresh symbolic value
std::uint64_t vp_choose(std::uint64_t n, const char* name);  // symbolic value in [0,n), case-split
std::uint64_t vp_conc(std::uint64_t v);                       // case-split on every feasible value
void vp_assume(bool c);
void vp_check(bool c, const char* msg);
void vp_fail(const char* msg) __attribute__((noreturn));
void vp_cover(const char* msg);
int vp_thorough();
void vp_expect_stop();                                         // from here on the code is expected to stop by an assertion
}
inline std::uint8_t vp_u8(const char* n) { return (std::uint8_t)vp_sym(8, n); }
inline std::uint16_t vp_u16(const char* n) { return (std::uint16_t)vp_sym(16, n); }
inline std::uint32_t vp_u32(const char* n) { return (std::uint32_t)vp_sym(32, n); }
inline std::uint64_t vp_u64(const char* n) { return vp_sym(64, n); }
inline bool vp_bool(const char* n) { return vp_sym(1, n) != 0; }
// arbitrary string of exactly n characters (8-bit symbols)
inline std::string vp_bytes(std::size_t n, const char* name) { std::string s(n, '\0'); for (std::size_t i = 0; i < n; i++) s[i] = (char)vp_sym(8, name); return s; }
template <class S> inline S vp_ascii(std::size_t n, const char* name) { S s(n, 0); for (std::size_t i = 0; i < n; i++) s[i] = (typename S::value_type)vp_sym(7, name); return s; }
// a scalar value (code point that is not a surrogate)
inline char32_t vp_scalar(const char* name) { std::uint32_t c = (std::uint32_t)vp_sym(21, name); vp_assume(c <= 0x10FFFFu); vp_assume(!(0xD800u <= c && c <= 0xDFFFu)); return (char32_t)c; }
