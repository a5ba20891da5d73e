// The out-of-line parts of libstdc++ the bitcode needs, for symbolic execution only.
#include <cxxabi.h>
#include <cstddef>
#include <cstdint>
#include <new>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <functional>
#include <optional>
#include <variant>
#include <any>
#include <list>
#include <map>
#include <unordered_map>
#include <system_error>
#include <ios>
#include <string>

extern "C" int __libc_single_threaded_dummy; 
extern "C" { char __libc_single_threaded = 1; void* __dso_handle = nullptr; }

// ---- exception classes (key functions defined here => vtables and typeinfo are emitted here)
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static char* cow(const char* p, size_t n) { char* r = new char[n + 1]; for (size_t i = 0; i < n; i++) r[i] = p[i]; r[n] = 0; return r; }
static size_t cown(const char* p) { size_t n = 0; while (p[n]) n++; return n; }
__cow_string::__cow_string() : _M_p(cow("", 0)) {}
__cow_string::__cow_string(const std::string& t) : _M_p(cow(t.data(), t.size())) {}
__cow_string::__cow_string(const char* p, size_t n) : _M_p(cow(p, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(cow(o._M_p, cown(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { delete[] _M_p; _M_p = cow(o._M_p, cown(o._M_p)); } return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = cow("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { std::swap(_M_p, o._M_p); return *this; }
logic_error::logic_error(const string& t) : _M_msg(t) {}
logic_error::logic_error(const char* t) : _M_msg(t, cown(t)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
#define LE(C) C::C(const string& s) : logic_error(s) {} C::C(const char* s) : logic_error(s) {} C::~C() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
runtime_error::runtime_error(const string& t) : _M_msg(t) {}
runtime_error::runtime_error(const char* t) : _M_msg(t, cown(t)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define RE(C) C::C(const string& s) : runtime_error(s) {} C::C(const char* s) : runtime_error(s) {} C::~C() noexcept {}
RE(range_error) RE(overflow_error) RE(underflow_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
type_info::~type_info() {}

// ---- list
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
// ---- hash table policy: a simple doubling of prime-ish (odd) sizes
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t r = n < 13 ? 13 : (n | 1); _M_next_resize = (std::size_t)-1; if (_M_max_load_factor > 0) _M_next_resize = r; return r; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) { std::size_t want = n_elt + n_ins + 1; if (want < n_bkt * 2) want = n_bkt * 2; if (_M_next_resize == 0 && want < 13) want = 13; if (n_elt + n_ins >= n_bkt || _M_next_resize == 0) return { true, _M_next_bkt(want) }; _M_next_resize = n_bkt; }
  return { false, 0 }; }
}
// Hash values are unspecified by the standard; a length-based hash keeps bucket choice independent of symbolic content.
size_t _Hash_bytes(const void*, size_t len, size_t) { return len; }

// ---- red-black tree
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != 0) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left != 0) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right != 0) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
  _Rb_tree_node_base*& root = header._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (insert_left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
    else { _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } } }
  root->_M_color = _S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept {
  _Rb_tree_node_base*& root = header._M_parent; _Rb_tree_node_base*& leftmost = header._M_left; _Rb_tree_node_base*& rightmost = header._M_right; _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* x_parent = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { x_parent = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else x_parent = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { x_parent = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == x_parent->_M_left) { _Rb_tree_node_base* w = x_parent->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; x_parent->_M_color = _S_red; rotl(x_parent, root); w = x_parent->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = x_parent; x_parent = x_parent->_M_parent; }
        else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = x_parent->_M_right; } w->_M_color = x_parent->_M_color; x_parent->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(x_parent, root); break; } }
      else { _Rb_tree_node_base* w = x_parent->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; x_parent->_M_color = _S_red; rotr(x_parent, root); w = x_parent->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = x_parent; x_parent = x_parent->_M_parent; }
        else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = x_parent->_M_left; } w->_M_color = x_parent->_M_color; x_parent->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(x_parent, root); break; } }
    if (x) x->_M_color = _S_black; }
  return y; }
}
extern "C" void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
extern "C" int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
extern "C" int strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }

// ---- just enough of iostreams for streams over a user-defined streambuf
#include <istream>
#include <ostream>
#include <streambuf>
namespace std {
locale::locale() noexcept {}
locale::locale(const locale&) noexcept {}
locale::~locale() noexcept {}
ios_base::ios_base() noexcept {}
ios_base::~ios_base() {}
}
extern "C" void _ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E(std::basic_ios<char>* self, std::streambuf* sb) { struct acc : std::basic_ios<char> { static void set(std::basic_ios<char>* p, std::streambuf* b) { ((acc*)p)->_M_streambuf = b; ((acc*)p)->_M_streambuf_state = iostate(0); ((acc*)p)->_M_exception = iostate(0); } }; acc::set(self, sb); }
extern "C" std::ostream* _ZNSo3putEc(std::ostream* self, char c) { self->rdbuf()->sputc(c); return self; }

// ---- the C library's small functions, in the C locale
#include <wchar.h>
extern "C" {
int* __errno_location() noexcept { static int e; return &e; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; } int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int isdigit(int c) noexcept { return (unsigned)c - '0' < 10u; } int isupper(int c) noexcept { return (unsigned)c - 'A' < 26u; } int islower(int c) noexcept { return (unsigned)c - 'a' < 26u; } int isalpha(int c) noexcept { return ((unsigned)c | 32) - 'a' < 26u; } int isalnum(int c) noexcept { return isalpha(c) | isdigit(c); }
int isspace(int c) noexcept { return (c == ' ') | ((unsigned)c - 9 < 5u); } int isblank(int c) noexcept { return (c == ' ') | (c == 9); } int isxdigit(int c) noexcept { return isdigit(c) | (((unsigned)c | 32) - 'a' < 6u); } int isprint(int c) noexcept { return (unsigned)c - 32 < 95u; } int isgraph(int c) noexcept { return (unsigned)c - 33 < 94u; } int iscntrl(int c) noexcept { return ((unsigned)c < 32u) | (c == 127); } int ispunct(int c) noexcept { return isgraph(c) & !isalnum(c); }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; } int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
size_t wcslen(const wchar_t* s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) noexcept { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) noexcept { __builtin_memmove(d, s, n * sizeof *s); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) noexcept { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
}
extern "C" char* vp_strchr(const char* s, int c) __asm__("strchr"); char* vp_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
extern "C" char* vp_strrchr(const char* s, int c) __asm__("strrchr"); char* vp_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
extern "C" char* vp_strstr(const char* s, const char* t) __asm__("strstr"); char* vp_strstr(const char* s, const char* t) { for (;; s++) { size_t i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return (char*)s; if (!*s) return nullptr; } }
extern "C" wchar_t* vp_wmemchr(const wchar_t* s, wchar_t c, size_t n) __asm__("wmemchr"); wchar_t* vp_wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (; n; s++, n--) if (*s == c) return (wchar_t*)s; return nullptr; }
static unsigned long long vp_strto(const char* s, char** end, int base, bool sgn) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, over = false; for (;; p++) { int c = (unsigned char)*p, d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99; if (d >= base) break; any = true; unsigned __int128 w = (unsigned __int128)v * base + d; if (w >> 64) over = true; v = (unsigned long long)w; }
  if (end) *end = (char*)(any ? p : s); if (sgn) { unsigned long long m = 0x7FFFFFFFFFFFFFFFull + neg; if (over || v > m) { *__errno_location() = 34; v = m; } } else if (over) { *__errno_location() = 34; return ~0ull; } return neg ? 0 - v : v; }
#define STRTO(n, t, sg) extern "C" t vp_##n(const char* s, char** e, int b) __asm__(#n); t vp_##n(const char* s, char** e, int b) { return (t)vp_strto(s, e, b, sg); } extern "C" t vp_c23##n(const char* s, char** e, int b) __asm__("__isoc23_" #n); t vp_c23##n(const char* s, char** e, int b) { return (t)vp_strto(s, e, b, sg); }
STRTO(strtol, long, true) STRTO(strtoll, long long, true) STRTO(strtoul, unsigned long, false) STRTO(strtoull, unsigned long long, false)
// ---- dynamic_cast over the Itanium ABI's type descriptions
extern "C" char vp_si[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE"), vp_vmi[] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
namespace { struct ti { char* vt; const char* name; }; struct ti_si : ti { ti* base; }; struct ti_vmi : ti { unsigned flags, n; struct { ti* b; long of; } bases[1]; };
char* find(char* p, ti* t, ti* want, int& n) {
  if (t == want) { n++; return p; }
  if (t->vt == vp_si + 16) return find(p, ((ti_si*)t)->base, want, n);
  if (t->vt == vp_vmi + 16) { char* r = nullptr; auto* v = (ti_vmi*)t; for (unsigned i = 0; i < v->n; i++) { long of = v->bases[i].of; if (!(of & 2)) continue; long d = of >> 8; if (of & 1) d = *(long*)(*(char**)p + d); int m = 0; char* q = find(p + d, v->bases[i].b, want, m); if (m && q != r) { n += m; r = q; } } return r; }
  return nullptr; } }
extern "C" void* vp_dyncast(char* p, ti*, ti* dst, long) __asm__("__dynamic_cast"); void* vp_dyncast(char* p, ti*, ti* dst, long) { char* vt = *(char**)p; long top = ((long*)vt)[-2]; ti* whole = ((ti**)vt)[-1]; int n = 0; char* r = find(p + top, whole, dst, n); return n == 1 ? r : nullptr; }
extern "C" void vp_badcast() __asm__("__cxa_bad_cast"); void vp_badcast() { throw std::bad_cast(); }
extern "C" void vp_badtypeid() __asm__("__cxa_bad_typeid"); void vp_badtypeid() { throw std::bad_typeid(); }

// type_info objects of the fundamental types: the key function makes the compiler emit them
namespace __cxxabiv1 { __fundamental_type_info::~__fundamental_type_info() {} }
extern "C" div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
extern "C" ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
