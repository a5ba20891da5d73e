// Model of the ICU IDNA entry points the library calls, for ASCII domain names of at most 27 characters without punycode labels
// (anything else ends the path as outside the bounds). Follows ICU's UTS46 processing of ASCII: letters are lowered, labels are
// checked for hyphens and emptiness, and with UIDNA_USE_STD3_RULES characters other than letters, digits and hyphens are errors.
#include <unicode/idna.h>
#include <unicode/unistr.h>
#include <cstdlib>
#include "vp.h"
U_NAMESPACE_BEGIN
void* UMemory::operator new(size_t n) noexcept { return malloc(n); }
void UMemory::operator delete(void* p) noexcept { free(p); }
UObject::~UObject() {}
Replaceable::~Replaceable() {}
UnicodeString::~UnicodeString() {}
UnicodeString& UnicodeString::append(UChar32 c) {
  int32_t n = length(); vp_assume(c >= 0 && c < 0x80 && n < US_STACKBUF_SIZE);
  fUnion.fStackFields.fBuffer[n] = (char16_t)c; setShortLength(n + 1); return *this;
}
IDNA::~IDNA() {}
class UTS46 : public IDNA {
public:
  uint32_t m_opt; explicit UTS46(uint32_t o) : m_opt(o) {}
  UnicodeString& run(UnicodeString const& in, UnicodeString& out, IDNAInfo& info) const {
    int32_t n = in.length(); char16_t const* p = in.getBuffer(); int32_t start = 0; uint32_t err = 0;
    if (n == 0) err |= UIDNA_ERROR_EMPTY_LABEL;
    for (int32_t i = 0; i < n; i++) {
      char16_t c = p[i];
      if (c == u'.') { if (i == start) err |= UIDNA_ERROR_EMPTY_LABEL; start = i + 1; out.append((UChar32)c); continue; }
      vp_assume(!(c == u'-' && i == start + 3 && p[i - 1] == u'-')); // "??--": punycode or forbidden
      if (c == u'-' && i == start) err |= UIDNA_ERROR_LEADING_HYPHEN;
      if (c == u'-' && (i + 1 == n || p[i + 1] == u'.')) err |= UIDNA_ERROR_TRAILING_HYPHEN;
      bool up = c >= u'A' && c <= u'Z';
      bool ldh = up || (c >= u'a' && c <= u'z') || (c >= u'0' && c <= u'9') || c == u'-';
      if (!ldh && (m_opt & UIDNA_USE_STD3_RULES)) err |= UIDNA_ERROR_DISALLOWED;
      out.append((UChar32)(up ? c + 32 : c));
    }
    info.errors = err; return out;
  }
  UnicodeString& labelToASCII(UnicodeString const& a, UnicodeString& b, IDNAInfo& i, UErrorCode&) const override { return run(a, b, i); }
  UnicodeString& labelToUnicode(UnicodeString const& a, UnicodeString& b, IDNAInfo& i, UErrorCode&) const override { return run(a, b, i); }
  UnicodeString& nameToASCII(UnicodeString const& a, UnicodeString& b, IDNAInfo& i, UErrorCode&) const override { return run(a, b, i); }
  UnicodeString& nameToUnicode(UnicodeString const& a, UnicodeString& b, IDNAInfo& i, UErrorCode&) const override { return run(a, b, i); }
};
IDNA* IDNA::createUTS46Instance(uint32_t options, UErrorCode&) { return new UTS46(options); }
U_NAMESPACE_END
