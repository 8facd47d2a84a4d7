// Specification of the encodings, written independently of the library.
#pragma once
#include "vs.h"
#include "Strings/Conversion.h"
using namespace vl;
using namespace vl::encoding;
// Encodes c into d (room for 6 units), returns the number of units, 0 when c cannot be encoded.
static inline bool spec_surrogate(uint32_t c) { return (c >= 0xD800u) & (c <= 0xDFFFu); }
static inline int spec_len(char8_t, uint32_t c) { if (spec_surrogate(c)) return 0; if (c < 0x80u) return 1; if (c < 0x800u) return 2; if (c < 0x10000u) return 3; if (c < 0x200000u) return 4; if (c < 0x4000000u) return 5; if (c < 0x80000000u) return 6; return 0; }
static inline int spec_len(char16_t, uint32_t c) { if (spec_surrogate(c)) return 0; if (c < 0x10000u) return 1; if (c < 0x110000u) return 2; return 0; }
static inline int spec_len(char16be_t, uint32_t c) { return spec_len(char16_t(), c); }
static inline int spec_len(char32_t, uint32_t) { return 1; }
static inline int spec_len(wchar_t, uint32_t) { return 1; }
static inline int spec_enc(uint32_t c, char8_t* d) {
  int n = spec_len(char8_t(), c); if (n == 0) return 0; if (n == 1) { d[0] = (char8_t)c; return 1; }
  for (int i = n - 1; i > 0; i--) { d[i] = (char8_t)(0x80u + (c % 64u)); c /= 64u; }
  static const unsigned lead[7] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC }; d[0] = (char8_t)(lead[n] + c); return n;
}
static inline int spec_enc(uint32_t c, char16_t* d) {
  int n = spec_len(char16_t(), c); if (n == 0) return 0; if (n == 1) { d[0] = (char16_t)c; return 1; }
  c -= 0x10000u; d[0] = (char16_t)(0xD800u + c / 1024u); d[1] = (char16_t)(0xDC00u + c % 1024u); return 2;
}
static inline char16_t spec_swap(char16_t c) { return (char16_t)((c << 8) | (c >> 8)); }
static inline int spec_enc(uint32_t c, char16be_t* d) { char16_t t[2]; int n = spec_enc(c, t); for (int i = 0; i < n; i++) d[i].value = spec_swap(t[i]); return n; }
static inline int spec_enc(uint32_t c, char32_t* d) { d[0] = c; return 1; }
static inline int spec_enc(uint32_t c, wchar_t* d) { d[0] = (wchar_t)c; return 1; }
static inline uint32_t unit(char8_t c) { return c; } static inline uint32_t unit(char16_t c) { return c; } static inline uint32_t unit(char16be_t c) { return c.value; } static inline uint32_t unit(char32_t c) { return c; } static inline uint32_t unit(wchar_t c) { return (uint32_t)c; } static inline uint32_t unit(char c) { return (uint8_t)c; }
