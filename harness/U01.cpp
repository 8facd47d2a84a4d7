// sources: Strings/Conversion.cpp Strings/Conversion.Linux.cpp Strings/String.cpp Basic.cpp Exception.cpp
// bounds: none on the code point: all 2^32 values of each conversion are decided
#include "utf.h"
template<typename T> static void roundtrip(const char* id) {
  char32_t c = (char32_t)vs_u32("codepoint");
  T buf[UtfConversion<T>::BufferLength + 0]; T spec[6]; for (auto& x : buf) x = T(); for (auto& x : spec) x = T();
  vint n = UtfConversion<T>::From32(c, buf);
  int sn = spec_enc(c, spec);
  if (sn == 0) { A(n == -1, "unencodable code point must be refused"); vs_reach("refused"); return; }
  A(n == sn, "number of units");
  n = sn;
  for (int i = 0; i < n; i++) A(unit(buf[i]) == unit(spec[i]), "encoded units");
  // decode from an exactly sized heap block so that an over-read is caught
  T* h = new T[n]; for (int i = 0; i < n; i++) h[i] = buf[i];
  char32_t back = (char32_t)(c ^ 1);
  vint m = UtfConversion<T>::To32(h, n, back);
  A(m == n, "decoding consumes what was written"); A(back == c, "decoding returns the code point");
  delete[] h; vs_reach("accepted");
}
VS_ENTRY(utf8) { roundtrip<char8_t>("utf8"); }
VS_ENTRY(utf16) { roundtrip<char16_t>("utf16"); }
VS_ENTRY(utf16be) { roundtrip<char16be_t>("utf16be"); }
VS_ENTRY(wide) {
  char32_t c = (char32_t)vs_u32("codepoint"); wchar_t b[UtfConversion<wchar_t>::BufferLength]; vint n = UtfConversion<wchar_t>::From32(c, b);
  A(n == 1, "one wide character"); A((uint32_t)b[0] == c, "same value"); char32_t d = c ^ 1; A(UtfConversion<wchar_t>::To32(b, n, d) == 1, "consumes one"); A(d == c, "same value back");
}
// two code points never share an encoding and no encoding is a prefix of another (decoding with more text behind it gives the same answer)
template<typename T> static void followed() {
  char32_t c = (char32_t)vs_u32("codepoint"); T buf[UtfConversion<T>::BufferLength]; vint n = UtfConversion<T>::From32(c, buf); if (n == -1) return;
  n = vs_concretize(n); int extra = 2; T* h = new T[n + extra]; for (int i = 0; i < n; i++) h[i] = buf[i]; for (int i = 0; i < extra; i++) h[n + i] = T((char16_t)vs_u16("tail"));
  char32_t d = c ^ 1; A(UtfConversion<T>::To32(h, n + extra, d) == n, "following text does not change the length"); A(d == c, "following text does not change the code point"); delete[] h; vs_reach("followed");
}
VS_ENTRY(utf8_followed) { followed<char8_t>(); }
VS_ENTRY(utf16_followed) { followed<char16_t>(); }
VS_ENTRY(utf16be_followed) { followed<char16be_t>(); }
