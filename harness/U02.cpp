// sources: Strings/Conversion.cpp Strings/Conversion.Linux.cpp Strings/String.cpp Basic.cpp Exception.cpp
// bounds: all unit sequences of 0..8 (UTF-8) and 0..4 (UTF-16, big-endian UTF-16, wide) units, all unit values, stated length = any number <= the units present
// outside: longer inputs (a decoder looks at no more than the first 6 respectively 2 units)
#include "utf.h"
template<typename T> static T mk(uint32_t v); template<> char8_t mk<char8_t>(uint32_t v) { return (char8_t)v; } template<> char16_t mk<char16_t>(uint32_t v) { return (char16_t)v; } template<> char16be_t mk<char16be_t>(uint32_t v) { return char16be_t(spec_swap((char16_t)v)); } template<> wchar_t mk<wchar_t>(uint32_t v) { return (wchar_t)v; }
struct Outcome { vint r; char32_t c; };
// u: unit values as numbers (in natural byte order)
template<typename T> static Outcome decode(const uint32_t* u, vint n) {
  T* h = new T[n ? n : 1]; T* start = h; if (n == 0) start = h + 1; for (vint i = 0; i < n; i++) h[i] = mk<T>(u[i]);
  Outcome o; o.c = 0x12345678; o.r = UtfConversion<T>::To32(start, n, o.c); delete[] h; return o;
}
VS_ENTRY(utf8) {
  vint n = vs_choice("n", 9); uint32_t u[9]; for (vint i = 0; i < n; i++) u[i] = vs_u8("byte");
  Outcome o = decode<char8_t>(u, n);
  A((o.r == -1) | ((o.r >= 1) & (o.r <= n)), "result is failure or 1..length");
  if (n == 0) { A(o.r == -1, "nothing to decode"); return; }
  int k = u[0] < 0x80 ? 1 : u[0] < 0xC0 ? 0 : u[0] < 0xE0 ? 2 : u[0] < 0xF0 ? 3 : u[0] < 0xF8 ? 4 : u[0] < 0xFC ? 5 : u[0] < 0xFE ? 6 : 0;
  k = (int)vs_concretize(k);
  if (k > n) { A(o.r == -1, "truncated sequence is refused"); vs_reach("truncated"); return; }
  if (k == 0) return; // stray continuation byte or FE/FF: only the general requirement
  bool cont = true; uint32_t c = k == 1 ? u[0] : (u[0] & ((1u << (7 - k)) - 1)); for (int i = 1; i < k; i++) { cont &= (u[i] >= 0x80) & (u[i] < 0xC0); c = c * 64 + (u[i] & 63); }
  uint32_t least = k == 1 ? 0 : k == 2 ? 0x80 : k == 3 ? 0x800 : k == 4 ? 0x10000 : k == 5 ? 0x200000 : 0x4000000;
  if (cont) {
    bool sur = (c >= 0xD800) & (c <= 0xDFFF);
    if (sur) { A(o.r == -1, "bytes spelling a surrogate are refused"); vs_reach("surrogate"); }
    else if (c >= least) { A(o.r == k, "well-formed sequence consumes its length"); A(o.c == c, "well-formed sequence decodes to its code point"); vs_reach("wellformed"); }
  }
}
template<typename T> static void utf16x() {
  vint n = vs_choice("n", 5); uint32_t u[5]; for (vint i = 0; i < n; i++) u[i] = vs_u16("unit");
  Outcome o = decode<T>(u, n);
  if (n == 0) { A(o.r == -1, "nothing to decode"); return; }
  bool hi = (u[0] >= 0xD800) & (u[0] <= 0xDBFF), lo = (u[0] >= 0xDC00) & (u[0] <= 0xDFFF);
  if (lo) { A(o.r == -1, "lone low surrogate is refused"); vs_reach("low"); }
  else if (!hi) { A(o.r == 1, "consumes one unit"); A(o.c == u[0], "value of the unit"); vs_reach("bmp"); }
  else if (n < 2) { A(o.r == -1, "truncated pair is refused"); vs_reach("trunc"); }
  else if (!((u[1] >= 0xDC00) & (u[1] <= 0xDFFF))) { A(o.r == -1, "high surrogate without low is refused"); vs_reach("high"); }
  else { A(o.r == 2, "consumes the pair"); A(o.c == 0x10000 + (u[0] - 0xD800) * 0x400 + (u[1] - 0xDC00), "value of the pair"); vs_reach("pair"); }
}
VS_ENTRY(utf16) { utf16x<char16_t>(); }
VS_ENTRY(utf16be) { utf16x<char16be_t>(); }
VS_ENTRY(wide) {
  vint n = vs_choice("n", 3); uint32_t u[3]; for (vint i = 0; i < n; i++) u[i] = vs_u32("unit"); Outcome o = decode<wchar_t>(u, n);
  if (n == 0) A(o.r == -1, "nothing to decode"); else { A(o.r == 1, "consumes one unit"); A(o.c == u[0], "value of the unit"); }
}
template<typename T> static void negative() { vint n = vs_range("n", INT64_MIN, 0); T* h = new T[1]; char32_t c = 0; A(UtfConversion<T>::To32(h + 1, n, c) == -1, "no units, no code point"); delete[] h; }
VS_ENTRY(neg8) { negative<char8_t>(); }
VS_ENTRY(neg16) { negative<char16_t>(); }
VS_ENTRY(neg16be) { negative<char16be_t>(); }
VS_ENTRY(negw) { negative<wchar_t>(); }
