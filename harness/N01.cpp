// sources: Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Basic.cpp Exception.cpp
// bounds: none on the number: all 2^32 / 2^64 values of every conversion
// assume: sprintf/swprintf print integers canonically and strtol-family parse them as ISO C says (models/libc.cpp, encoded digit by digit and bounded by the size argument where the function takes one)
#include "str.h"
template<typename T> static void canonical(const ObjectString<T>& s, bool neg) { // s is the canonical decimal form
  vint n = vs_concretize(s.Length()); int i = 0; A(n >= 1, "not empty"); if (neg) { A(s[0] == '-', "sign"); i = 1; }
  A(n - i >= 1, "has digits"); bool ok = true; for (int k = i; k < n; k++) { ok = ok & (s[k] >= '0') & (s[k] <= '9'); }
  A(ok, "only digits"); A((s[i] != '0') | (n - i == 1), "no leading zero"); if (neg) A(!(s[i] == '0'), "no negative zero"); A(n - i <= 20, "length");
  const T* b = s.Buffer(); A(b[n] == 0, "terminated");
}
template<typename T> static void sameText(const ObjectString<T>& w, const AString& a) { vint n = vs_concretize(a.Length()); A(w.Length() == n, "narrow and wide lengths agree"); for (int i = 0; i < n; i++) A((int64_t)w[i] == (int64_t)a[i], "narrow and wide characters agree"); }
VS_ENTRY(i32) { int32_t v = (int32_t)vs_u32("v"); AString a = itoa(v); WString w = itow(v); canonical(a, v < 0); sameText(w, a); bool ok = false; A(atoi_test(a, ok) == v, "narrow value returns"); A(ok, "narrow success"); ok = false; A(wtoi_test(w, ok) == v, "wide value returns"); A(ok, "wide success"); A(atoi(a) == v, "atoi"); A(wtoi(w) == v, "wtoi"); vs_reach("i32"); }
VS_ENTRY(i64) { int64_t v = (int64_t)vs_u64("v"); AString a = i64toa(v); WString w = i64tow(v); canonical(a, v < 0); sameText(w, a); bool ok = false; A(atoi64_test(a, ok) == v, "narrow value returns"); A(ok, "narrow success"); ok = false; A(wtoi64_test(w, ok) == v, "wide value returns"); A(ok, "wide success"); A(atoi64(a) == v, "atoi64"); A(wtoi64(w) == v, "wtoi64"); vs_reach("i64"); }
VS_ENTRY(u32) { uint32_t v = (uint32_t)vs_u32("v"); AString a = utoa(v); WString w = utow(v); canonical(a, false); sameText(w, a); bool ok = false; A(atou_test(a, ok) == v, "narrow value returns"); A(ok, "narrow success"); ok = false; A(wtou_test(w, ok) == v, "wide value returns"); A(ok, "wide success"); A(atou(a) == v, "atou"); A(wtou(w) == v, "wtou"); vs_reach("u32"); }
VS_ENTRY(u64) { uint64_t v = (uint64_t)vs_u64("v"); AString a = u64toa(v); WString w = u64tow(v); canonical(a, false); sameText(w, a); bool ok = false; A(atou64_test(a, ok) == v, "narrow value returns"); A(ok, "narrow success"); ok = false; A(wtou64_test(w, ok) == v, "wide value returns"); A(ok, "wide success"); A(atou64(a) == v, "atou64"); A(wtou64(w) == v, "wtou64"); vs_reach("u64"); }
// the native-width conversions print every 64-bit value canonically as well
VS_ENTRY(nativeInt) { int64_t v = (int64_t)vs_u64("v"); AString a = itoa(v); WString w = itow(v); canonical(a, v < 0); sameText(w, a); sameText(i64tow(v), a); bool ok = false; A(atoi64_test(a, ok) == v, "value"); A(ok, "success"); }
VS_ENTRY(nativeUint) { uint64_t v = (uint64_t)vs_u64("v"); AString a = utoa(v); WString w = utow(v); canonical(a, false); sameText(w, a); sameText(u64tow(v), a); bool ok = false; A(atou64_test(a, ok) == v, "value"); A(ok, "success"); }
// small values against digits computed here
VS_ENTRY(small) {
  int64_t v = vs_range("v", -9999, 9999); AString a = i64toa(v); int64_t m = v < 0 ? -v : v; int i = v < 0 ? 1 : 0; int d = m < 10 ? 1 : m < 100 ? 2 : m < 1000 ? 3 : 4; A(a.Length() == d + i, "number of digits");
  for (int k = d - 1; k >= 0; k--) { A(a[i + k] == '0' + m % 10, "digit"); m /= 10; } if (i) A(a[0] == '-', "sign"); vs_reach("small");
}
