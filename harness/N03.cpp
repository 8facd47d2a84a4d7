// sources: Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Basic.cpp Exception.cpp
// bounds: every value with 1..9 integer digits and six fraction digits, both signs, all digits symbolic; DBL_MAX, 1e100, 2^40+0.5, 0.1, 1e-6, 2^24+1, 1e15+0.25 and others; all texts of 0..4 (thorough 5) characters over digits, signs, point, exponent letters, space, tab and characters that never occur in numbers
// assume: "%f" prints the six-decimal digits of a value, and strtod/wcstod accept exactly the ISO C grammar of the C locale and map the digits of a value back to it (models/libc.cpp; correct rounding of the C library for up to 15 digits)
// outside: the rounding done by the C library itself; values with more digits than six-decimal form shows; infinities and NaN
#define STR_CAP 330
#include "str.h"
typedef const uint8_t* Digits;
// the six-decimal form without trailing zeros, and without the point when nothing follows it
template<typename T> static Seq<T> shown(int neg, Digits d, int n) {
  int last = n + 6; while (last > n && d[last - 1] == 0) last--; Seq<T> r; if (neg) r.push('-'); for (int i = 0; i < last; i++) { if (i == n) r.push('.'); r.push((T)('0' + d[i])); } return r;
}
static uint64_t bits(double v) { uint64_t b; __builtin_memcpy(&b, &v, 8); return b; }
static void check(int neg, Digits d, int n, uint64_t known = 0) {
  double v = vs_decimal(neg, d, n, known); bool ok = false;
  { AString a = ftoa(v); same(a, shown<char>(neg, d, n), "text of the value"); double r = atof_test(a, ok); A(ok, "its own text is accepted"); A(bits(r) == bits(v), "and gives the value back"); A(bits(atof(a)) == bits(v), "plain parser"); }
  { WString w = ftow(v); same(w, shown<wchar_t>(neg, d, n), "wide text of the value"); ok = false; double r = wtof_test(w, ok); A(ok, "its own wide text is accepted"); A(bits(r) == bits(v), "and gives the value back, wide"); A(bits(wtof(w)) == bits(v), "plain wide parser"); }
}
VS_ENTRY(roundTrip) { // weight=5
  int n = 1 + (int)vs_choice("integer digits", 9), neg = (int)vs_choice("negative", 2); uint8_t d[16]; for (int i = 0; i < n + 6; i++) d[i] = (uint8_t)vs_range("digit", 0, 9); if (n > 1) vs_assume(d[0] != 0);
  check(neg, d, n); vs_reach("checked");
}
struct Known { uint64_t bits; const char* digits; }; // integer and six fraction digits of particular values
static const Known known[9] = {
 { 0x7fefffffffffffffull, "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703"
  "537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123348274797826204144723168738177180919299881250404026184"
  "124858368000000" },
 { 0x54b249ad2594c37dull, "10000000000000000159028911097599180468360808563945281389781327557747838772170381060813469985856815104000000" },
 { 0x4270000000000800ull, "1099511627776500000" },
 { 0x3fb999999999999aull, "0100000" },
 { 0x3eb0c6f7a0b5ed8dull, "0000001" },
 { 0x4170000010000000ull, "16777217000000" },
 { 0x419d6f34547e6b40ull, "123456789123456" },
 { 0x430c6bf526340002ull, "1000000000000000250000" },
 { 0x412e847fffffde72ull, "999999999999" } };
VS_ENTRY(extremes) {
  const Known& v = known[vs_choice("value", 9)]; const char* t = v.digits; int neg = (int)vs_choice("negative", 2), n = 0; uint8_t d[320]; while (t[n]) { d[n] = (uint8_t)(t[n] - '0'); n++; }
  check(neg, d, n - 6, v.bits); vs_reach("checked");
}
// the whole text is a decimal number of ISO C: white space* sign? (digits+ (. digits*)? | . digits+) ((e|E) sign? digits+)?
template<typename T> static bool digit(T c) { return c >= '0' && c <= '9'; }
template<typename T> static bool whole(const Seq<T>& m) {
  int i = 0, k = 0; while (i < m.n && (m.c[i] == ' ' || m.c[i] == '\t')) i++; if (i < m.n && (m.c[i] == '-' || m.c[i] == '+')) i++;
  while (i < m.n && digit(m.c[i])) { i++; k++; } if (i < m.n && m.c[i] == '.') { i++; while (i < m.n && digit(m.c[i])) { i++; k++; } } if (k == 0) return false; if (i == m.n) return true;
  if (m.c[i] != 'e' && m.c[i] != 'E') return false; i++; if (i < m.n && (m.c[i] == '-' || m.c[i] == '+')) i++; k = 0; while (i < m.n && digit(m.c[i])) { i++; k++; } return k > 0 && i == m.n;
}
template<typename T> static void texts(double(*test)(const ObjectString<T>&, bool&), double(*plain)(const ObjectString<T>&)) {
  static const char set[] = "-+.eE \tz,/:"; static const int ways[3] = { 0, 4, 3 }; int n = (int)vs_choice("n", BOUND(5, 6)), w = (int)vs_choice("way", 3); Seq<T> m; for (int i = 0; i < n; i++) { int c = (int)vs_choice("kind", 12); m.push(c == 11 ? (T)('0' + vs_range("digit", 0, 9)) : (T)set[c]); }
  Backing<T> keep; ObjectString<T> s = build(ways[w], m, keep); bool ok = false; test(s, ok); bool want = whole(m); if (want) { A(ok, "a number is accepted"); vs_reach("accepted"); } else { A(!ok, "other text is refused"); A(bits(plain(s)) == 0, "plain parser gives 0"); vs_reach("refused"); }
  same(s, m, "text unchanged");
}
VS_ENTRY(narrowTexts) { texts<char>(atof_test, atof); } // weight=5
VS_ENTRY(wideTexts) { texts<wchar_t>(wtof_test, wtof); } // weight=5
