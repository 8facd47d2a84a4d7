// sources: Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Basic.cpp Exception.cpp
// bounds: all texts of 0..3 (thorough 0..4) arbitrary characters; all texts of 9..21 decimal digits with an optional sign around the range limits of each parser; texts made as parts of larger texts
// assume: strtol-family functions behave as ISO C says in the C locale (white space, sign, digits, saturation), see models/libc.cpp
// outside: texts containing the zero character; other lengths with non-digit characters
#include "str.h"
// canonical decimal form: "0" | [1-9][0-9]* | -[1-9][0-9]*
template<typename T> static bool canonicalForm(const Seq<T>& m, bool allowNeg) {
  if (m.n == 0) return false; int i = 0; bool neg = m.c[0] == '-'; if (neg) { if (!allowNeg || m.n == 1) return false; i = 1; }
  bool ok = true; for (int k = i; k < m.n; k++) ok = ok & (m.c[k] >= '0') & (m.c[k] <= '9'); if (neg) ok = ok & (m.c[i] != '0'); else if (m.n > 1) ok = ok & (m.c[0] != '0'); return ok;
}
template<typename T> static int64_t valueOf(const Seq<T>& m) { int i = m.c[0] == '-' ? 1 : 0; int64_t v = 0; for (int k = i; k < m.n; k++) v = v * 10 + ((int64_t)m.c[k] - '0'); return i ? -v : v; }
template<typename T, typename R> static void shortText(R(*test)(const ObjectString<T>&, bool&), R(*plain)(const ObjectString<T>&), bool allowNeg) {
  int n = (int)vs_choice("n", BOUND(4, 5)), w = (int)vs_choice("way", 3); static const int ways[3] = { 0, 4, 3 }; Backing<T> k; Seq<T> m = anySeq<T>(n); ObjectString<T> s = build(ways[w], m, k);
  bool canon = canonicalForm(m, allowNeg); bool ok = false; R r = test(s, ok); if (canon) { A(ok, "canonical text must be accepted"); R v = (R)valueOf(m); A(r == v, "value"); A(plain(s) == v, "value of the plain parser"); vs_reach("accepted"); } else { A(!ok, "other text must be refused"); A(plain(s) == 0, "plain parser gives 0"); vs_reach("refused"); }
  same(s, m, "text unchanged");
}
// digit strings near the limits; lo/hi: range as magnitude strings
template<typename T, typename R> static void limits(R(*test)(const ObjectString<T>&, bool&), R(*plain)(const ObjectString<T>&), bool neg, const char* limit) {
  int L = 0; while (limit[L]) L++; int n = L - 1 + (int)vs_choice("length", 4); Seq<T> m; if (neg) m.push('-'); int lead = (int)vs_choice("fixed", L + 1); // first 'fixed' digits equal the limit's, the rest arbitrary
  if (n != L && lead) return; if (lead < L - 4 && lead > 1) return;
  int cmp = 0; for (int i = 0; i < n; i++) { T d; if (i < lead) d = limit[i]; else { d = (T)('0' + vs_range("digit", 0, 9)); } m.push(d); }
  bool leadzero = m.c[neg ? 1 : 0] == '0'; bool over; if (n < L) over = false; else if (n > L) over = true; else { int64_t o = 0; for (int i = n - 1; i >= 0; i--) { T d = m.c[(neg ? 1 : 0) + i]; o = vs_ite64(d > limit[i], 1, vs_ite64(d < limit[i], 0, o)); } over = o != 0; } (void)cmp;
  ObjectString<T> s = ObjectString<T>::CopyFrom(m.c, m.n); bool ok = false; R r = test(s, ok); bool want = !leadzero & !over; A(ok == want, "accepted exactly when canonical and in range"); if (want) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v * 10 + (uint64_t)(m.c[(neg ? 1 : 0) + i] - '0'); if (neg) v = 0 - v; A((uint64_t)r == v, "value"); A((uint64_t)plain(s) == v, "plain value"); vs_reach("in range"); } else { A(plain(s) == 0, "plain parser gives 0"); vs_reach("out of range"); }
}
VS_ENTRY(short_atoi) { shortText<char, vint>(atoi_test, atoi, true); } // weight=5
VS_ENTRY(short_wtoi) { shortText<wchar_t, vint>(wtoi_test, wtoi, true); } // weight=5
VS_ENTRY(short_atoi64) { shortText<char, vint64_t>(atoi64_test, atoi64, true); } // weight=5
VS_ENTRY(short_wtoi64) { shortText<wchar_t, vint64_t>(wtoi64_test, wtoi64, true); } // weight=5
VS_ENTRY(short_atou) { shortText<char, vuint>(atou_test, atou, false); } // weight=5
VS_ENTRY(short_wtou) { shortText<wchar_t, vuint>(wtou_test, wtou, false); } // weight=5
VS_ENTRY(short_atou64) { shortText<char, vuint64_t>(atou64_test, atou64, false); } // weight=5
VS_ENTRY(short_wtou64) { shortText<wchar_t, vuint64_t>(wtou64_test, wtou64, false); } // weight=5
VS_ENTRY(lim_atoi) { limits<char, vint>(atoi_test, atoi, false, "2147483647"); }
VS_ENTRY(lim_atoi_neg) { limits<char, vint>(atoi_test, atoi, true, "2147483648"); }
VS_ENTRY(lim_wtoi) { limits<wchar_t, vint>(wtoi_test, wtoi, false, "2147483647"); }
VS_ENTRY(lim_wtoi_neg) { limits<wchar_t, vint>(wtoi_test, wtoi, true, "2147483648"); }
VS_ENTRY(lim_atou) { limits<char, vuint>(atou_test, atou, false, "4294967295"); }
VS_ENTRY(lim_wtou) { limits<wchar_t, vuint>(wtou_test, wtou, false, "4294967295"); }
VS_ENTRY(lim_atoi64) { limits<char, vint64_t>(atoi64_test, atoi64, false, "9223372036854775807"); }
VS_ENTRY(lim_atoi64_neg) { limits<char, vint64_t>(atoi64_test, atoi64, true, "9223372036854775808"); }
VS_ENTRY(lim_wtoi64) { limits<wchar_t, vint64_t>(wtoi64_test, wtoi64, false, "9223372036854775807"); }
VS_ENTRY(lim_wtoi64_neg) { limits<wchar_t, vint64_t>(wtoi64_test, wtoi64, true, "9223372036854775808"); }
VS_ENTRY(lim_atou64) { limits<char, vuint64_t>(atou64_test, atou64, false, "18446744073709551615"); }
VS_ENTRY(lim_wtou64) { limits<wchar_t, vuint64_t>(wtou64_test, wtou64, false, "18446744073709551615"); }
