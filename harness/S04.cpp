// sources: Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Basic.cpp Exception.cpp
// bounds: all non-zero characters, texts of 0..4 (thorough 0..5) characters made in 10 ways, narrow and wide; texts of 17 to 257 (thorough 300) mostly fixed characters
// assume: the C locale (the library never calls setlocale): only A-Z and a-z have case forms
// outside: other locales; texts containing the zero character
#define STR_CAP 320
#include "str.h"
#include "tall.h"
template<typename T> static T lowerOf(T c) { return (T)vs_ite64((c >= 'A') & (c <= 'Z'), (int64_t)(T)(c + 32), (int64_t)c); }
template<typename T> static T upperOf(T c) { return (T)vs_ite64((c >= 'a') & (c <= 'z'), (int64_t)(T)(c - 32), (int64_t)c); }
template<typename T> static void run(ObjectString<T>(*lower)(const ObjectString<T>&), ObjectString<T>(*upper)(const ObjectString<T>&)) {
  vint base = vs_live();
  { int n = (int)vs_choice("n", BOUND(5, 6)), w = (int)vs_choice("way", WAYS); Backing<T> k; Seq<T> m = anySeq<T>(n), ml = m, mu = m; for (int i = 0; i < n; i++) { ml.c[i] = lowerOf(m.c[i]); mu.c[i] = upperOf(m.c[i]); }
    ObjectString<T> s = build(w, m, k), c = s; ObjectString<T> l = lower(s), u = upper(s); same(l, ml, "lower case"); same(u, mu, "upper case"); same(s, m, "source unchanged"); same(c, m, "copies of the source unchanged"); sameBuffer(l, ml, "lower case buffer"); sameBuffer(u, mu, "upper case buffer"); vs_reach("case"); }
  A(vs_live() == base, "nothing leaked");
}
VS_ENTRY(narrow) { run<char>(alower, aupper); } // weight=3
VS_ENTRY(wide) { run<wchar_t>(wlower, wupper); } // weight=3
VS_ENTRY(longer) { int n = 20; Seq<wchar_t> m = anySeq<wchar_t>(n), ml = m; int at = (int)vs_choice("at", n); for (int i = 0; i < n; i++) { if (i != at) m.c[i] = L'Q'; ml.c[i] = lowerOf(m.c[i]); } WString s = WString::CopyFrom(m.c, n); same(wlower(s), ml, "lower case of a longer text"); }
template<typename T> static void tallCase(ObjectString<T>(*lower)(const ObjectString<T>&), ObjectString<T>(*upper)(const ObjectString<T>&)) { vint base = vs_live(); { int n = tall(), w = (int)vs_choice("way", 5) * 2; Seq<T> m, ml, mu; int at = spotIn(n); for (int i = 0; i < n; i++) { m.push(i == at ? nonZero<T>() : (T)('@' + i % 62)); ml.push(lowerOf(m.c[i])); mu.push(upperOf(m.c[i])); } Backing<T> k; ObjectString<T> s = build(w, m, k), l = lower(s), u = upper(s); same(l, ml, "lower case"); same(u, mu, "upper case"); same(s, m, "source unchanged"); sameBuffer(l, ml, "lower case buffer"); sameBuffer(u, mu, "upper case buffer"); } A(vs_live() == base, "nothing leaked"); vs_reach("tall"); }
VS_ENTRY(tallNarrow) { tallCase<char>(alower, aupper); } // shards=2
VS_ENTRY(tallWide) { tallCase<wchar_t>(wlower, wupper); } // shards=2
