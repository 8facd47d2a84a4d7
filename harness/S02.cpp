// sources: Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Basic.cpp Exception.cpp
// bounds: all pairs of strings of 0..3 (thorough 0..4) characters, all character values (zero included where lengths are explicit), each made in 4-10 ways; all pairs of parts of one shared string of 5 characters; pairs of length 17..20 with arbitrary contents; pairs of 17 to 257 (thorough 300) characters equal but for one place or the end; five character types
// outside: longer strings
#define STR_CAP 640
#include "str.h"
#include "tall.h"
// -1, 0, 1: lexicographic order of the sequences
template<typename T> static int spec(const Seq<T>& a, const Seq<T>& b) {
  int64_t r = a.n < b.n ? -1 : a.n > b.n ? 1 : 0; int k = a.n < b.n ? a.n : b.n;
  for (int i = k - 1; i >= 0; i--) r = vs_ite64(a.c[i] < b.c[i], -1, vs_ite64(b.c[i] < a.c[i], 1, r));
  return (int)r;
}
template<typename X, typename Y> static void check(const X& x, const Y& y, int want) {
  auto o = x <=> y; int got = o < 0 ? -1 : o > 0 ? 1 : 0; A(got == want, "three-way comparison");
}
template<typename X, typename Y> static void rel(const X& x, const Y& y, int want) {
  A((x == y) == (want == 0), "=="); A((x != y) == (want != 0), "!="); A((x < y) == (want < 0), "<"); A((x <= y) == (want <= 0), "<="); A((x > y) == (want > 0), ">"); A((x >= y) == (want >= 0), ">=");
}
template<typename T> static void pairs(int maxn) {
  int w1 = (int)vs_choice("way", WAYS), n1 = (int)vs_choice("n", maxn + 1), w2 = (int)vs_choice("way2", 3), n2 = (int)vs_choice("n2", maxn + 1); static const int ways2[3] = { 0, 3, 4 }; w2 = ways2[w2];
  bool z1 = !(w1 == 1 || w1 == 3 || w1 == 8), z2 = w2 != 3; Backing<T> k1, k2; Seq<T> m1 = anySeq<T>(n1, z1), m2 = anySeq<T>(n2, z2); ObjectString<T> s = build(w1, m1, k1), t = build(w2, m2, k2); int want = spec(m1, m2);
  if (vs_choice("kind", 2)) check(s, t, want); else rel(s, t, want); same(s, m1, "unchanged"); same(t, m2, "unchanged"); vs_reach("pairs");
}
template<typename T> static void texts(int maxn) { // string against zero-terminated text
  int w1 = (int)vs_choice("way", 4), n1 = (int)vs_choice("n", maxn + 1), n2 = (int)vs_choice("n2", maxn + 1); static const int ways[4] = { 0, 3, 4, 5 };
  Backing<T> k1; Seq<T> m1 = anySeq<T>(n1), m2 = anySeq<T>(n2); ObjectString<T> s = build(ways[w1], m1, k1); T* z = new T[n2 + 1]; for (int i = 0; i < n2; i++) z[i] = m2.c[i]; z[n2] = 0; const T* cz = z; int want = spec(m1, m2);
  switch (vs_choice("kind", 4)) { case 0: check(s, cz, want); break; case 1: check(cz, s, -want); break; case 2: rel(s, cz, want); break; default: rel(cz, s, -want); } delete[] z; vs_reach("texts");
}
template<typename T> static void shared() {
  int n = 5; Seq<T> m = anySeq<T>(n); Backing<T> k; int w = (int)vs_choice("way", 3); static const int ways[3] = { 0, 3, 7 }; ObjectString<T> s = build(ways[w], m, k);
  int a = (int)vs_choice("a", n + 1), al = (int)vs_choice("al", n - a + 1), b = (int)vs_choice("b", n + 1), bl = (int)vs_choice("bl", n - b + 1); if (al > 3 || bl > 3) { if (a != b) return; }
  ObjectString<T> p = s.Sub(a, al), q = s.Sub(b, bl); int want = spec(sub(m, a, al), sub(m, b, bl)); check(p, q, want); vs_reach("shared");
}
template<typename T> static void longer() {
  int n1 = 17 + (int)vs_choice("n", 3), n2 = 17 + (int)vs_choice("n2", 4); Seq<T> m1, m2; int d = (int)vs_choice("differ", 17);
  for (int i = 0; i < n1; i++) m1.push(anyChar<T>()); for (int i = 0; i < n2; i++) m2.push(i < n1 && i != d ? m1.c[i] : anyChar<T>());
  ObjectString<T> s = ObjectString<T>::CopyFrom(m1.c, n1), t = ObjectString<T>::CopyFrom(m2.c, n2); int want = spec(m1, m2); check(s, t, want); A((s == t) == (want == 0), "equality of long strings"); vs_reach("longer");
}
VS_ENTRY(pairs_a) { pairs<char>(BOUND(3, 4)); } // weight=9
VS_ENTRY(pairs_w) { pairs<wchar_t>(BOUND(3, 4)); } // weight=9
VS_ENTRY(pairs_8) { pairs<char8_t>(BOUND(2, 3)); }
VS_ENTRY(pairs_16) { pairs<char16_t>(BOUND(2, 3)); }
VS_ENTRY(pairs_32) { pairs<char32_t>(BOUND(2, 3)); }
VS_ENTRY(texts_a) { texts<char>(BOUND(3, 4)); }
VS_ENTRY(texts_w) { texts<wchar_t>(BOUND(3, 4)); }
VS_ENTRY(texts_8) { texts<char8_t>(BOUND(2, 3)); }
VS_ENTRY(texts_16) { texts<char16_t>(BOUND(2, 3)); }
VS_ENTRY(texts_32) { texts<char32_t>(BOUND(2, 3)); }
VS_ENTRY(shared_a) { shared<char>(); }
VS_ENTRY(shared_w) { shared<wchar_t>(); }
VS_ENTRY(longer_a) { longer<char>(); }
VS_ENTRY(longer_w) { longer<wchar_t>(); }
template<typename T> static Seq<T> tallSeq(int n) { Seq<T> m; for (int i = 0; i < n; i++) m.push((T)('A' + i % 50)); return m; }
static const int TW[] = {0, 4, 1, 3, 9, 2, 5, 6, 7, 8};
template<typename T> static void tallPair() { int n = tall(), p = spotIn(n), cut = (int)vs_choice("cut", 3), w = TW[vs_choice("way", 4)], u = TW[vs_choice("way2", 4)]; Seq<T> a = tallSeq<T>(n - (cut == 1)), b = tallSeq<T>(n - (cut == 2)); if (p < a.n) a.c[p] = nonZero<T>(); if (p < b.n) b.c[p] = nonZero<T>(); Backing<T> k, l; ObjectString<T> s = build(w, a, k), t = build(u, b, l); int want = spec(a, b); check(s, t, want); A((s == t) == (want == 0), "=="); A((s < t) == (want < 0), "<"); const T* z = t.Buffer(); check(s, z, want); check(z, s, -want); vs_reach("tall"); }
VS_ENTRY(tallWide) { tallPair<wchar_t>(); } // shards=4
VS_ENTRY(tallNarrow) { tallPair<char>(); } // shards=4
VS_ENTRY(tall8) { tallPair<char8_t>(); } // shards=4
VS_ENTRY(tall16) { tallPair<char16_t>(); } // shards=4
