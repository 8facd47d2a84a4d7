// sources: Strings/Conversion.cpp Strings/Conversion.Linux.cpp Strings/String.cpp Basic.cpp Exception.cpp
// bounds: texts of 0..4 (thorough 0..5/6; whole strings 3/4, buffers 2/3) arbitrary non-zero code points encodable on both sides, plus texts of 7..9 one-unit code points with one arbitrary code point among them; texts of 17 to 257 (thorough 300) fixed code points with one arbitrary one; malformed input: all sequences of up to 6-7 (thorough 7-8) arbitrary bytes or 2-5 arbitrary wider units; destination sizes 0..needed+1
// outside: longer texts; texts containing the zero character (conversion works on zero-terminated buffers), including over-long UTF-8 spellings of it, which the decoder accepts as a zero character
#include "utf.h"
#include "tall.h"
template<typename T> struct Str { T* p; vint n; Str(const T* s, vint n_) : n(n_) { p = new T[n + 1]; for (vint i = 0; i < n; i++) p[i] = s[i]; p[n] = T(); } ~Str() { delete[] p; } };
struct Text { static const int MAX = 12; uint32_t c[MAX]; int k; };
template<typename F, typename T> struct Enc {
  F src[6 * Text::MAX]; T dst[6 * Text::MAX]; int sn = 0, dn = 0; int cpOf[6 * Text::MAX]; int sBeg[Text::MAX + 1], sLen[Text::MAX + 1];
  Enc(const Text& t) {
    for (int i = 0; i < t.k; i++) {
      int a = (int)vs_concretize(spec_len(F(), t.c[i])), b = (int)vs_concretize(spec_len(T(), t.c[i])); vs_assume(a > 0); vs_assume(b > 0);
      sBeg[i] = sn; sLen[i] = a; F ft[6]; T tt[6]; spec_enc(t.c[i], ft); spec_enc(t.c[i], tt);
      for (int j = 0; j < a; j++) src[sn++] = ft[j]; for (int j = 0; j < b; j++) { cpOf[dn] = i; dst[dn++] = tt[j]; }
    }
    sBeg[t.k] = sn; sLen[t.k] = 0;
  }
};
static Text anyText(int maxk) { Text t; t.k = (int)vs_choice("codepoints", maxk + 1); for (int i = 0; i < t.k; i++) { t.c[i] = vs_u32("codepoint"); vs_assume(t.c[i] != 0); } return t; }
static Text longText() { Text t; t.k = 7 + (int)vs_choice("extra", 3); int at = (int)vs_choice("at", t.k); for (int i = 0; i < t.k; i++) { t.c[i] = i == at ? vs_u32("codepoint") : 1u + (vs_u8("ascii") & 63u); vs_assume(t.c[i] != 0); } return t; }
template<typename R, typename E> static void readAll(R& r, const Text& t, const E& e) {
  typedef std::remove_cvref_t<decltype(e.dst[0])> T;
  A(r.ReadingIndex() == -1, "nothing read yet");
  for (int i = 0; i < e.dn; i++) {
    T u = r.Read(); A(unit(u) == unit(e.dst[i]), "reader delivers the encoding"); A(r.ReadingIndex() == i, "index of the unit read");
    UtfCharCluster s = r.SourceCluster(); A(s.index == e.sBeg[e.cpOf[i]], "source position of the code point"); A(s.size == e.sLen[e.cpOf[i]], "source size of the code point");
  }
  for (int i = 0; i < 3; i++) { T u = r.Read(); A(unit(u) == 0, "endless zeros at the end"); A(r.ReadingIndex() == e.dn, "index stays at the end"); UtfCharCluster s = r.SourceCluster(); A(s.index == e.sn, "source position at the end"); A(s.size == 0, "empty cluster at the end"); }
}
template<typename F, typename T> static void readers(const Text& t) {
  Enc<F, T> e(t); Str<F> s(e.src, e.sn);
  { UtfStringToStringReader<F, T> r(s.p); readAll(r, t, e); }
  F* exact = new F[e.sn ? e.sn : 1]; for (int i = 0; i < e.sn; i++) exact[i] = e.src[i]; // not zero-terminated
  { UtfStringRangeToStringRangeReader<F, T> r(exact, (vint)e.sn); readAll(r, t, e); }
  { UtfStringRangeToStringRangeReader<F, T> r(exact, exact + e.sn); readAll(r, t, e); }
  delete[] exact; vs_reach("read");
}
template<typename F, typename T> static void buffers(const Text& t) {
  Enc<F, T> e(t); Str<F> s(e.src, e.sn);
  A((_utftoutf<F, T>(s.p, nullptr, 0)) == e.dn + 1, "required size includes the terminator");
  vint room = vs_choice("room", e.dn + 3); T* d = new T[room ? room : 1]; vint w = _utftoutf<F, T>(s.p, d, room); vint want = room < e.dn + 1 ? room : e.dn + 1;
  A(w == want, "units written"); for (vint i = 0; i < want; i++) A(unit(d[i]) == (i < e.dn ? unit(e.dst[i]) : 0u), "unit written"); delete[] d; vs_reach("buffer");
}
template<typename F, typename T, ObjectString<T>(*conv)(const ObjectString<F>&)> static void whole(const Text& t) {
  Enc<F, T> e(t); vint base = vs_live();
  {
    vint pre = vs_choice("prefix", 2), post = vs_choice("suffix", 2); // also convert a part of a larger string
    F big[6 * Text::MAX + 3]; vint n = 0; if (pre) big[n++] = (F)'x'; for (int i = 0; i < e.sn; i++) big[n++] = e.src[i]; if (post) big[n++] = (F)'y';
    ObjectString<F> all = ObjectString<F>::CopyFrom(big, n); ObjectString<F> s = all.Sub(pre, e.sn);
    ObjectString<T> r = conv(s);
    A(r.Length() == e.dn, "length of the converted string"); for (int i = 0; i < e.dn; i++) A(unit(r[i]) == unit(e.dst[i]), "converted unit");
    const T* b = r.Buffer(); for (int i = 0; i < e.dn; i++) A(unit(b[i]) == unit(e.dst[i]), "converted unit in the buffer"); A(unit(b[e.dn]) == 0, "terminator");
    A(s.Length() == e.sn, "source length unchanged"); for (int i = 0; i < e.sn; i++) A(unit(s[i]) == unit(e.src[i]), "source unchanged"); vs_reach("whole");
  }
  A(vs_live() == base, "nothing leaked");
}
VS_ENTRY(rd_8_w) { readers<char8_t, wchar_t>(anyText(BOUND(4, 5))); } // weight=5
VS_ENTRY(rd_8_16) { readers<char8_t, char16_t>(anyText(BOUND(4, 5))); } // weight=5
VS_ENTRY(rd_8_32) { readers<char8_t, char32_t>(anyText(BOUND(4, 5))); } // weight=5
VS_ENTRY(rd_8_be) { readers<char8_t, char16be_t>(anyText(BOUND(3, 4))); }
VS_ENTRY(rd_16_8) { readers<char16_t, char8_t>(anyText(BOUND(4, 5))); } // weight=5
VS_ENTRY(rd_16_w) { readers<char16_t, wchar_t>(anyText(BOUND(4, 6))); }
VS_ENTRY(rd_16_32) { readers<char16_t, char32_t>(anyText(BOUND(4, 6))); }
VS_ENTRY(rd_16_be) { readers<char16_t, char16be_t>(anyText(BOUND(4, 6))); }
VS_ENTRY(rd_be_8) { readers<char16be_t, char8_t>(anyText(BOUND(3, 4))); }
VS_ENTRY(rd_be_16) { readers<char16be_t, char16_t>(anyText(BOUND(4, 6))); }
VS_ENTRY(rd_be_32) { readers<char16be_t, char32_t>(anyText(BOUND(4, 6))); }
VS_ENTRY(rd_be_w) { readers<char16be_t, wchar_t>(anyText(BOUND(4, 6))); }
VS_ENTRY(rd_w_8) { readers<wchar_t, char8_t>(anyText(BOUND(4, 5))); } // weight=5
VS_ENTRY(rd_w_16) { readers<wchar_t, char16_t>(anyText(BOUND(4, 6))); }
VS_ENTRY(rd_w_be) { readers<wchar_t, char16be_t>(anyText(BOUND(2, 4))); }
VS_ENTRY(rd_w_32) { readers<wchar_t, char32_t>(anyText(4)); }
VS_ENTRY(rd_32_8) { readers<char32_t, char8_t>(anyText(BOUND(4, 5))); } // weight=5
VS_ENTRY(rd_32_16) { readers<char32_t, char16_t>(anyText(BOUND(4, 6))); }
VS_ENTRY(rd_32_w) { readers<char32_t, wchar_t>(anyText(4)); }
VS_ENTRY(rd_32_be) { readers<char32_t, char16be_t>(anyText(BOUND(2, 4))); }
VS_ENTRY(rd_32_32) { readers<char32_t, char32_t>(anyText(4)); }
VS_ENTRY(long_8_16) { readers<char8_t, char16_t>(longText()); }
VS_ENTRY(long_8_32) { readers<char8_t, char32_t>(longText()); }
VS_ENTRY(long_16_8) { readers<char16_t, char8_t>(longText()); }
VS_ENTRY(long_16_32) { readers<char16_t, char32_t>(longText()); }
VS_ENTRY(long_32_8) { readers<char32_t, char8_t>(longText()); }
VS_ENTRY(buf_8_16) { buffers<char8_t, char16_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_8_w) { buffers<char8_t, wchar_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_8_32) { buffers<char8_t, char32_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_16_8) { buffers<char16_t, char8_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_16_w) { buffers<char16_t, wchar_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_16_32) { buffers<char16_t, char32_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_w_8) { buffers<wchar_t, char8_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_w_16) { buffers<wchar_t, char16_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_w_32) { buffers<wchar_t, char32_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_32_8) { buffers<char32_t, char8_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_32_16) { buffers<char32_t, char16_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(buf_32_w) { buffers<char32_t, wchar_t>(anyText(BOUND(2, 3))); }
VS_ENTRY(wh_w_32) { whole<wchar_t, char32_t, wtou32>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_32_w) { whole<char32_t, wchar_t, u32tow>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_8_32) { whole<char8_t, char32_t, u8tou32>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_32_8) { whole<char32_t, char8_t, u32tou8>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_16_32) { whole<char16_t, char32_t, u16tou32>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_32_16) { whole<char32_t, char16_t, u32tou16>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_w_8) { whole<wchar_t, char8_t, wtou8>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_8_w) { whole<char8_t, wchar_t, u8tow>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_w_16) { whole<wchar_t, char16_t, wtou16>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_16_w) { whole<char16_t, wchar_t, u16tow>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_8_16) { whole<char8_t, char16_t, u8tou16>(anyText(BOUND(3, 4))); }
VS_ENTRY(wh_16_8) { whole<char16_t, char8_t, u16tou8>(anyText(BOUND(3, 4))); }
// narrow text: the C locale converts 7-bit characters one to one
static WString a2w(const AString& s) { return atow(s); } static AString w2a(const WString& s) { return wtoa(s); }
template<typename F, typename T> static void ansi(ObjectString<T>(*conv)(const ObjectString<F>&)) {
  vint n = vs_choice("n", 4); F b[4]; for (vint i = 0; i < n; i++) { uint8_t c = vs_u8("char"); vs_assume((c != 0) & (c < 128)); b[i] = (F)c; }
  ObjectString<F> s = ObjectString<F>::CopyFrom(b, n); ObjectString<T> r = conv(s); A(r.Length() == n, "length"); for (vint i = 0; i < n; i++) A(unit(r[i]) == unit(b[i]), "character"); if (n == 3) vs_reach("ansi");
}
VS_ENTRY(ansi_aw) { ansi<char, wchar_t>(a2w); }
VS_ENTRY(ansi_wa) { ansi<wchar_t, char>(w2a); }
VS_ENTRY(ansi_a8) { ansi<char, char8_t>(atou8); }
VS_ENTRY(ansi_a16) { ansi<char, char16_t>(atou16); }
VS_ENTRY(ansi_a32) { ansi<char, char32_t>(atou32); }
VS_ENTRY(ansi_8a) { ansi<char8_t, char>(u8toa); }
VS_ENTRY(ansi_16a) { ansi<char16_t, char>(u16toa); }
VS_ENTRY(ansi_32a) { ansi<char32_t, char>(u32toa); }
// malformed input: the output is the encoding of the code points before the first malformed one
template<typename F> static int spec_dec(const F* s, int n, uint32_t& c) { // UTF-16 and UTF-32 only
  if (sizeof(F) == 4) { c = unit(s[0]); return 1; }
  uint32_t a = unit(s[0]); if ((a >= 0xDC00) & (a <= 0xDFFF)) return 0; if (!((a >= 0xD800) & (a <= 0xDBFF))) { c = a; return 1; } if (n < 2) return 0; uint32_t b = unit(s[1]); if (!((b >= 0xDC00) & (b <= 0xDFFF))) return 0; c = 0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00); return 2;
}
template<typename F, typename T> static void malformed(int maxn) {
  int n = (int)vs_choice("units", maxn + 1); F s[10]; for (int i = 0; i < n; i++) { s[i] = (F)vs_u32("unit"); vs_assume(unit(s[i]) != 0); }
  T want[64]; int wn = 0; for (int i = 0; i < n;) { uint32_t c = 0; int k = spec_dec(s + i, n - i, c); if (!k) break; T u[6]; int m = (int)vs_concretize(spec_len(T(), c)); if (!m) break; spec_enc(c, u); for (int j = 0; j < m; j++) want[wn++] = u[j]; i += k; }
  Str<F> z(s, n);
  { UtfStringToStringReader<F, T> r(z.p); for (int i = 0; i < wn; i++) A(unit(r.Read()) == unit(want[i]), "well-formed prefix is delivered"); for (int i = 0; i < 3; i++) A(unit(r.Read()) == 0, "malformed input ends the output"); }
  F* exact = new F[n ? n : 1]; for (int i = 0; i < n; i++) exact[i] = s[i];
  { UtfStringRangeToStringRangeReader<F, T> r(exact, (vint)n); for (int i = 0; i < wn; i++) A(unit(r.Read()) == unit(want[i]), "well-formed prefix is delivered from a range"); for (int i = 0; i < 3; i++) A(unit(r.Read()) == 0, "malformed input ends the output of a range"); }
  delete[] exact;
  A((_utftoutf<F, T>(z.p, nullptr, 0)) == wn + 1, "required size"); T* d = new T[wn + 1]; A((_utftoutf<F, T>(z.p, d, wn + 1)) == wn + 1, "written"); for (int i = 0; i <= wn; i++) A(unit(d[i]) == (i < wn ? unit(want[i]) : 0), "prefix written"); delete[] d; vs_reach("malformed");
}
VS_ENTRY(mal_16_8) { malformed<char16_t, char8_t>(BOUND(3, 4)); }
VS_ENTRY(mal_16_32) { malformed<char16_t, char32_t>(BOUND(4, 5)); }
VS_ENTRY(mal_16_w) { malformed<char16_t, wchar_t>(BOUND(3, 4)); }
VS_ENTRY(mal_32_8) { malformed<char32_t, char8_t>(BOUND(2, 3)); }
VS_ENTRY(mal_32_16) { malformed<char32_t, char16_t>(BOUND(3, 4)); }
VS_ENTRY(mal_w_8) { malformed<wchar_t, char8_t>(BOUND(2, 3)); }
VS_ENTRY(mal_w_16) { malformed<wchar_t, char16_t>(BOUND(3, 4)); }
// arbitrary bytes as UTF-8: bounded output, then zeros, reader and buffer conversion agree, no access outside the text
template<typename T> static void bytes(int maxn) {
  int n = (int)vs_choice("units", maxn + 1); char8_t s[10]; for (int i = 0; i < n; i++) { s[i] = vs_u8("byte"); vs_assume(s[i] != 0); }
  for (int i = 0; i + 1 < n; i++) { // no over-long spelling of the zero character (2 to 6 bytes), see outside:
    bool tail = true; for (int k = 2; k <= 6 && i + k <= n; k++) { tail &= (s[i + k - 1] & 63) == 0; bool lead = k == 2 ? ((s[i] >= 0x80) & (s[i] < 0xE0) & ((s[i] & 31) == 0)) : k == 3 ? s[i] == 0xE0 : k == 4 ? s[i] == 0xF0 : k == 5 ? s[i] == 0xF8 : (s[i] == 0xFC) | (s[i] == 0xFE); vs_assume(!(lead & tail)); }
  }
  Str<char8_t> z(s, n); char8_t* exact = new char8_t[n ? n : 1]; for (int i = 0; i < n; i++) exact[i] = s[i];
  T out[32]; int m = 0; { UtfStringRangeToStringRangeReader<char8_t, T> r(exact, (vint)n); while (m < 20) { T u = r.Read(); if (!unit(u)) break; UtfCharCluster c = r.SourceCluster(); A((c.index >= 0) & (c.size >= 1) & (c.index + c.size <= n), "cluster lies in the source"); out[m++] = u; } A(m <= n, "no more units than bytes"); for (int i = 0; i < 3; i++) A(unit(r.Read()) == 0, "zeros after the end"); }
  delete[] exact;
  { UtfStringToStringReader<char8_t, T> r(z.p); for (int i = 0; i < m; i++) A(unit(r.Read()) == unit(out[i]), "both readers agree"); for (int i = 0; i < 2; i++) A(unit(r.Read()) == 0, "both readers end"); }
  T* d = new T[m + 1]; A((_utftoutf<char8_t, T>(z.p, nullptr, 0)) == m + 1, "required size"); A((_utftoutf<char8_t, T>(z.p, d, m + 1)) == m + 1, "written"); for (int i = 0; i < m; i++) A(unit(d[i]) == unit(out[i]), "unit"); delete[] d; vs_reach("bytes");
}
VS_ENTRY(mal_8_16) { bytes<char16_t>(BOUND(6, 7)); } // weight=5
VS_ENTRY(mal_8_32) { bytes<char32_t>(BOUND(7, 8)); } // weight=5
VS_ENTRY(mal_8_w) { bytes<wchar_t>(BOUND(6, 7)); }
// long texts: fixed one- to four-byte code points with one arbitrary code point at a chosen place
template<typename F, typename T> struct Long { F src[1300]; T dst[1300]; int sn = 0, dn = 0, k; int cpOf[1300], sBeg[301], sLen[301];
  Long() { k = tall(); int at = spotIn(k); static const uint32_t mix[] = {'a', 'b', 0xE9, 'c', 0x4E2D, 'd', 0x1F600, 'e'}; int kind = (int)vs_choice("mix", 2); for (int i = 0; i < k; i++) { uint32_t c = i == at ? vs_u32("codepoint") : kind ? mix[i % 8] : 'A' + i % 50; vs_assume(c != 0); int a = (int)vs_concretize(spec_len(F(), c)), b = (int)vs_concretize(spec_len(T(), c)); vs_assume(a > 0); vs_assume(b > 0); sBeg[i] = sn; sLen[i] = a; F ft[6]; T tt[6]; spec_enc(c, ft); spec_enc(c, tt); for (int j = 0; j < a; j++) src[sn++] = ft[j]; for (int j = 0; j < b; j++) { cpOf[dn] = i; dst[dn++] = tt[j]; } } sBeg[k] = sn; sLen[k] = 0; } };
template<typename F, typename T> static void tallRead() { Long<F, T> e; Str<F> s(e.src, e.sn); Text none; if (vs_choice("way", 2)) { UtfStringToStringReader<F, T> r(s.p); readAll(r, none, e); } else { F* exact = new F[e.sn]; for (int i = 0; i < e.sn; i++) exact[i] = e.src[i]; { UtfStringRangeToStringRangeReader<F, T> r(exact, (vint)e.sn); readAll(r, none, e); } delete[] exact; }
  if constexpr (!std::is_same_v<T, char16be_t>) { A((_utftoutf<F, T>(s.p, nullptr, 0)) == e.dn + 1, "required size includes the terminator"); T* d = new T[e.dn + 1]; vint room = e.dn + 1 - (vint)vs_choice("less", 2) * 3; A((_utftoutf<F, T>(s.p, d, room)) == room, "units written"); for (vint i = 0; i < room; i++) A(unit(d[i]) == (i < e.dn ? unit(e.dst[i]) : 0u), "unit written"); delete[] d; } vs_reach("tall read"); }
template<typename F, typename T, ObjectString<T>(*conv)(const ObjectString<F>&)> static void tallWhole() { vint base = vs_live(); { Long<F, T> e; ObjectString<F> s = ObjectString<F>::CopyFrom(e.src, e.sn); if (vs_choice("part", 2)) { F one[1] = {(F)'x'}; ObjectString<F> x = ObjectString<F>::CopyFrom(one, 1); s = (x + s + x).Sub(1, e.sn); } ObjectString<T> r = conv(s); A(r.Length() == e.dn, "length of the converted string"); const T* b = r.Buffer(); for (int i = 0; i < e.dn; i++) A(unit(b[i]) == unit(e.dst[i]), "converted unit"); A(unit(b[e.dn]) == 0, "terminator"); for (int i = 0; i < e.sn; i++) A(unit(s[i]) == unit(e.src[i]), "source unchanged"); vs_reach("tall whole"); } A(vs_live() == base, "nothing leaked"); }
VS_ENTRY(tall_8_16) { tallRead<char8_t, char16_t>(); } // shards=2 steps=20000000
VS_ENTRY(tall_8_32) { tallRead<char8_t, char32_t>(); } // shards=2 steps=20000000
VS_ENTRY(tall_16_8) { tallRead<char16_t, char8_t>(); } // shards=2 steps=20000000
VS_ENTRY(tall_16_32) { tallRead<char16_t, char32_t>(); } // shards=2 steps=20000000
VS_ENTRY(tall_32_8) { tallRead<char32_t, char8_t>(); } // shards=2 steps=20000000
VS_ENTRY(tall_32_16) { tallRead<char32_t, char16_t>(); } // shards=2 steps=20000000
VS_ENTRY(tall_w_be) { tallRead<wchar_t, char16be_t>(); } // shards=2 steps=20000000
VS_ENTRY(tallw_8_16) { tallWhole<char8_t, char16_t, u8tou16>(); } // steps=20000000
VS_ENTRY(tallw_16_8) { tallWhole<char16_t, char8_t, u16tou8>(); } // steps=20000000
VS_ENTRY(tallw_w_8) { tallWhole<wchar_t, char8_t, wtou8>(); } // steps=20000000
VS_ENTRY(tallw_8_w) { tallWhole<char8_t, wchar_t, u8tow>(); } // steps=20000000
VS_ENTRY(tallw_w_16) { tallWhole<wchar_t, char16_t, wtou16>(); } // steps=20000000
VS_ENTRY(tallw_16_w) { tallWhole<char16_t, wchar_t, u16tow>(); } // steps=20000000
VS_ENTRY(tallw_32_8) { tallWhole<char32_t, char8_t, u32tou8>(); } // steps=20000000
VS_ENTRY(tallw_16_32) { tallWhole<char16_t, char32_t, u16tou32>(); } // steps=20000000
VS_ENTRY(tallw_8_32) { tallWhole<char8_t, char32_t, u8tou32>(); } // steps=20000000
VS_ENTRY(tallw_32_16) { tallWhole<char32_t, char16_t, u32tou16>(); } // steps=20000000
template<typename F, typename T> static void tallAnsi(ObjectString<T>(*conv)(const ObjectString<F>&)) { int n = tall(); F b[300]; for (int i = 0; i < n; i++) b[i] = (F)('A' + i % 50); uint8_t c = vs_u8("char"); vs_assume((c != 0) & (c < 128)); b[spotIn(n)] = (F)c; ObjectString<F> s = ObjectString<F>::CopyFrom(b, n); ObjectString<T> r = conv(s); A(r.Length() == n, "length"); for (int i = 0; i < n; i++) A(unit(r[i]) == unit(b[i]), "character"); vs_reach("tall ansi"); }
VS_ENTRY(talla_aw) { tallAnsi<char, wchar_t>(a2w); }
VS_ENTRY(talla_wa) { tallAnsi<wchar_t, char>(w2a); }
VS_ENTRY(talla_a8) { tallAnsi<char, char8_t>(atou8); }
VS_ENTRY(talla_8a) { tallAnsi<char8_t, char>(u8toa); }
VS_ENTRY(talla_a16) { tallAnsi<char, char16_t>(atou16); }
VS_ENTRY(talla_16a) { tallAnsi<char16_t, char>(u16toa); }
