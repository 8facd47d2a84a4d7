// sources: Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Basic.cpp Exception.cpp
// bounds: strings of 17 to 257 (thorough 300) mostly fixed characters with one operation at the front, middle or end; strings of 0..4 characters (all values) made in 10 ways (copied, taken over, unmanaged, parts, parts of parts, joined), every operation with every 64-bit argument; sequences of 3 (thorough 4) operations over 3 string variables; plus strings of 24..40 characters with one arbitrary position
// outside: longer strings and histories; zero characters inside strings given to the zero-terminated constructors
#define STR_CAP 640
#include "str.h"
#include "tall.h"
template<typename T> static void make() {
  int way = (int)vs_choice("way", WAYS), n = (int)vs_choice("n", 6); Backing<T> k; bool zt = way == 1 || way == 3 || way == 8; Seq<T> m = anySeq<T>(n, !zt);
  ObjectString<T> s = build(way, m, k); same(s, m, "characters of a new string"); ObjectString<T> c = s; same(c, m, "copy"); sameBuffer(s, m, "zero-terminated buffer"); same(c, m, "copy after Buffer of the original"); sameBuffer(c, m, "buffer of the copy");
  ObjectString<T> d = std::move(c); same(d, m, "moved"); same(c, Seq<T>(), "moved-from string is empty"); c = d; same(c, m, "assigned"); d = std::move(c); same(d, m, "move-assigned"); same(c, Seq<T>(), "move-assigned-from string is empty"); sameBuffer(c, Seq<T>(), "empty buffer");
  A(d == s, "equal to the original"); vs_reach("made");
}
template<typename T> static void misc() {
  T c = anyChar<T>(); ObjectString<T> f = ObjectString<T>::FromChar(c); if (c != 0) { A(f.Length() == 1, "one character"); A(f[0] == c, "that character"); } else A(f.Length() == 0, "zero character terminates");
  MUST_THROW(ObjectString<T>((const T*)nullptr), "construction from null must raise"); MUST_THROW(ObjectString<T>::Unmanaged(nullptr), "unmanaged null must raise");
  vint neg = vs_range("neg", INT64_MIN, -1); T b[3] = { 1, 2, 0 }; MUST_THROW(ObjectString<T>::CopyFrom(b, neg), "negative length must raise"); MUST_THROW(ObjectString<T>::TakeOver(b, neg), "negative length must raise");
  T* nt = new T[2]; nt[0] = 1; nt[1] = nonZero<T>(); MUST_THROW(ObjectString<T>::TakeOver(nt, 1), "unterminated buffer must raise"); delete[] nt;
  A(ObjectString<T>::Empty.Length() == 0, "Empty"); ObjectString<T> e; A(e.Length() == 0, "default"); A(e.Buffer()[0] == 0, "default is terminated"); A(e == ObjectString<T>::Empty, "default equals Empty"); vs_reach("misc");
}
// a zero-terminated text that is overwritten and released right after its use
template<typename T> struct Passing { T* p; int n; Passing(const Seq<T>& m) : p(new T[m.n + 1]), n(m.n) { for (int i = 0; i < n; i++) p[i] = m.c[i]; p[n] = 0; } ~Passing() { for (int i = 0; i < n; i++) p[i] = '!'; delete[] p; } };
// one operation, arbitrary arguments; returns the result and its specification
template<typename T> static bool apply(int op, const ObjectString<T>& s, const Seq<T>& ms, const ObjectString<T>& t, const Seq<T>& mt, ObjectString<T>& r, Seq<T>& mr) {
  switch (op) {
  case 0: r = s + t; mr = cat(ms, mt); return true;
  case 1: r = s + t.Buffer(); mr = cat(ms, mt); return true;
  case 2: r = s.Buffer() + t; mr = cat(ms, mt); return true;
  case 3: { ObjectString<T> x = s; x += t; r = x; mr = cat(ms, mt); return true; }
  case 4: { ObjectString<T> x = s; x += t.Buffer(); r = x; mr = cat(ms, mt); return true; }
  case 5: { vint n = vs_u64("count"); if ((n >= 0) & (n <= ms.n)) { n = vs_concretize(n); r = s.Left(n); mr = sub(ms, 0, (int)n); return true; } MUST_THROW(s.Left(n), "Left out of range must raise"); return false; }
  case 6: { vint n = vs_u64("count"); if ((n >= 0) & (n <= ms.n)) { n = vs_concretize(n); r = s.Right(n); mr = sub(ms, ms.n - (int)n, (int)n); return true; } MUST_THROW(s.Right(n), "Right out of range must raise"); return false; }
  case 7: { vint i = vs_u64("index"), n = vs_u64("count"); if ((i >= 0) & (i <= ms.n)) { i = vs_concretize(i); if ((n >= 0) & (n <= ms.n - i)) { n = vs_concretize(n); r = s.Sub(i, n); mr = sub(ms, (int)i, (int)n); return true; } } MUST_THROW(s.Sub(i, n), "Sub out of range must raise"); return false; }
  case 8: { vint i = vs_u64("index"), n = vs_u64("count"); if ((i >= 0) & (i < ms.n)) { i = vs_concretize(i); if ((n >= 0) & (n <= ms.n - i)) { n = vs_concretize(n); r = s.Remove(i, n); mr = cat(sub(ms, 0, (int)i), sub(ms, (int)(i + n), ms.n - (int)(i + n))); return true; } } MUST_THROW(s.Remove(i, n), "Remove out of range must raise"); return false; }
  case 9: { vint i = vs_u64("index"); if ((i >= 0) & (i <= ms.n)) { i = vs_concretize(i); r = s.Insert(i, t); mr = cat(cat(sub(ms, 0, (int)i), mt), sub(ms, (int)i, ms.n - (int)i)); return true; } MUST_THROW(s.Insert(i, t), "Insert out of range must raise"); return false; }
  case 10: { Passing<T> x(mt); r = s + x.p; mr = cat(ms, mt); return true; }
  case 11: { Passing<T> x(ms); r = x.p + t; mr = cat(ms, mt); return true; }
  case 12: { Passing<T> x(mt); r = s; r += x.p; mr = cat(ms, mt); return true; }
  }
  return false;
}
template<typename T> static void one() {
  int op = (int)vs_choice("op", 13), w1 = (int)vs_choice("way", WAYS), n1 = (int)vs_choice("n", BOUND(4, 5)), w2 = (int)vs_choice("way2", 4), n2 = (int)vs_choice("n2", 3); static const int ways2[4] = { 0, 3, 4, 5 };
  if (op >= 5 && op <= 8 && (w2 || n2)) return; // unary operations
  Backing<T> k1, k2; Seq<T> m1 = anySeq<T>(n1), m2 = anySeq<T>(n2); ObjectString<T> s = build(w1, m1, k1), t = build(ways2[w2], m2, k2), s2 = s, r; Seq<T> mr;
  bool ok = apply(op, s, m1, t, m2, r, mr); same(s, m1, "left operand unchanged"); same(t, m2, "right operand unchanged"); same(s2, m1, "sharing string unchanged");
  if (ok) { same(r, mr, "result"); sameBuffer(r, mr, "buffer of the result"); sameBuffer(s, m1, "buffer of the left operand"); sameBuffer(t, m2, "buffer of the right operand"); same(r, mr, "result after taking buffers"); vs_reach("one"); } else vs_reach("raised");
}
template<typename T> static void probe() {
  int w = (int)vs_choice("way", WAYS), n = (int)vs_choice("n", 6); Backing<T> k; Seq<T> m = anySeq<T>(n); ObjectString<T> s = build(w, m, k);
  vint i = vs_u64("index"); if ((i >= 0) & (i < n)) { i = vs_concretize(i); A(s[i] == m.c[i], "character at the index"); } else MUST_THROW(s[i], "index out of range must raise");
  T c = anyChar<T>(); vint at = s.IndexOf(c); vint want = -1; for (int j = n - 1; j >= 0; j--) want = vs_ite64(m.c[j] == c, j, want); A(at == want, "first position of a character"); same(s, m, "unchanged"); vs_reach("probe");
}
// operand aliasing: a string combined with itself or with its own parts
template<typename T> static void alias() {
  int n = (int)vs_choice("n", 5), w = (int)vs_choice("way", WAYS); Backing<T> k; Seq<T> m = anySeq<T>(n); ObjectString<T> s = build(w, m, k); int op = (int)vs_choice("op", 10); ObjectString<T> r; Seq<T> mr; int a = (int)vs_choice("from", n + 1), b = (int)vs_choice("len", n - a + 1);
  int what = (int)vs_choice("what", 3);
  if (what == 0) { if (apply(op, s, m, s, m, r, mr)) { same(r, mr, "string with itself"); same(s, m, "unchanged"); vs_reach("self"); } }
  else if (what == 1) { ObjectString<T> p = s.Sub(a, b); Seq<T> mp = sub(m, a, b); if (apply(op, s, m, p, mp, r, mr)) { same(r, mr, "string with its part"); same(s, m, "unchanged"); same(p, mp, "part unchanged"); } }
  else { if (apply(op, s, m, s, m, s, mr)) { same(s, mr, "string replaced by a result computed from itself"); sameBuffer(s, mr, "its buffer"); vs_reach("replaced"); } }
}
template<typename T> static void hist() {
  ObjectString<T> v[3]; Seq<T> m[3]; Backing<T> k[3]; static const int w0[3] = { 0, 7, 3 };
  for (int i = 0; i < 3; i++) { m[i] = anySeq<T>(i == 0 ? 2 : i == 1 ? 3 : 1); v[i] = build(w0[i], m[i], k[i]); }
  int steps = BOUND(3, 3);
  for (int q = 0; q < steps; q++) {
    int op = (int)vs_choice("op", 9); int a = (int)vs_choice("a", 3), d = q == 0 ? (int)vs_choice("d", 2) : 0; int b = op < 4 ? (int)vs_choice("b", 2) : 0; b = (a + b) % 3; d = (a + d) % 3; Seq<T> mr;
    if (op == 0) { v[a] += v[b]; m[a] = cat(m[a], m[b]); }
    else if (op == 1) { v[d] = v[a] + v[b]; m[d] = cat(m[a], m[b]); }
    else if (op == 2) { v[a] = v[b]; m[a] = m[b]; }
    else if (op == 3) { if (a == b) continue; v[a] = std::move(v[b]); m[a] = m[b]; m[b] = Seq<T>(); }
    else if (op == 4) { int n = m[a].n; if (n < 1) continue; v[d] = v[a].Sub(1, n - 1); m[d] = sub(m[a], 1, n - 1); }
    else if (op == 5) { int n = m[a].n; if (n < 1) continue; v[d] = v[a].Left(n - 1); m[d] = sub(m[a], 0, n - 1); }
    else if (op == 6) { int n = m[a].n; if (n < 2) continue; v[d] = v[a].Remove(1, 1); m[d] = cat(sub(m[a], 0, 1), sub(m[a], 2, n - 2)); }
    else if (op == 7) { sameBuffer(v[a], m[a], "buffer"); }
    else { int n = m[a].n; if (n < 1) continue; v[d] = v[a].Insert(1, v[(a + 1) % 3]); m[d] = cat(cat(sub(m[a], 0, 1), m[(a + 1) % 3]), sub(m[a], 1, n - 1)); }
    for (int i = 0; i < 3; i++) same(v[i], m[i], "all strings as specified after every step");
  }
  for (int i = 0; i < 3; i++) sameBuffer(v[i], m[i], "all buffers as specified at the end"); vs_reach("hist");
}
template<typename T> static void large() {
  int n = 24 + (int)vs_choice("n", 17), w = (int)vs_choice("way", 4); Backing<T> k; Seq<T> m = anySeq<T>(n); static const int ways[4] = { 0, 3, 4, 9 }; ObjectString<T> s = build(ways[w], m, k); vint i = vs_choice("i", n + 1);
  ObjectString<T> l = s.Left(i), r = s.Right(n - i); same(l, sub(m, 0, (int)i), "left part"); same(r, sub(m, (int)i, n - (int)i), "right part"); ObjectString<T> j = l + r; same(j, m, "parts joined"); A(j == s, "equal");
  sameBuffer(l, sub(m, 0, (int)i), "left buffer"); sameBuffer(r, sub(m, (int)i, n - (int)i), "right buffer"); same(s, m, "unchanged"); ObjectString<T> x = l.Insert(i, r); same(x, m, "inserted at the end"); T extra[3] = { (T)'p', (T)'q', 0 }; ObjectString<T> y = s.Insert(i, extra); A(y.Length() == n + 2, "longer"); same(y.Remove(i, 2), m, "insert then remove"); vs_reach("large");
}
VS_ENTRY(make_a) { make<char>(); }
VS_ENTRY(make_w) { make<wchar_t>(); }
VS_ENTRY(make_8) { make<char8_t>(); }
VS_ENTRY(make_16) { make<char16_t>(); }
VS_ENTRY(make_32) { make<char32_t>(); }
VS_ENTRY(misc_a) { misc<char>(); }
VS_ENTRY(misc_w) { misc<wchar_t>(); }
VS_ENTRY(misc_16) { misc<char16_t>(); }
VS_ENTRY(one_w) { one<wchar_t>(); } // weight=9
VS_ENTRY(one_a) { one<char>(); } // weight=9
VS_ENTRY(one_16) { one<char16_t>(); } // weight=9
VS_THOROUGH(one_8) { one<char8_t>(); } // weight=9
VS_THOROUGH(one_32) { one<char32_t>(); } // weight=9
VS_ENTRY(probe_w) { probe<wchar_t>(); }
VS_ENTRY(probe_a) { probe<char>(); }
VS_ENTRY(probe_8) { probe<char8_t>(); }
VS_ENTRY(alias_w) { alias<wchar_t>(); } // weight=8
VS_ENTRY(alias_a) { alias<char>(); } // weight=8
VS_ENTRY(hist_w) { hist<wchar_t>(); } // weight=8 shards=4
VS_THOROUGH(hist_a) { hist<char>(); } // weight=8
VS_ENTRY(large_w) { large<wchar_t>(); } // weight=8
VS_ENTRY(large_a) { large<char>(); } // weight=8
template<typename T> static Seq<T> tallSeq(int n) { Seq<T> m; for (int i = 0; i < n; i++) m.push((T)('A' + i % 50)); return m; }
static const int TW[] = {0, 4, 1, 3, 9, 2, 5, 6, 7, 8};
template<typename T> static void tallText() {
  int64_t live = vs_live(); { int n = tall(), w = TW[vs_choice("way", BOUND(4, 10))], p = spot(n), q = spotIn(n); T c = nonZero<T>(); Seq<T> m = tallSeq<T>(n); m.c[q] = c; Backing<T> k; ObjectString<T> s = build(w, m, k); same(s, m, "long text"); Seq<T> e = tallSeq<T>(5); ObjectString<T> x = ObjectString<T>::CopyFrom(e.c, 5); auto at = [&](int i, Seq<T> o) { return cat(cat(sub(m, 0, i), o), sub(m, i, n - i)); };
    switch ((int)vs_choice("op", 7)) {
    case 0: same(s.Left(p), sub(m, 0, p), "left part"); same(s.Right(p), sub(m, n - p, p), "right part"); sameBuffer(s.Left(p), sub(m, 0, p), "left buffer"); break;
    case 1: { int l = (n - p) / 2; ObjectString<T> t = s.Sub(p, l); same(t, sub(m, p, l), "part"); sameBuffer(t, sub(m, p, l), "part"); break; }
    case 2: if (p < n) { int l[3] = {1, n - p, (n - p) / 2}; int r = l[vs_choice("len", 3)]; same(s.Remove(p, r), cat(sub(m, 0, p), sub(m, p + r, n - p - r)), "removed"); } break;
    case 3: same(s.Insert(p, x), at(p, e), "inserted"); same(s.Insert(p, s), at(p, m), "itself inserted"); break;
    case 4: { ObjectString<T> t = s; t += x; same(t, cat(m, e), "appended"); same(x + s, cat(e, m), "appended"); same(s + s, cat(m, m), "appended to itself"); break; }
    case 5: { T y = nonZero<T>(); int64_t r = -1; for (int i = n - 1; i >= 0; i--) r = vs_ite64(m.c[i] == y, i, r); A(s.IndexOf(y) == r, "first position"); break; }
    case 6: { vint i = (vint)vs_u64("i"); vs_assume((i < 0) | (i > n)); MUST_THROW(s[i], "out of range must raise"); MUST_THROW(s.Left(i), "out of range must raise"); MUST_THROW(s.Right(i), "out of range must raise"); MUST_THROW(s.Sub(p, n - p + 1), "out of range must raise"); MUST_THROW(s.Insert(i, x), "out of range must raise"); if (p < n) MUST_THROW(s.Remove(p, n - p + 1), "out of range must raise"); break; }
    } same(s, m, "unchanged"); sameBuffer(s, m, "buffer"); } A(vs_live() == live, "all storage released"); vs_reach("tall");
}
VS_ENTRY(tallWide) { tallText<wchar_t>(); } // shards=4 tshards=8
VS_ENTRY(tallNarrow) { tallText<char>(); } // shards=4 tshards=8
VS_ENTRY(tall8) { tallText<char8_t>(); } // shards=2 tshards=8
VS_ENTRY(tall16) { tallText<char16_t>(); } // shards=2 tshards=8
