// sources: Strings/String.cpp Strings/Conversion.cpp Strings/Conversion.Linux.cpp Basic.cpp Exception.cpp
// bounds: all histories of 3 steps out of 14 kinds over 3 string variables (self-assignment, self-slicing, buffers, destruction, casts included), contents of all values; long strings of 17 to 257 (thorough 300) characters with parts that outlive them; heap compared with the start afterwards
// outside: longer histories (a step only depends on how its operands share storage: none, part, whole, unmanaged)
#define STR_CAP 640
#include "str.h"
#include "tall.h"
#include "Strings/Conversion.h"
template<typename T> static void steps(int H) {
  vint base = vs_live();
  {
    T* backing = new T[4]; Seq<T> mb = anySeq<T>(3); for (int i = 0; i < 3; i++) backing[i] = mb.c[i]; backing[3] = 0;
    {
      ObjectString<T>* v[3]; Seq<T> m[3]; const T* held[3] = { nullptr, nullptr, nullptr };
      m[0] = anySeq<T>(2); m[1] = mb; m[2] = anySeq<T>(3); v[0] = new ObjectString<T>(ObjectString<T>::CopyFrom(m[0].c, 2)); v[1] = new ObjectString<T>(ObjectString<T>::Unmanaged(backing)); { T* p = new T[4]; for (int i = 0; i < 3; i++) p[i] = m[2].c[i]; p[3] = 0; v[2] = new ObjectString<T>(ObjectString<T>::TakeOver(p, 3)); }
      for (int q = 0; q < H; q++) {
        int op = (int)vs_choice("op", 14), a = (int)vs_choice("a", 3), b = a; if (op < 6) b = (int)vs_choice("b", 3); int touched = a;
        switch (op) {
        case 0: *v[a] = *v[b]; m[a] = m[b]; break;
        case 1: if (a != b) { *v[a] = std::move(*v[b]); m[a] = m[b]; m[b] = Seq<T>(); held[b] = nullptr; } else { *v[a] = std::move(*v[a]); } break;
        case 2: *v[a] += *v[b]; m[a] = cat(m[a], m[b]); break;
        case 3: { ObjectString<T>* n = new ObjectString<T>(*v[b]); delete v[a]; v[a] = n; m[a] = m[b]; break; }
        case 4: { if (m[b].n < 1) break; *v[a] = v[b]->Sub(1, m[b].n - 1); m[a] = sub(m[b], 1, m[b].n - 1); break; }
        case 5: { if (m[b].n < 1) break; *v[a] = v[b]->Left(m[b].n - 1); m[a] = sub(m[b], 0, m[b].n - 1); break; }
        case 6: held[a] = v[a]->Buffer(); touched = -1; break;
        case 7: delete v[a]; v[a] = new ObjectString<T>(); m[a] = Seq<T>(); break;
        case 8: { T z[3] = { (T)'k', (T)'l', 0 }; *v[a] = z; m[a] = Seq<T>(); m[a].push('k'); m[a].push('l'); break; }
        case 9: { ObjectString<T> t = std::move(*v[a]); *v[a] = t + t; m[a] = cat(m[a], m[a]); break; }
        case 10: { if (m[a].n < 2) break; *v[a] = v[a]->Remove(0, 1); m[a] = sub(m[a], 1, m[a].n - 1); break; }
        case 11: { *v[a] = v[a]->Insert(0, *v[(a + 1) % 3]); m[a] = cat(m[(a + 1) % 3], m[a]); break; }
        case 12: { ObjectString<T> t[2] = { *v[a], *v[a] }; t[0] = t[1]; t[1] = ObjectString<T>(); touched = -1; break; }
        case 13: { vint i = vs_u64("index"); vs_assume((i < 0) | (i > m[a].n)); bool thrown = false; try { ObjectString<T> r = v[a]->Insert(i, *v[a]); } catch (const Error&) { thrown = true; } A(thrown, "out of range must raise"); touched = -1; break; }
        }
        if (touched >= 0) held[touched] = nullptr;
        for (int i = 0; i < 3; i++) if (held[i]) { for (int j = 0; j < m[i].n; j++) A(held[i][j] == m[i].c[j], "a buffer stays valid while its string does not change"); A(held[i][m[i].n] == 0, "and terminated"); }
      }
      for (int i = 0; i < 3; i++) same(*v[i], m[i], "characters"); for (int i = 0; i < 3; i++) sameBuffer(*v[i], m[i], "buffer"); int d = (int)vs_choice("destroy first", 3); for (int i = 0; i < 3; i++) { int k = (d + i) % 3; delete v[k]; for (int j = i + 1; j < 3; j++) same(*v[(d + j) % 3], m[(d + j) % 3], "remaining strings keep their characters"); }
    }
    for (int i = 0; i < 3; i++) A(backing[i] == mb.c[i], "unmanaged text is not written"); delete[] backing;
  }
  A(vs_live() == base, "every buffer is released exactly once"); vs_reach("steps");
}
VS_ENTRY(steps_w) { steps<wchar_t>(3); } // weight=9 shards=8
VS_ENTRY(steps_a) { steps<char>(BOUND(2, 3)); } // weight=9 tshards=8
VS_ENTRY(steps_16) { steps<char16_t>(2); }

// sharing through casts between wide and 32-bit strings
VS_ENTRY(casts) {
  vint base = vs_live();
  { int n = (int)vs_choice("n", 4), w = (int)vs_choice("way", WAYS); Backing<wchar_t> k; Seq<wchar_t> m = anySeq<wchar_t>(n); WString* s = new WString(build(w, m, k)); U32String* u = new U32String(wtou32(*s)); int first = (int)vs_choice("first", 2);
    const char32_t* b = u->Buffer(); for (int i = 0; i < n; i++) A(b[i] == (char32_t)m.c[i], "cast characters"); A(b[n] == 0, "terminated");
    if (first) { delete s; A(u->Length() == n, "length"); for (int i = 0; i < n; i++) A((*u)[i] == (char32_t)m.c[i], "cast outlives the source"); delete u; } else { delete u; same(*s, m, "source outlives the cast"); delete s; } vs_reach("casts"); }
  A(vs_live() == base, "every buffer is released exactly once");
}
// arrays of strings built from overlapping parts
VS_ENTRY(parts) {
  vint base = vs_live();
  { int n = 4 + (int)vs_choice("n", 3); Seq<char> m = anySeq<char>(n); AString* s = new AString(AString::CopyFrom(m.c, n)); AString p[4]; Seq<char> mp[4]; for (int i = 0; i < 4; i++) { int a = (int)vs_choice("a", 3), l = (int)vs_choice("l", 3); p[i] = s->Sub(a, l); mp[i] = sub(m, a, l); } delete s; for (int i = 0; i < 4; i++) same(p[i], mp[i], "part outlives the whole"); p[1] = p[0]; p[2] = p[3]; same(p[1], mp[0], "assigned part"); sameBuffer(p[2], mp[3], "buffer of a part"); vs_reach("parts"); }
  A(vs_live() == base, "every buffer is released exactly once");
}
template<typename T> static Seq<T> tallSeq(int n) { Seq<T> m; for (int i = 0; i < n; i++) m.push((T)('A' + i % 50)); return m; }
static const int TW[] = {0, 4, 1, 3, 9, 2, 5, 6, 7, 8};
template<typename T> static void tallParts() { int64_t live = vs_live(); { int n = tall(), p = spot(n), l = (n - p + 1) / 2, w = TW[vs_choice("way", BOUND(4, 10))]; Seq<T> m = tallSeq<T>(n); m.c[spotIn(n)] = nonZero<T>(); Backing<T> k; ObjectString<T>* s = new ObjectString<T>(build(w, m, k)); ObjectString<T> t = s->Sub(p, l), u, v; Seq<T> mt = sub(m, p, l); if (vs_choice("buffer", 2)) sameBuffer(t, mt, "buffer of a part"); switch ((int)vs_choice("op", 5)) { case 0: u = t; break; case 1: u = std::move(t); t = u; break; case 2: u = *s; *s = *s + *s; u = u.Sub(p, l); break; case 3: u = t.Insert(0, t).Left(l); break; case 4: v = *s; v = v.Sub(p, l); u = v; break; } delete s; same(t, mt, "a part outlives the whole"); same(u, mt, "a part outlives the whole"); sameBuffer(t, mt, "a part outlives the whole"); t = ObjectString<T>(); same(u, mt, "a copy outlives the part"); sameBuffer(u, mt, "a copy outlives the part"); } A(vs_live() == live, "every buffer is released exactly once"); vs_reach("tall"); }
VS_ENTRY(tallWide) { tallParts<wchar_t>(); } // shards=4 tshards=8
VS_ENTRY(tallNarrow) { tallParts<char>(); } // shards=4 tshards=8
