// A mathematical character sequence next to a library string made in one of several ways.
#pragma once
#include "vs.h"
#include "Strings/String.h"
using namespace vl;
template<typename T> struct Seq {
  #ifndef STR_CAP
#define STR_CAP 96
#endif
  static const int CAP = STR_CAP; T c[CAP]; int n = 0;
  void push(T x) { if (n >= CAP) vs_fail("harness capacity"); c[n++] = x; }
};
template<typename T> static Seq<T> cat(const Seq<T>& a, const Seq<T>& b) { Seq<T> r = a; for (int i = 0; i < b.n; i++) r.push(b.c[i]); return r; }
template<typename T> static Seq<T> sub(const Seq<T>& a, int from, int n) { Seq<T> r; for (int i = 0; i < n; i++) r.push(a.c[from + i]); return r; }
template<typename T> static T anyChar() { if (sizeof(T) == 1) return (T)vs_u8("c"); if (sizeof(T) == 2) return (T)vs_u16("c"); return (T)vs_u32("c"); }
template<typename T> static T nonZero() { T c = anyChar<T>(); vs_assume(c != 0); return c; }
template<typename T> static Seq<T> anySeq(int n, bool zeros = false) { Seq<T> r; for (int i = 0; i < n; i++) r.push(zeros ? anyChar<T>() : nonZero<T>()); return r; }
template<typename T> static void same(const ObjectString<T>& s, const Seq<T>& m, const char* id) {
  A(s.Length() == m.n, id); for (int i = 0; i < m.n; i++) A(s[i] == m.c[i], id);
}
template<typename T> static void sameBuffer(const ObjectString<T>& s, const Seq<T>& m, const char* id) {
  const T* b = s.Buffer(); for (int i = 0; i < m.n; i++) A(b[i] == m.c[i], id); A(b[m.n] == 0, id); same(s, m, id); A(s.Buffer() == b, "the buffer stays where it is while the string does not change");
}
static const int WAYS = 10;
// backing: storage that must outlive an unmanaged string
template<typename T> struct Backing { T* p = nullptr; ~Backing() { delete[] p; } };
template<typename T> static ObjectString<T> build(int way, const Seq<T>& m, Backing<T>& keep) {
  T z[Seq<T>::CAP + 8]; int n = m.n;
  switch (way) {
  case 0: return ObjectString<T>::CopyFrom(m.c, n);
  case 1: for (int i = 0; i < n; i++) z[i] = m.c[i]; z[n] = 0; return ObjectString<T>(z);
  case 2: { T* p = new T[n + 1]; for (int i = 0; i < n; i++) p[i] = m.c[i]; p[n] = 0; return ObjectString<T>::TakeOver(p, n); }
  case 3: { T* p = new T[n + 1]; for (int i = 0; i < n; i++) p[i] = m.c[i]; p[n] = 0; keep.p = p; return ObjectString<T>::Unmanaged(p); }
  case 4: z[0] = 'x'; for (int i = 0; i < n; i++) z[i + 1] = m.c[i]; z[n + 1] = 'y'; return ObjectString<T>::CopyFrom(z, n + 2).Sub(1, n);
  case 5: for (int i = 0; i < n; i++) z[i] = m.c[i]; z[n] = 'y'; return ObjectString<T>::CopyFrom(z, n + 1).Left(n);
  case 6: z[0] = 'x'; for (int i = 0; i < n; i++) z[i + 1] = m.c[i]; return ObjectString<T>::CopyFrom(z, n + 1).Right(n);
  case 7: { z[0] = 'x'; z[1] = 'w'; for (int i = 0; i < n; i++) z[i + 2] = m.c[i]; z[n + 2] = 'y'; z[n + 3] = 'v'; return ObjectString<T>::CopyFrom(z, n + 4).Sub(1, n + 2).Sub(1, n); }
  case 8: { T* p = new T[n + 3]; p[0] = 'q'; for (int i = 0; i < n; i++) p[i + 1] = m.c[i]; p[n + 1] = 'r'; p[n + 2] = 0; keep.p = p; return ObjectString<T>::Unmanaged(p).Sub(1, n); }
  default: { int h = n / 2; return ObjectString<T>::CopyFrom(m.c, h) + ObjectString<T>::CopyFrom(m.c + h, n - h); }
  }
}
