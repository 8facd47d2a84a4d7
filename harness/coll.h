// Mathematical sequences next to library containers, and an element class that checks its own life cycle.
#pragma once
#include "vs.h"
#include "Collections/List.h"
#include "Collections/Dictionary.h"
using namespace vl; using namespace vl::collections;
struct Seq {
  #ifndef SEQ_CAP
#define SEQ_CAP 128
#endif
  static const int CAP = SEQ_CAP; uint32_t e[CAP]; int n = 0;
  void push(uint32_t x) { if (n >= CAP) vs_fail("harness capacity"); e[n++] = x; }
  void insert(int i, uint32_t x) { if (n >= CAP) vs_fail("harness capacity"); for (int k = n; k > i; k--) e[k] = e[k - 1]; e[i] = x; n++; }
  void remove(int i, int c) { for (int k = i; k + c < n; k++) e[k] = e[k + c]; n -= c; }
  int find(uint32_t x) const { for (int i = 0; i < n; i++) if (e[i] == x) return i; return -1; }
};
// An object that notices being used when not alive, being copied byte by byte, and being read after it was moved away.
struct Obj {
  static inline int64_t alive = 0, made = 0; static const uint32_t ALIVE = 0x5AFE5AFE, DEAD = 0xDEADDEAD;
  uint32_t v; uint32_t tag; const Obj* self; bool moved;
  void born() { tag = ALIVE; self = this; moved = false; alive++; made++; }
  void check() const { if (tag != ALIVE) vs_fail("object used while not alive"); if (self != this) vs_fail("object relocated without its constructor"); }
  Obj() : v(0) { born(); } Obj(uint32_t x) : v(x) { born(); }
  Obj(const Obj& o) : v((o.check(), o.v)) { born(); moved = o.moved; }
  Obj(Obj&& o) : v((o.check(), o.v)) { born(); moved = o.moved; o.v = 0x77777777; o.moved = true; }
  Obj& operator=(const Obj& o) { check(); o.check(); v = o.v; moved = o.moved; return *this; }
  Obj& operator=(Obj&& o) { check(); o.check(); if (this == &o) return *this; v = o.v; moved = o.moved; o.v = 0x77777777; o.moved = true; return *this; }
  ~Obj() { check(); tag = DEAD; self = nullptr; alive--; }
  uint32_t get() const { check(); if (moved) vs_fail("value read after it was moved away"); return v; }
  bool operator==(const Obj& o) const { return get() == o.get(); }
  std::strong_ordering operator<=>(const Obj& o) const { return get() <=> o.get(); }
};
static inline uint32_t val(uint32_t x) { return x; }
static inline uint32_t val(const Obj& o) { return o.get(); }
template<typename L> static void same(const L& l, const Seq& m, const char* id) {
  A(l.Count() == m.n, id); for (int i = 0; i < m.n; i++) A(val(l.Get(i)) == m.e[i], id);
}
static inline void aliveIs(int64_t n, const char* id) { A(Obj::alive == n, id); }
// an arbitrary 64-bit argument; true when it lies in [lo,hi] (then split into one path per value)
static inline bool inRange(const char* name, int64_t lo, int64_t hi, vint& out) { int64_t x = (int64_t)vs_u64(name); if ((x >= lo) & (x <= hi)) { out = vs_concretize(x); return true; } out = x; return false; }
