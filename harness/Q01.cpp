// sources: Basic.cpp Exception.cpp
// bounds: every operator over 0..3 arbitrary elements (set operators with a second source of 0..2) with every history of 2 or 3 (thorough 3 or 4) enumerator operations; every composition of two operators over 0..3 elements and of three position operators over 0..3 (thorough 4) elements; single operators over up to 11 (thorough 23) elements; single operators over 17 to 257 (thorough 300) mostly fixed elements; counts arbitrary (repetition up to 3, and any negative count)
// outside: longer sources, deeper compositions; the smallest 64-bit integer as a count; sources changed while a sequence computed from them is in use
// assume: elements are 8-bit numbers
#define SEQ_CAP 720
#include "enum.h"
#include "tall.h"
typedef LazyList<uint32_t> LL;
static uint32_t val8(const char* n) { return vs_u8(n); }
static Seq some(const char* name, int n) { Seq m; for (int i = 0; i < n; i++) m.push(val8(name)); return m; }
// clamps an arbitrary count to 0..n
static int clamp(int64_t c, int n) { if (c <= 0) return 0; if (c >= n) return n; return (int)vs_concretize(c); }
static bool in(uint32_t x, const Seq& m) { for (int i = 0; i < m.n; i++) if (m.e[i] == x) return true; return false; }
static Seq distinct(const Seq& m) { Seq r; for (int i = 0; i < m.n; i++) if (!in(m.e[i], r)) r.push(m.e[i]); return r; }
static Seq cat(const Seq& a, const Seq& b) { Seq r = a; for (int i = 0; i < b.n; i++) r.push(b.e[i]); return r; }
static const int OPS = 15;
// applies one operator to both the sequence and its model
static LL apply(int op, const LL& l, Seq& m, const List<uint32_t>& other, const Seq& o, int64_t count) {
  Seq r;
  switch (op) {
  case 0: for (int i = 0; i < m.n; i++) r.push(m.e[i] * 3 + 1); m = r; vs_reach("Select"); return l.Select([](uint32_t x) { return x * 3 + 1; });
  case 1: for (int i = 0; i < m.n; i++) if (m.e[i] & 1) r.push(m.e[i]); m = r; vs_reach("Where"); return l.Where([](uint32_t x) { return (x & 1) != 0; });
  case 2: { int k = clamp(count, m.n); m.n = k; vs_reach("Take"); return l.Take(count); }
  case 3: { int k = clamp(count, m.n); m.remove(0, k); vs_reach("Skip"); return l.Skip(count); }
  case 4: { int k; if (count <= 0) k = 0; else { vs_assume(count <= 3); k = (int)vs_concretize(count); count = k; } for (int i = 0; i < k; i++) r = cat(r, m); m = r; vs_reach("Repeat"); return l.Repeat(count); }
  case 5: for (int i = m.n - 1; i >= 0; i--) r.push(m.e[i]); m = r; vs_reach("Reverse"); return l.Reverse();
  case 6: m = cat(m, o); vs_reach("Concat"); return l.Concat(other);
  case 7: m = distinct(m); vs_reach("Distinct"); return l.Distinct();
  case 8: for (int i = 0; i < m.n; i++) if (in(m.e[i], o)) r.push(m.e[i]); m = distinct(r); vs_reach("Intersect"); return l.Intersect(other);
  case 9: for (int i = 0; i < m.n; i++) if (!in(m.e[i], o)) r.push(m.e[i]); m = distinct(r); vs_reach("Except"); return l.Except(other);
  case 10: m = distinct(cat(m, o)); vs_reach("Union"); return l.Union(other);
  case 11: for (int i = 0; i < m.n && i < o.n; i++) r.push(m.e[i] * 256 + o.e[i]); m = r; vs_reach("Pairwise"); return l.Pairwise(other).Select([](Pair<uint32_t, uint32_t> p) { return p.key * 256 + p.value; });
  case 12: vs_reach("Evaluate"); return l.Evaluate(vs_choice("force", 2));
  case 13: m = cat(o, m); vs_reach("Concat after"); return From(other).Concat(l);
  case 14: m = cat(m, m); vs_reach("Concat itself"); return l.Concat(l);
  }
  return l;
}
struct Is { const Seq& m; void operator()(uint32_t x, int i) const { A(x == m.e[i], "element of the sequence"); } };
static int64_t anyCount() { int64_t c = (int64_t)vs_u64("count"); vs_assume(c != INT64_MIN); return c; }
static const int N = BOUND(4, 5);
VS_ENTRY(single) { // shards=16 tshards=32
  int op = (int)vs_choice("op", OPS), n = (int)vs_choice("n", 4), no = op >= 6 && op != 7 && op != 12 && op != 14 ? (int)vs_choice("other", 3) : 0; int64_t c = op >= 2 && op <= 4 ? anyCount() : 0; Seq m = some("e", n), o = some("o", no), src = m; List<uint32_t> l, other; for (int i = 0; i < n; i++) l.Add(m.e[i]); for (int i = 0; i < no; i++) other.Add(o.e[i]);
  int64_t live = vs_live(); { LL r = apply(op, From(l), m, other, o, c); walk(r, m.n, Is{m}, op >= 6 ? BOUND(2, 3) : BOUND(3, 4)); LL copy = r; r = LL(); Walker<uint32_t> w(copy.CreateEnumerator()); w.drain(m.n, Is{m}); } A(vs_live() == live, "all storage released"); same(l, src, "source unchanged"); same(other, o, "second source unchanged");
}
VS_ENTRY(pairs) { // shards=16 tshards=32
  int op1 = (int)vs_choice("op1", OPS), op2 = (int)vs_choice("op2", OPS), n = (int)vs_choice("n", 4), no = (int)vs_choice("other", BOUND(2, 3)); Seq m = some("e", n), o = some("o", no), src = m; List<uint32_t> l, other; for (int i = 0; i < n; i++) l.Add(m.e[i]); for (int i = 0; i < no; i++) other.Add(o.e[i]);
  int64_t c1 = op1 >= 2 && op1 <= 4 ? anyCount() : 0, c2 = op2 >= 2 && op2 <= 4 ? anyCount() : 0; LL r; { LL a = apply(op1, From(l), m, other, o, c1); r = apply(op2, a, m, other, o, c2); } pass(r, m.n, Is{m}); same(l, src, "source unchanged"); same(other, o, "second source unchanged"); vs_reach("pairs");
}
// operators whose results depend on positions, composed three deep over longer sources
static const int pos[] = {2, 3, 4, 5, 6, 14, 1, 0};
VS_ENTRY(triples) { // shards=16 tshards=32
  int n = (int)vs_choice("n", BOUND(4, 5)); Seq m = some("e", n), o = some("o", 1); List<uint32_t> l, other; for (int i = 0; i < n; i++) l.Add(m.e[i]); other.Add(o.e[0]); LL r = From(l);
  for (int k = 0; k < 3; k++) { int op = pos[vs_choice("op", BOUND(6, 8))]; int64_t c = 0; if (op >= 2 && op <= 4) { c = vs_range("count", -1, op == 4 ? 2 : 3); if (op == 4) vs_assume(m.n <= 6); } r = apply(op, r, m, other, o, c); } Walker<uint32_t> w(r.CreateEnumerator()); w.drain(m.n, Is{m}); vs_reach("triples");
}
VS_ENTRY(large) { // shards=8
  int op = (int)vs_choice("op", 8), n = (int)vs_choice("n", BOUND(12, 24)); if (op == 1 || op == 7) n = n < 8 ? n : 8; Seq m = some("e", n), o = some("o", 3); if (op == 7) for (int i = 1; i < n; i++) vs_assume(m.e[i - 1] < m.e[i]); List<uint32_t> l, other; for (int i = 0; i < n; i++) l.Add(m.e[i]); for (int i = 0; i < 3; i++) other.Add(o.e[i]); int64_t c = op >= 2 && op <= 4 ? anyCount() : 0; LL r = apply(op, From(l), m, other, o, c); pass(r, m.n, Is{m}); vs_reach("large");
}
VS_ENTRY(range) { // shards=4
  int64_t start = (int64_t)vs_u64("start"), count = (int64_t)vs_u64("count"); vs_assume(start > INT64_MIN / 2); vs_assume(start < INT64_MAX / 2); vs_assume(count > INT64_MIN / 2); vs_assume(count <= BOUND(3, 5)); int n = count <= 0 ? 0 : (int)vs_concretize(count); LazyList<vint> r = Range<vint>(start, count);
  walk(r, n, [&](vint x, int i) { A(x == start + i, "element of the range"); }, N); vs_reach("range");
}
VS_ENTRY(buffers) { // shards=4
  uint32_t buf[8]; int n = (int)vs_choice("n", BOUND(4, 6)); Seq m = some("e", n); for (int i = 0; i < 8; i++) buf[i] = i < n ? m.e[i] : 0;
  switch ((int)vs_choice("form", 4)) { case 0: walk(From((const uint32_t*)buf, (const uint32_t*)(buf + n)), n, Is{m}, N); break; case 1: { uint32_t three[3] = {m.n > 0 ? m.e[0] : 1, m.n > 1 ? m.e[1] : 2, 3}; walk(From(three), 3, [&](uint32_t x, int i) { A(x == three[i], "element of the array"); }, N); break; } case 2: { auto p = Ptr(new List<uint32_t>); for (int i = 0; i < n; i++) p->Add(m.e[i]); LL l(p); p = nullptr; walk(l, n, Is{m}, N); break; } case 3: { LL e; walk(e, 0, Is{m}, N); auto moved = LL(From(buf)); LL to = std::move(moved); walk(moved, 0, Is{m}, 2); int i = 0; for (auto x : to) { A(x == buf[i], "moved sequence"); i++; } A(i == 8, "moved sequence"); break; } } vs_reach("buffers");
}
struct Base : Object { uint32_t v; }; struct Derived : Base {}; struct Other : Base {};
VS_ENTRY(casts) { // shards=2
  int n = (int)vs_choice("n", BOUND(4, 5)); List<Ptr<Base>> l; Seq kind, m; for (int i = 0; i < n; i++) { int k = (int)vs_choice("kind", 3); kind.push(k); Ptr<Base> p; if (k == 1) p = Ptr<Base>(new Derived); else if (k == 2) p = Ptr<Base>(new Other); l.Add(p); if (k == 1) m.push(i); }
  auto c = From(l).Cast<Derived>(); walk(c, n, [&](const Ptr<Derived>& p, int i) { A(static_cast<Base*>(p.Obj()) == (kind.e[i] == 1 ? l[i].Obj() : nullptr), "cast element"); }, 2); auto f = From(l).FindType<Derived>(); walk(f, m.n, [&](const Ptr<Derived>& p, int i) { A(static_cast<Base*>(p.Obj()) == l[m.e[i]].Obj(), "element of the type"); }, 2); vs_reach("casts");
}
VS_ENTRY(loops) { int n = (int)vs_choice("n", 4); Seq m = some("e", n); List<uint32_t> l; for (int i = 0; i < n; i++) l.Add(m.e[i]); int i = 0; for (auto x : From(l).Select([](uint32_t x) { return x + 1; })) { A(i < n, "range loop length"); A(x == m.e[i] + 1, "range loop element"); i++; } A(i == n, "range loop length"); i = 0; for (auto [x, k] : indexed(From(l).Reverse())) { A(i < n, "indexed loop length"); A(x == m.e[n - 1 - i], "indexed loop element"); A(k == i, "indexed loop index"); i++; } A(i == n, "indexed loop length"); vs_reach("loops"); }
// a sequence that was never given elements
VS_ENTRY(empty) {
  int64_t live = vs_live(); { LL l; LL m = vs_choice("made", 2) ? l : l.Evaluate(); auto e = Ptr(m.CreateEnumerator()); for (int q = 0; q < 3; q++) { A(e->Index() == -1, "an empty sequence has no position"); switch ((int)vs_choice("op", 4)) { case 0: A(!e->Next(), "an empty sequence has no element"); break; case 1: e->Reset(); break; case 2: e = Ptr(e->Clone()); break; case 3: MUST_THROW(e->Current(), "an empty sequence has no current element"); break; } }
  uint32_t d = vs_u32("default"); A(m.Count() == 0, "empty"); A(m.IsEmpty(), "empty"); A(m.First(d) == d, "default"); A(m.Last(d) == d, "default"); LL n = m.Concat(l).Take(2).Skip(1).Reverse(); A(n.IsEmpty(), "empty"); } A(vs_live() == live, "everything is released"); vs_reach("empty");
}
// long sources: mostly fixed elements, counts at the front, middle and end
VS_ENTRY(tallOnes) { // shards=8 tshards=16
  int op = (int)vs_choice("op", OPS), n = tall(), k = 0; int64_t c = 0; if (op == 4) c = (int64_t)vs_choice("times", n > 250 ? 2 : 3); else if (op == 2 || op == 3) { int x[6] = {n / 2, 0, n, n - 1, 1, n + 1}; c = x[vs_choice("count", 6)]; } bool set = op >= 7 && op <= 10; Seq m, o; for (int i = 0; i < n; i++) m.push(set ? 3 * (i % (n / 2 + 1)) + 1 : 7 * i + 1); int no = op == 14 || op == 13 || op == 6 ? 20 : n / 2; for (int i = 0; i < no; i++) o.push(set ? 3 * (n - 2 * i) + 1 : 5 * i + 2); if (!set) m.e[spotIn(n)] = vs_u32("e") & 0xFFFF; Seq src = m; List<uint32_t> l, other; for (int i = 0; i < n; i++) l.Add(m.e[i]); for (int i = 0; i < no; i++) other.Add(o.e[i]);
  int64_t live = vs_live(); { LL r = apply(op, From(l), m, other, o, c); if (m.n) passFew(r, m.n, Is{m}); else A(r.IsEmpty(), "empty"); } A(vs_live() == live, "all storage released"); same(l, src, "source unchanged"); same(other, o, "second source unchanged"); vs_reach("tall");
}
