// sources: Basic.cpp Exception.cpp
// bounds: arrays, lists, sorted lists, dictionaries and groups of 0..3 arbitrary elements with any history of 5 (thorough 7) enumerator operations (advance, restart, copy and continue on the copy, copy and keep both); any size up to 12 (thorough 40) with a copy taken at any position; sizes 17 to 257 (thorough 300) with a copy taken at the front, middle or end; range-based loops and indexed loops over all of them
// outside: longer histories; containers changed during enumeration; what Current and Index return before the first and after the last element
#define SEQ_CAP 720
#include "enum.h"
#include "tall.h"
static const int N = BOUND(5, 7);
struct Is { const Seq& m; void operator()(uint32_t x, int i) const { A(x == m.e[i], "current element"); } void operator()(const Obj& x, int i) const { A(x.get() == m.e[i], "current element"); } };
template<typename C> static void seq(C& c, const Seq& m, int steps) { if (steps) walk(c, m.n, Is{m}, steps); else pass(c, m.n, Is{m}); int i = 0; for (auto& x : c) { A(i < m.n, "range loop visits no more than the elements"); A(val(x) == m.e[i], "range loop element"); i++; } A(i == m.n, "range loop visits every element"); i = 0; for (auto [x, k] : indexed(c)) { A(i < m.n, "indexed loop visits no more than the elements"); A((val(x) == m.e[i]) & (k == i), "indexed loop element"); i++; } A(i == m.n, "indexed loop visits every element"); }
template<typename T> static void plain(int kind, int n, int steps) {
  Seq m; for (int i = 0; i < n; i++) m.push(vs_u32("e"));
  switch (kind) {
  case 0: { Array<T> a(n); for (int i = 0; i < n; i++) a.Set(i, T(m.e[i])); seq(a, m, steps); break; }
  case 1: { List<T> a; for (int i = 0; i < n; i++) a.Add(T(m.e[i])); seq(a, m, steps); break; }
  case 2: { for (int i = 1; i < n; i++) vs_assume(m.e[i - 1] <= m.e[i]); SortedList<T> a; for (int i = 0; i < n; i++) a.Add(T(m.e[i])); seq(a, m, steps); break; }
  }
}
static void pairs(int kind, int n, int steps) {
  Seq k, v; for (int i = 0; i < n; i++) { k.push(vs_u32("k")); v.push(vs_u32("v")); }
  auto is = [&](const Pair<const uint32_t&, const uint32_t&>& p, int i) { A(p.key == k.e[i], "current key"); A(p.value == v.e[i], "current value"); };
  auto loops = [&](auto& c) { if (steps) walk(c, n, is, steps); else pass(c, n, is); int i = 0; for (auto [x, y] : c) { A(i < n, "range loop visits no more than the pairs"); A((x == k.e[i]) & (y == v.e[i]), "range loop pair"); i++; } A(i == n, "range loop visits every pair"); i = 0; for (auto [p, j] : indexed(c)) { A(i < n, "indexed loop visits no more than the pairs"); A((p.key == k.e[i]) & (p.value == v.e[i]) & (j == i), "indexed loop pair"); i++; } A(i == n, "indexed loop visits every pair"); };
  if (kind == 0) { for (int i = 1; i < n; i++) vs_assume(k.e[i - 1] < k.e[i]); Dictionary<uint32_t, uint32_t> d; for (int i = 0; i < n; i++) d.Add(k.e[i], v.e[i]); loops(d); }
  else { for (int i = 1; i < n; i++) { if (vs_choice("same", 2)) k.e[i] = k.e[i - 1]; else vs_assume(k.e[i - 1] < k.e[i]); } Group<uint32_t, uint32_t> g; for (int i = 0; i < n; i++) g.Add(k.e[i], v.e[i]); loops(g); }
}
VS_ENTRY(containers) { int kind = (int)vs_choice("kind", 3), n = (int)vs_choice("n", 4); plain<uint32_t>(kind, n, N); } // shards=8 tshards=16
VS_ENTRY(objects) { int kind = (int)vs_choice("kind", 3), n = (int)vs_choice("n", 4); plain<Obj>(kind, n, N - 1); } // shards=4 tshards=16
VS_ENTRY(maps) { int kind = (int)vs_choice("kind", 2), n = (int)vs_choice("n", 4); pairs(kind, n, N); } // shards=8 tshards=16
VS_ENTRY(large) { int kind = (int)vs_choice("kind", 4), n = (int)vs_choice("n", BOUND(13, 41)); if (kind < 3) plain<uint32_t>(kind, n, 0); else pairs(0, n, 0); } // shards=4 tshards=8
VS_ENTRY(groups) { pairs(1, (int)vs_choice("n", BOUND(7, 9)), 0); } // shards=4 tshards=8
VS_ENTRY(tallOnes) { // shards=4 tshards=8
  int n = tall(), kind = (int)vs_choice("kind", 5), at = spotIn(n); Seq m; for (int i = 0; i < n; i++) m.push(7 * i + 1); uint32_t s = vs_u32("v"); auto loops = [&](auto& c) { passFew(c, n, Is{m}); int i = 0; for (auto& x : c) { A(i < n, "range loop visits no more than the elements"); A(val(x) == m.e[i], "range loop element"); i++; } A(i == n, "range loop visits every element"); i = 0; for (auto [x, k] : indexed(c)) { A(i < n, "indexed loop visits no more than the elements"); A((val(x) == m.e[i]) & (k == i), "indexed loop element"); i++; } A(i == n, "indexed loop visits every element"); };
  auto is = [&](const Pair<const uint32_t&, const uint32_t&>& p, int i) { A(p.key == (kind == 3 ? i : i / 5), "current key"); A(p.value == m.e[i], "current value"); };
  switch (kind) { case 0: { m.e[at] = s; Array<uint32_t> a(n); for (int i = 0; i < n; i++) a.Set(i, m.e[i]); loops(a); break; } case 1: { m.e[at] = s; List<uint32_t> a; for (int i = 0; i < n; i++) a.Add(m.e[i]); loops(a); break; } case 2: { SortedList<uint32_t> a; for (int i = 0; i < n; i++) a.Add(m.e[i]); loops(a); break; } case 3: { m.e[at] = s; Dictionary<uint32_t, uint32_t> d; for (int i = 0; i < n; i++) d.Add(i, m.e[i]); passFew(d, n, is); break; } case 4: { m.e[at] = s; Group<uint32_t, uint32_t> g; for (int i = 0; i < n; i++) g.Add(i / 5, m.e[i]); passFew(g, n, is); break; } } vs_reach("tall");
}
