// sources: Basic.cpp Exception.cpp
// bounds: sequences of 0..6 (thorough 10) arbitrary elements for folds and tests, 0..4 (thorough 5) for minimum/maximum, grouping and flattening, every assignment of keys and part sizes; over lists, arrays, sorted lists and lazy sequences; sequences of 17 to 257 (thorough 300) mostly fixed elements
// outside: longer sequences
#define SEQ_CAP 720
#include "enum.h"
#include "tall.h"
typedef LazyList<uint32_t> LL;
static Seq some(const char* name, int max) { Seq m; int n = (int)vs_choice("n", max + 1); for (int i = 0; i < n; i++) m.push(vs_u32(name)); return m; }
struct Src { List<uint32_t> l; Array<uint32_t> a; uint32_t raw[Seq::CAP]; int n; Src(const Seq& m) : n(m.n) { a.Resize(n); for (int i = 0; i < n; i++) { l.Add(m.e[i]); a.Set(i, m.e[i]); raw[i] = m.e[i]; } } LL lazy() { switch ((int)vs_choice("source", 4)) { case 0: return From(l); case 1: return From(a); case 2: return From(raw, raw + n); default: return From(l).Select([](uint32_t x) { return x; }); } } };
VS_ENTRY(folds) {
  Seq m = some("e", BOUND(6, 10)); Src s(m); LL l = s.lazy(); uint64_t h = 7; for (int i = 0; i < m.n; i++) h = h * 31 + m.e[i];
  A(l.Aggregate((uint64_t)7, [](uint64_t a, uint32_t x) { return a * 31 + x; }) == h, "fold with an initial value");
  auto f = [](uint32_t a, uint32_t b) { return a * 31 + b; }; if (m.n == 0) MUST_THROW(l.Aggregate(f), "folding nothing must raise"); else { uint32_t r = m.e[0]; for (int i = 1; i < m.n; i++) r = r * 31 + m.e[i]; A(l.Aggregate(f) == r, "fold"); }
  A(l.Count() == m.n, "Count"); A(l.IsEmpty() == (m.n == 0), "IsEmpty"); uint32_t d = vs_u32("default");
  if (m.n == 0) { MUST_THROW(l.First(), "first of nothing must raise"); MUST_THROW(l.Last(), "last of nothing must raise"); A(l.First(d) == d, "default of nothing"); A(l.Last(d) == d, "default of nothing"); }
  else { A(l.First() == m.e[0], "First"); A(l.Last() == m.e[m.n - 1], "Last"); A(l.First(d) == m.e[0], "First with default"); A(l.Last(d) == m.e[m.n - 1], "Last with default"); }
  same(s.l, m, "source unchanged"); vs_reach("folds");
}
VS_ENTRY(tests) { // shards=4
  Seq m = some("e", BOUND(5, 8)); Src s(m); LL l = s.lazy(); uint32_t t = vs_u32("t"); bool all = true, any = false; for (int i = 0; i < m.n; i++) { all = all & (m.e[i] < t); any = any | (m.e[i] == t); }
  A(l.All([=](uint32_t x) { return x < t; }) == all, "All"); A(l.Any([=](uint32_t x) { return x == t; }) == any, "Any"); vs_reach("tests");
}
template<typename T> static void extremes(int max) {
  int n = (int)vs_choice("n", max + 1); List<T> l; T e[16]; for (int i = 0; i < n; i++) { e[i] = (T)vs_u64("e"); l.Add(e[i]); } auto z = From(l); if (n == 0) { MUST_THROW(z.Max(), "maximum of nothing must raise"); MUST_THROW(z.Min(), "minimum of nothing must raise"); return; }
  T mx = z.Max(), mn = z.Min(); bool inx = false, inn = false; for (int i = 0; i < n; i++) { A(mx >= e[i], "no element above the maximum"); A(mn <= e[i], "no element below the minimum"); inx = inx | (mx == e[i]); inn = inn | (mn == e[i]); } A(inx, "the maximum is an element"); A(inn, "the minimum is an element"); vs_reach("extremes");
}
VS_ENTRY(extremes_unsigned) { extremes<uint32_t>(BOUND(5, 8)); } // shards=2
VS_ENTRY(extremes_signed) { extremes<int64_t>(BOUND(5, 8)); } // shards=2
VS_ENTRY(extremes_small) { extremes<int8_t>(BOUND(5, 8)); } // shards=2
// grouping: keys in order of first appearance, each with its elements in order
VS_ENTRY(grouping) { // shards=8 tshards=16
  Seq m = some("e", BOUND(5, 6)); Src s(m); uint32_t mask = 3; auto g = s.lazy().GroupBy([=](uint32_t x) { return x & mask; }); Seq keys; for (int i = 0; i < m.n; i++) { m.e[i] = (uint32_t)m.e[i]; uint32_t k = m.e[i] & mask; if (keys.find(k) == -1) keys.push(k); }
  for (int round = 0; round < 2; round++) { int i = 0; for (auto p : g) { A(i < keys.n, "one group per key"); if (i >= keys.n) break; A(p.key == keys.e[i], "keys in order of first appearance"); int j = 0; for (auto x : p.value) { while (j < m.n && (m.e[j] & mask) != keys.e[i]) j++; A(j < m.n, "only elements of the group"); if (j < m.n) A(x == m.e[j], "elements of the group in order"); j++; } while (j < m.n) { A((m.e[j] & mask) != keys.e[i], "every element of the group"); j++; } i++; } A(i == keys.n, "one group per key"); } same(s.l, m, "source unchanged"); vs_reach("grouping");
}
VS_ENTRY(flattening) { // shards=2
  int n = (int)vs_choice("n", BOUND(4, 5)); List<uint32_t> l; Seq r; for (int i = 0; i < n; i++) { uint32_t k = (uint32_t)vs_choice("k", BOUND(4, 4)), b = vs_u32("b") & ~3u; l.Add(b | k); for (uint32_t j = 0; j < k; j++) r.push((b | k) * 5 + j); }
  auto z = From(l).SelectMany([](uint32_t x) { return Range<vint>(0, x & 3).Select([=](vint j) { return (uint32_t)(x * 5 + j); }); }); auto is = [&](uint32_t x, int i) { A(x == r.e[i], "flattened element"); }; pass(z, r.n, is); vs_reach("flattening");
}
VS_ENTRY(materialising) { // shards=4
  Seq m = some("e", BOUND(4, 6)); Src s(m); LL l = s.lazy(); auto is = [&](uint32_t x, int i) { A(x == m.e[i], "element"); }; bool force = vs_choice("force", 2); LL e = l.Evaluate(force); pass(e, m.n, is); int calls = 0; auto counted = From(s.l).Select([&](uint32_t x) { calls++; return x; }); LL once = counted.Evaluate(); int before = calls; pass(once, m.n, is); A(calls == before, "a materialised sequence computes nothing any more"); if (force) { s.l.Clear(); s.a.Resize(0); pass(e, m.n, is); } vs_reach("materialising");
}
VS_ENTRY(objects) { // shards=2
  int64_t live = vs_live(); { int n = (int)vs_choice("n", BOUND(4, 6)); List<Obj> l; Seq m; for (int i = 0; i < n; i++) { m.push(vs_u32("e")); l.Add(Obj(m.e[i])); } auto z = From(l); if (n) { A(z.First().get() == m.e[0], "First"); A(z.Last().get() == m.e[n - 1], "Last"); A(z.Aggregate([](Obj a, Obj b) { return Obj(a.get() * 3 + b.get()); }).get() == [&] { uint32_t r = m.e[0]; for (int i = 1; i < n; i++) r = r * 3 + m.e[i]; return r; }(), "fold"); } auto w = z.Select([](const Obj& o) { return Obj(o.get() + 1); }).Evaluate(); int i = 0; for (auto& o : w) { A(o.get() == m.e[i] + 1, "element"); i++; } A(i == n, "length"); same(l, m, "source unchanged"); } aliveIs(0, "no object left"); A(vs_live() == live, "all storage released"); vs_reach("objects");
}
VS_ENTRY(tallOnes) { // shards=8 tshards=8 steps=20000000
  int n = tall(), p = spotIn(n), what = (int)vs_choice("what", 5); Seq m; for (int i = 0; i < n; i++) m.push(1000 + i * 7 % n); uint32_t x = vs_u32("e"); vs_assume(x < 5000); m.e[p] = x; Src s(m); LL l = s.lazy();
  switch (what) {
  case 0: { uint64_t h = 7; for (int i = 0; i < n; i++) h = (h << 1 | h >> 63) + m.e[i]; A(l.Aggregate((uint64_t)7, [](uint64_t a, uint32_t x) { return (a << 1 | a >> 63) + x; }) == h, "fold with an initial value"); uint32_t r = m.e[0]; for (int i = 1; i < n; i++) r = (r << 1 | r >> 31) + m.e[i]; A(l.Aggregate([](uint32_t a, uint32_t b) { return (a << 1 | a >> 31) + b; }) == r, "fold"); A(l.Count() == n, "Count"); A(!l.IsEmpty(), "IsEmpty"); A(l.First() == m.e[0], "First"); A(l.Last() == m.e[n - 1], "Last"); A(l.Last(3) == m.e[n - 1], "Last with default"); break; }
  case 1: { A(l.All([](uint32_t v) { return v < 2000; }) == (x < 2000), "All"); A(l.Any([](uint32_t v) { return v >= 2000; }) == (x >= 2000), "Any"); break; }
  case 2: { uint32_t mx = l.Max(), mn = l.Min(); bool inx = false, inn = false; for (int i = 0; i < n; i++) { A(mx >= m.e[i], "no element above the maximum"); A(mn <= m.e[i], "no element below the minimum"); inx = inx | (mx == m.e[i]); inn = inn | (mn == m.e[i]); } A(inx, "the maximum is an element"); A(inn, "the minimum is an element"); break; }
  case 3: { m.e[p] = 1003; s.l[p] = 1003; int i = 0, total = 0; for (auto g : From(s.l).GroupBy([](uint32_t v) { return v / 3; })) { int j = 0; for (auto v : g.value) { while (j < n && m.e[j] / 3 != g.key) j++; A(j < n, "only elements of the group"); if (j < n) A(v == m.e[j], "elements of the group in order"); j++; total++; } i++; } A(total == n, "every element in a group"); Seq keys; for (int k = 0; k < n; k++) if (keys.find(m.e[k] / 3) == -1) keys.push(m.e[k] / 3); A(i == keys.n, "one group per key"); break; }
  case 4: { s.l[p] = 1; m.e[p] = 1; auto z = From(s.l).Take(24).SelectMany([](uint32_t v) { return Range<vint>(v, v % 3); }); Seq r; for (int i = 0; i < n && i < 24; i++) for (uint32_t j = 0; j < m.e[i] % 3; j++) r.push(m.e[i] + j); passFew(z, r.n, [&](vint v, int i) { A(v == r.e[i], "flattened element"); }); LL e = From(s.l).Select([](uint32_t v) { return v + 1; }).Evaluate(true); passFew(e, n, [&](uint32_t v, int i) { A(v == m.e[i] + 1, "materialised element"); }); break; }
  } vs_reach("tall");
}
