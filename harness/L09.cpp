// sources: Basic.cpp Exception.cpp
// bounds: every array of 0..7 (thorough 8) elements under every weak order (every pattern of ties), 0..8 (thorough 9) under every strict order, 0..10 (thorough 12) with two distinct values, 0..16 (thorough 20) elements ascending, descending, constant or rotated; 17 to 129 (thorough 300) elements in ten fixed shapes with one arbitrary element; ordering by a three-way function, by <=>, by key, ascending and descending; the array lies inside a larger one that must not be touched
// outside: larger arrays in arbitrary order; orderings that are not consistent
// assume: sort keys are 8-bit numbers: code that only compares sees nothing but their relative order
#include "enum.h"
#include "tall.h"
struct Item { int8_t k; uint8_t id; std::strong_ordering operator<=>(const Item& o) const { return k <=> o.k; } bool operator==(const Item& o) const { return k == o.k; } };
static const int PAD = 2;
struct Arr { Item a[24]; int8_t key[24]; int n; Arr(int n_) : n(n_) { for (int i = 0; i < 24; i++) { a[i].k = 0; a[i].id = 0xEE; } for (int i = 0; i < n; i++) { key[i] = (int8_t)vs_u8("k"); a[PAD + i].k = key[i]; a[PAD + i].id = (uint8_t)i; } } Item* p() { return a + PAD; } };
// element identities are concrete on every path: the result must be a permutation of the input whose keys ascend
static void check(const Item* a, const int8_t* key, int n, int dir) {
  int seen[24] = {}; for (int i = 0; i < n; i++) { A(a[i].id < n, "only elements of the input"); if (a[i].id >= n) return; seen[a[i].id]++; A(a[i].k == key[a[i].id], "elements stay whole"); }
  for (int i = 0; i < n; i++) A(seen[i] == 1, "every element exactly once"); for (int i = 0; i + 1 < n; i++) A(dir > 0 ? a[i].k <= a[i + 1].k : a[i].k >= a[i + 1].k, "no element is followed by a smaller one");
}
static void run(Arr& x, int way) {
  int dir = 1; auto orig = x;
  switch (way) {
  case 0: Sort(x.p(), x.n); break;
  case 1: Sort(x.p(), x.n, [](const Item& p, const Item& q) { return p.k <=> q.k; }); break;
  case 2: SortLambda(x.p(), x.n, [](const Item& p, const Item& q) { return q.k <=> p.k; }); dir = -1; break;
  case 3: { Func<std::strong_ordering(Item, Item)> f = [](Item p, Item q) { return p.k <=> q.k; }; Sort(x.p(), x.n, f); break; }
  case 4: SortLambda(x.p(), x.n, [](const Item& p, const Item& q) -> std::weak_ordering { return p.k <=> q.k; }); break;
  case 5: SortLambda(x.p(), x.n, [](const Item& p, const Item& q) -> std::partial_ordering { return p.k <=> q.k; }); break;
  case 6: case 7: case 8: { List<Item> l; for (int i = 0; i < x.n; i++) l.Add(x.p()[i]); auto s = way == 6 ? From(l).OrderBySelf() : way == 7 ? From(l).OrderByKey([](const Item& i) { return i.k; }) : From(l).OrderBy([](const Item& p, const Item& q) { return q.k <=> p.k; }); if (way == 8) dir = -1;
    for (int i = 0; i < x.n; i++) A((l[i].id == i) & (l[i].k == x.key[i]), "the source of a sorted sequence is unchanged"); int i = 0; for (auto& e : s) { A(i < x.n, "sorted sequence length"); if (i < x.n) x.p()[i] = e; i++; } A(i == x.n, "sorted sequence length"); break; }
  }
  check(x.p(), x.key, x.n, dir); for (int i = 0; i < 24; i++) if (i < PAD || i >= PAD + x.n) A((x.a[i].id == 0xEE) & (x.a[i].k == 0), "nothing outside the range is touched"); vs_reach("sorted");
}
VS_ENTRY(weak) { Arr x((int)vs_choice("n", BOUND(8, 9))); run(x, 1); } // shards=8 tshards=32
VS_ENTRY(strict) { int n = (int)vs_choice("n", BOUND(9, 10)); Arr x(n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) vs_assume(x.key[i] != x.key[j]); run(x, 0); } // shards=8 tshards=32
VS_ENTRY(ways) { int way = (int)vs_choice("way", 9); Arr x((int)vs_choice("n", BOUND(6, 7))); run(x, way); } // shards=8 tshards=16
// two groups of equal keys in every arrangement, and few distinct keys
VS_ENTRY(ties) { int n = (int)vs_choice("n", BOUND(11, 13)); Arr x(n); int8_t p = (int8_t)vs_u8("p"), q = (int8_t)vs_u8("q"); vs_assume(p < q); for (int i = 0; i < n; i++) { x.key[i] = vs_choice("which", 2) ? q : p; x.p()[i].k = x.key[i]; } run(x, 1); } // shards=4 tshards=8
VS_ENTRY(shapes) { // shards=4 tshards=8
  int n = (int)vs_choice("n", BOUND(17, 21)), shape = (int)vs_choice("shape", 3), rot = n ? (int)vs_choice("rot", n) : 0; Arr x(n); int8_t s[24]; for (int i = 0; i < n; i++) { s[i] = x.key[i]; if (i) vs_assume(shape == 0 ? s[i - 1] < s[i] : shape == 1 ? s[i - 1] > s[i] : s[i - 1] == s[i]); }
  for (int i = 0; i < n; i++) { x.key[i] = s[(i + rot) % n]; x.p()[i].k = x.key[i]; } run(x, (int)vs_choice("way", 2)); }
struct Counted { Obj o; uint8_t id; };
VS_ENTRY(objects) { { int n = (int)vs_choice("n", BOUND(6, 7)); Counted a[8]; uint8_t key[8]; for (int i = 0; i < n; i++) { key[i] = vs_u8("k"); a[i].o = Obj(key[i]); a[i].id = (uint8_t)i; } SortLambda(a, n, [](const Counted& p, const Counted& q) { return p.o <=> q.o; }); int seen[8] = {}; for (int i = 0; i < n; i++) { seen[a[i].id]++; A(a[i].o.get() == key[a[i].id], "elements stay whole"); } for (int i = 0; i < n; i++) A(seen[i] == 1, "every element exactly once"); for (int i = 0; i + 1 < n; i++) A(a[i].o.get() <= a[i + 1].o.get(), "no element is followed by a smaller one"); } aliveIs(0, "no object left"); vs_reach("objects"); } // shards=4 tshards=8
struct Partial { double d; };
VS_ENTRY(unordered) { int a[4]; int n = 2 + (int)vs_choice("n", 3), bad = (int)vs_choice("bad", n); for (int i = 0; i < n; i++) a[i] = i; MUST_THROW(SortLambda(a, n, [=](int p, int q) -> std::partial_ordering { if (p != q && (p == bad || q == bad)) return std::partial_ordering::unordered; return p <=> q; }), "elements that cannot be ordered must raise"); vs_reach("unordered"); }
// long arrays of fixed shapes with one arbitrary element
struct Wide { int k, id; std::strong_ordering operator<=>(const Wide& o) const { return k <=> o.k; } bool operator==(const Wide& o) const { return k == o.k; } };
VS_ENTRY(tallShapes) { // shards=8 tshards=16
  int n = tall(4, 20), shape = (int)vs_choice("shape", 10), way = (int)vs_choice("way", 2); Wide a[302]; int key[300]; for (int i = 0; i < n; i++) switch (shape) { case 0: key[i] = i; break; case 1: key[i] = n - i; break; case 2: key[i] = 5; break; case 3: key[i] = (i + n / 3) % n; break; case 4: key[i] = i < n / 2 ? i : n - i; break; case 5: key[i] = i * 7 % n; break; case 6: key[i] = i % 2; break; case 7: key[i] = i % 5; break; case 8: key[i] = (i * 97 + i / 3 * 31) % 61; break; case 9: key[i] = i < n / 2 ? n - i : i; break; }
  if (way == 0) { int p = spotIn(n); key[p] = (int)vs_range("k", -1, n + 1); } a[0] = a[n + 1] = Wide{-9, -9}; for (int i = 0; i < n; i++) a[i + 1] = Wide{key[i], i}; if (way == 0) Sort(a + 1, n); else Sort(a + 1, n, [](const Wide& p, const Wide& q) { return q.k <=> p.k; });
  bool seen[300] = {}; for (int i = 1; i <= n; i++) { int d = a[i].id; A((d >= 0) & (d < n), "only elements of the input"); if (d < 0 || d >= n) return; A(!seen[d], "every element exactly once"); seen[d] = true; A(a[i].k == key[d], "elements stay whole"); if (i > 1) A(way ? a[i - 1].k >= a[i].k : a[i - 1].k <= a[i].k, "no element is followed by a smaller one"); } A((a[0].id == -9) & (a[n + 1].id == -9), "nothing outside the range is touched"); vs_reach("tall");
}
