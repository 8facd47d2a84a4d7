// sources: Basic.cpp Exception.cpp
// bounds: histories of 4 (thorough 5) operations over arbitrary values with duplicates; ordered lists of 0..14 (thorough 24) arbitrary values, all distinct or with one run of equal ones anywhere, with any following addition, search or removal; lists of 17 to 129 (thorough 257) fixed values added in three orders with any value added, searched or removed
// outside: longer lists and histories; elements without a total order
// assume: values are taken from 256 consecutive numbers around zero: only their relative order can matter to code using comparisons alone
#include "coll.h"
#include "tall.h"
// an element whose identity is visible next to the compared value
struct Item { int8_t v; int id; Item(int8_t v_ = 0, int id_ = -1) : v(v_), id(id_) {} Item(const Item& o) : v(o.v), id(o.id) {} Item(Item&& o) : v(o.v), id(o.id) { o.v = 99; o.id = -2; } Item& operator=(const Item& o) { v = o.v; id = o.id; return *this; } Item& operator=(Item&& o) { if (&o != this) { v = o.v; id = o.id; o.v = 99; o.id = -2; } return *this; }
  bool operator==(const Item& o) const { return v == o.v; } std::strong_ordering operator<=>(const Item& o) const { return v <=> o.v; } };
struct Bag { int8_t v[64]; bool in[64]; int n = 0, c = 0; int add(int8_t x) { v[n] = x; in[n] = true; c++; return n++; } };
static void agree(const SortedList<Item>& l, const Bag& b) { bool seen[64] = {}; A(l.Count() == b.c, "number of elements"); for (int i = 0; i < l.Count(); i++) { const Item& t = l[i]; A(t.id >= 0 && b.in[t.id] && !seen[t.id], "exactly the elements added and not removed"); seen[t.id] = true; A(t.v == b.v[t.id], "element value"); } for (int i = 0; i + 1 < l.Count(); i++) A(l[i].v <= l[i + 1].v, "non-decreasing order"); }
static void search(const SortedList<Item>& l, int8_t x) { Item p(x, -3); vint r = vs_concretize(l.IndexOf(p)); A(l.Contains(p) == (r != -1), "Contains agrees with IndexOf"); if (r == -1) { bool any = false; for (int i = 0; i < l.Count(); i++) any = any | (l[i].v == x); A(!any, "search must find a value that is there"); } else { A(r >= 0 && r < l.Count(), "position in range"); A(l[r].v == x, "found position holds the value"); } }
static void remove(SortedList<Item>& l, Bag& b, int8_t x) { bool any = false; for (int i = 0; i < l.Count(); i++) any = any | (l[i].v == x); bool r = l.Remove(Item(x, -3)); A(r == any, "Remove tells whether there was one"); if (r) { bool seen[64] = {}; for (int i = 0; i < l.Count(); i++) { int d = l[i].id; if (d >= 0 && d < b.n) seen[d] = true; } int gone = -1, k = 0; for (int i = 0; i < b.n; i++) if (b.in[i] && !seen[i]) { gone = i; k++; } A(k == 1, "exactly one element removed"); if (k == 1) { A(b.v[gone] == x, "the removed element equals the argument"); b.in[gone] = false; b.c--; } } }
static void hist(int N) {
  int64_t live = vs_live(); { SortedList<Item> l; Bag b; for (int k = 0; k < N; k++) { int8_t x = (int8_t)vs_u8("x"); switch ((int)vs_choice("op", 7)) {
    case 0: { int id = b.add(x); vint p = l.Add(Item(x, id)); A(p >= 0 && p < l.Count(), "reported position"); A(l[p].id == id, "the value is where the addition says"); break; }
    case 1: { int id = b.add(x); Item t(x, id); vint p = l.Add(t); A(p >= 0 && p < l.Count(), "reported position"); A(l[p].id == id, "the value is where the addition says"); A(t.id == id, "argument unchanged"); break; }
    case 2: remove(l, b, x); break;
    case 3: search(l, x); break;
    case 4: { vint i; if (inRange("index", 0, l.Count() - 1, i)) { int d = l[i].id; b.in[d] = false; b.c--; l.RemoveAt(i); } else { MUST_THROW(l.RemoveAt(i), "RemoveAt out of range must raise"); MUST_THROW(l[i], "index out of range must raise"); MUST_THROW(l.Get(i), "index out of range must raise"); } break; }
    case 5: { SortedList<Item> c(l); agree(c, b); c.Add(Item(x, 60)); c.Clear(); agree(l, b); SortedList<Item> d(std::move(l)); A(l.Count() == 0, "moved-from list is empty"); l = std::move(d); break; }
    case 6: { vint i, c; if (!inRange("index", 0, l.Count(), i)) { MUST_THROW(l.RemoveRange(i, 0), "RemoveRange out of range must raise"); break; } if (inRange("count", 0, l.Count() - i, c)) { for (vint j = i; j < i + c; j++) { b.in[l[j].id] = false; b.c--; } l.RemoveRange(i, c); } else MUST_THROW(l.RemoveRange(i, c), "RemoveRange out of range must raise"); break; }
    } agree(l, b); } vs_reach("history"); }
  A(vs_live() == live, "all storage released");
}
VS_ENTRY(history) { hist(BOUND(4, 5)); } // shards=8 tshards=32
VS_ENTRY(additions) { SortedList<Item> l; Bag b; int n = BOUND(5, 6); for (int k = 0; k < n; k++) { int8_t x = (int8_t)vs_u8("x"); int id = b.add(x); vint p = l.Add(Item(x, id)); A(l[p].id == id, "the value is where the addition says"); agree(l, b); } search(l, (int8_t)vs_u8("probe")); remove(l, b, (int8_t)vs_u8("gone")); agree(l, b); vs_reach("additions"); }
// an ordered list of n arbitrary values, a run of them equal
static void fill(SortedList<Item>& l, Bag& b, int n, int from, int run) { int8_t last = 0; for (int i = 0; i < n; i++) { int8_t x = last; if (!(i > from && i < from + run)) { x = (int8_t)vs_u8("x"); if (i) vs_assume(last < x); } last = x; l.Add(Item(x, b.add(x))); } }
VS_ENTRY(large) { // shards=8 tshards=16
  SortedList<Item> l; Bag b; int n = (int)vs_choice("n", BOUND(15, 25)); int op = (int)vs_choice("op", 3); int run = n ? (int)vs_choice("run", n + 1) : 0, from = run > 1 ? (int)vs_choice("from", n - run + 1) : 0; if (run == 1) return; fill(l, b, n, from, run); agree(l, b); int8_t x = (int8_t)vs_u8("probe"); switch (op) { case 0: search(l, x); break; case 1: remove(l, b, x); break; default: { int id = b.add(x); vint p = l.Add(Item(x, id)); A(l[p].id == id, "the value is where the addition says"); } } agree(l, b); vs_reach("large");
}
// plain numbers and keys
template<typename T> static void plain() { SortedList<T> l; T m[4]; int n = (int)vs_choice("n", 5); for (int i = 0; i < n; i++) { m[i] = (T)(int8_t)vs_u8("x"); vint p = l.Add(m[i]); A(l[p] == m[i], "the value is where the addition says"); } A(l.Count() == n, "count"); for (int i = 0; i + 1 < n; i++) A(l[i] <= l[i + 1], "non-decreasing order"); T x = (T)(int8_t)vs_u8("probe"); int a = 0, b = 0; for (int i = 0; i < n; i++) { a += l[i] == x; b += m[i] == x; } A(a == b, "as often in the list as it was added"); vint r = l.IndexOf(x); A((r == -1) == (b == 0), "found exactly when there"); bool rm = l.Remove(x); A(rm == (b != 0), "Remove tells whether there was one"); a = 0; for (int i = 0; i < l.Count(); i++) a += l[i] == x; A(a == b - (rm ? 1 : 0), "one fewer"); A(l.Count() == n - (rm ? 1 : 0), "count"); vs_reach("plain"); }
VS_ENTRY(plainInt) { plain<vint>(); }
VS_ENTRY(plainUnsigned) { plain<vuint64_t>(); }
struct Foo { int v; };
VS_ENTRY(keyed) { SortedList<Ptr<Foo>> l; Ptr<Foo> f[3]; for (auto& x : f) x = Ptr(new Foo{1}); int cnt[3] = {}; int n = (int)vs_choice("n", 5); for (int i = 0; i < n; i++) { int w = (int)vs_choice("which", 3); cnt[w]++; vint p = l.Add(f[w]); A(l[p].Obj() == f[w].Obj(), "the pointer is where the addition says"); }
  for (int i = 0; i + 1 < n; i++) A(l[i].Obj() <= l[i + 1].Obj(), "ordered by address"); int w = (int)vs_choice("probe", 3); vint r = l.IndexOf(f[w].Obj()); A((r != -1) == (cnt[w] > 0), "found exactly when there"); A(l.Contains(f[w].Obj()) == (cnt[w] > 0), "Contains"); if (r != -1) A(l[r].Obj() == f[w].Obj(), "found position"); A(l.Remove(f[w].Obj()) == (cnt[w] > 0), "Remove"); vs_reach("keyed"); }
// a value that compares unordered is refused rather than misplaced
struct Part { int8_t v; bool nan; std::partial_ordering operator<=>(const Part& o) const { if (nan | o.nan) return std::partial_ordering::unordered; return v <=> o.v; } bool operator==(const Part& o) const { return !nan & !o.nan & (v == o.v); } };
VS_ENTRY(unordered) { SortedList<Part> l; int n = (int)vs_choice("n", 4); for (int i = 0; i < n; i++) l.Add(Part{(int8_t)vs_u8("x"), false}); for (int i = 0; i + 1 < n; i++) A(l[i].v <= l[i + 1].v, "non-decreasing order"); if (n) { MUST_THROW(l.Add(Part{0, true}), "unordered value must raise"); MUST_THROW(l.IndexOf(Part{0, true}), "unordered probe must raise"); } else A(l.IndexOf(Part{0, true}) == -1, "empty"); A(l.Count() == n, "unchanged"); vs_reach("unordered"); }
// long lists of known values (single or twice each), added in three orders; the value added, searched or removed is arbitrary
struct Wide { int v, id; bool operator==(const Wide& o) const { return v == o.v; } std::strong_ordering operator<=>(const Wide& o) const { return v <=> o.v; } };
VS_ENTRY(tallLists) { // shards=8 tshards=16
  int n = tall(4, 10), order = (int)vs_choice("order", 3), twice = (int)vs_choice("twice", 2), op = (int)vs_choice("op", 4); SortedList<Wide> l; for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n; l.Add(Wide{2 * (twice ? k / 2 : k) + 1, k}); }
  int x = (int)vs_range("x", -1, 2 * n + 1); bool there = false; for (int k = 0; k < n; k++) there = there | (x == 2 * (twice ? k / 2 : k) + 1); int gone = -1, extra = 0; vint r = -1;
  if (op < 2) { r = vs_concretize(op ? l.IndexOf(Wide{x, -1}) : (l.Contains(Wide{x, -1}) ? l.IndexOf(Wide{x, -1}) : -1)); A((r != -1) == there, "found exactly when there"); if (r != -1) { A((r >= 0) & (r < n), "position in range"); A(l[r].v == x, "found position holds the value"); } }
  else if (op == 2) { r = l.Add(Wide{x, n}); A(l[r].id == n, "the value is where the addition says"); extra = 1; } else { bool b = l.Remove(Wide{x, -1}); A(b == there, "Remove tells whether there was one"); gone = b; }
  vint c = l.Count(); A(c == n + extra - (gone > 0), "number of elements"); bool seen[260] = {}; for (int i = 0; i < c; i++) { int d = l[i].id; A((d >= 0) & (d <= n), "an element added"); if (d < 0 || d > n) return; A(!seen[d], "every element once"); seen[d] = true; A(l[i].v == (d == n ? x : 2 * (twice ? d / 2 : d) + 1), "element value"); if (i) A(l[i - 1].v <= l[i].v, "non-decreasing order"); } if (gone > 0) for (int d = 0; d < n; d++) if (!seen[d]) A(2 * (twice ? d / 2 : d) + 1 == x, "the removed element equals the argument"); vs_reach("tall");
}
