// sources: Basic.cpp Exception.cpp
// bounds: histories of 4 (thorough 5) operations over arbitrary keys and values; groups of 0..5 (thorough 7) arbitrary distinct keys with 0..3 values each and any following operation; groups of 17 to 129 fixed keys with a value each, one of them with as many values, and any key or value added, removed or read
// outside: longer histories; more keys or values
// assume: keys and values are taken from 256 consecutive numbers around zero: only their relative order and equality can matter to code using comparisons alone
#include "coll.h"
#include "tall.h"
struct Ent { int8_t k; int8_t v; bool in; };
struct Multi { Ent e[40]; int n = 0; void add(int8_t k, int8_t v) { e[n++] = {k, v, true}; } bool has(int8_t k) const { bool r = false; for (int i = 0; i < n; i++) if (e[i].in && e[i].k == k) return true; return r; }
  int first(int8_t k, int8_t v) const { for (int i = 0; i < n; i++) if (e[i].in && e[i].k == k && e[i].v == v) return i; return -1; } int total() const { int c = 0; for (int i = 0; i < n; i++) c += e[i].in; return c; } };
template<typename T> static int64_t nm(const T& x) { return (int64_t)x; } template<> int64_t nm<Obj>(const Obj& o) { return (int8_t)o.get(); }
template<typename T> static T mk(int8_t x) { return T(x); } template<> Obj mk<Obj>(int8_t x) { return Obj((uint32_t)(int32_t)x); }
template<typename K> static bool less(const K& a, const K& b) { return nm(a) < nm(b); } template<> bool less<Obj>(const Obj& a, const Obj& b) { return a.get() < b.get(); }
template<typename K, typename V> static void agree(const Group<K, V>& g, const Multi& m) {
  vint keys = g.Count(); A(g.Keys().Count() == keys, "number of keys"); for (vint i = 0; i + 1 < keys; i++) A(less(g.Keys()[i], g.Keys()[i + 1]), "keys strictly ascending"); vint c = 0;
  for (vint i = 0; i < keys; i++) { const List<V>& l = g.GetByIndex(i); A(l.Count() > 0, "no key without values"); c += l.Count(); int64_t k = nm(g.Keys()[i]); int pos = 0;
    for (int j = 0; j < m.n; j++) if (m.e[j].in && m.e[j].k == k) { A(pos < l.Count(), "every value added is there"); if (pos < l.Count()) A(nm(l[pos]) == m.e[j].v, "the key's own values in order of addition"); pos++; } A(pos == l.Count(), "nothing but the values added"); }
  A(c == m.total(), "number of values");
}
template<typename K, typename V> static void step(Group<K, V>& g, Multi& m, int op) {
  int8_t x = (int8_t)vs_u8("k"), y = (int8_t)vs_u8("v"); K k = mk<K>(x); V v = mk<V>(y);
  switch (op) {
  case 0: A(g.Add(mk<K>(x), mk<V>(y)), "Add succeeds"); m.add(x, y); break;
  case 1: A(g.Add(k, v), "Add succeeds"); A(nm(k) == x, "key argument unchanged"); A(nm(v) == y, "value argument unchanged"); m.add(x, y); break;
  case 2: { bool has = m.has(x); A(g.Contains(k) == has, "Contains key"); A(g.Remove(k) == has, "Remove tells whether the key was there"); for (int i = 0; i < m.n; i++) if (m.e[i].in && m.e[i].k == x) m.e[i].in = false; break; }
  case 3: { int i = m.first(x, y); A(g.Contains(k, v) == (i != -1), "Contains key and value"); A(g.Remove(k, v) == (i != -1), "Remove tells whether the value was there"); if (i != -1) m.e[i].in = false; break; }
  case 4: { if (m.has(x)) { const List<V>& l = g.Get(k); A(&l == &g[k], "both ways of reading"); int pos = 0; for (int j = 0; j < m.n; j++) if (m.e[j].in && m.e[j].k == x) { A(pos < l.Count(), "values of the key"); if (pos < l.Count()) A(nm(l[pos]) == m.e[j].v, "values of the key"); pos++; } A(pos == l.Count(), "values of the key"); } else { MUST_THROW(g.Get(k), "reading a missing key must raise"); MUST_THROW(g[k], "reading a missing key must raise"); } break; }
  case 5: { vint i; if (!inRange("index", 0, g.Count() - 1, i)) MUST_THROW(g.GetByIndex(i), "index out of range must raise"); break; }
  case 6: A(g.Clear(), "Clear"); m.n = 0; break;
  case 7: { Group<K, V> o(std::move(g)); A(g.Count() == 0, "moved-from group is empty"); agree(o, m); g.Add(k, v); g = std::move(o); A(o.Count() == 0, "moved-from group is empty"); break; }
  case 8: { Pair<K, V> p(k, v); switch ((int)vs_choice("form", 4)) { case 0: g.Add(p); break; case 1: g.Add(k, mk<V>(y)); break; case 2: g.Add(mk<K>(x), v); break; default: g.Add(Pair<K, V>(k, v)); } A(nm(k) == x, "key argument unchanged"); A(nm(v) == y, "value argument unchanged"); m.add(x, y); break; }
  }
}
template<typename K, typename V> static void hist(int N) { int64_t live = vs_live(); { Group<K, V> g; Multi m; for (int k = 0; k < N; k++) { step(g, m, (int)vs_choice("op", 9)); agree(g, m); } } A(vs_live() == live, "all storage released"); vs_reach("history"); }
VS_ENTRY(plain) { hist<vint, vint>(BOUND(4, 5)); } // shards=8 tshards=32
VS_ENTRY(objects) { hist<Obj, Obj>(BOUND(3, 4)); } // shards=8 tshards=16
VS_ENTRY(large) { // shards=8 tshards=16
  int n = (int)vs_choice("n", BOUND(6, 8)), op = (int)vs_choice("op", 9), down = (int)vs_choice("down", 2); Group<vint, vint> g; Multi m; int8_t last = 0; for (int i = 0; i < n; i++) { int8_t x = (int8_t)vs_u8("k"); if (i) vs_assume(down ? x < last : last < x); last = x; int c = i == n / 2 ? 1 + (int)vs_choice("c", 6) : 1; for (int j = 0; j < c; j++) { int8_t y = (int8_t)vs_u8("v"); g.Add(x, y); m.add(x, y); } } agree(g, m); step(g, m, op); agree(g, m); vs_reach("large");
}
struct Foo { int v; };
VS_ENTRY(keyed) { Group<Ptr<Foo>, Ptr<Foo>> g; Ptr<Foo> f[2]; for (auto& x : f) x = Ptr(new Foo{1}); int c[2][2] = {}; for (int i = 0; i < 3; i++) { int k = (int)vs_choice("k", 2), v = (int)vs_choice("v", 2); g.Add(f[k], f[v]); c[k][v]++; } for (int i = 0; i < 2; i++) { bool has = c[i][0] + c[i][1] > 0; A(g.Contains(f[i].Obj()) == has, "Contains"); if (has) A(g[f[i].Obj()].Count() == c[i][0] + c[i][1], "values"); for (int j = 0; j < 2; j++) A(g.Contains(f[i].Obj(), f[j].Obj()) == (c[i][j] > 0), "Contains value"); } int k = (int)vs_choice("rk", 2), v = (int)vs_choice("rv", 2); A(g.Remove(f[k].Obj(), f[v].Obj()) == (c[k][v] > 0), "Remove value"); vs_reach("keyed"); }
// many keys, one of them with many values; the key or value of the operation is arbitrary
VS_ENTRY(tallKeys) { // shards=8 tshards=8
  int n = tall(4, 6), order = (int)vs_choice("order", 3), op = (int)vs_choice("op", 4); Group<vint, vint> g; for (int i = 0; i < n; i++) { vint k = order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n; g.Add(2 * k + 1, 5 * k); } vint x = vs_range("x", -1, 2 * n + 1), y = vs_range("y", 0, 1000), c = n; bool there = (x >= 1) & (x <= 2 * n - 1) & ((x & 1) == 1), put = false, gone = false; 
  switch (op) { case 0: A(g.Add(x, y), "Add succeeds"); put = true; if (!there) c++; break; case 1: { A(g.Contains(x) == there, "Contains key"); bool b = g.Remove(x); A(b == there, "Remove tells whether the key was there"); gone = b; if (b) c--; break; } case 2: { vint v = vs_choice("which", 2) ? 5 * ((x - 1) / 2) : -1; bool b = g.Remove(x, v); A(b == (there & (v != -1)), "Remove tells whether the value was there"); gone = b; if (b) c--; break; } case 3: if (there) { A(g.Get(x).Count() == 1, "values of the key"); A(g[x][0] == 5 * ((x - 1) / 2), "values of the key"); } else { MUST_THROW(g.Get(x), "reading a missing key must raise"); A(!g.Contains(x, 5), "Contains"); } break; }
  x = vs_concretize(x); A(g.Count() == c, "number of keys"); vint last = -5; for (vint i = 0; i < g.Count(); i++) { vint k = g.Keys()[i]; A(last < k, "keys strictly ascending"); last = k; bool mine = k == x, own = (k >= 1) & (k <= 2 * n - 1) & ((k & 1) == 1); A(mine | own, "only keys that were added"); if (gone) A(!mine, "the removed key is gone"); const List<vint>& l = g.GetByIndex(i); vint w = (own & !gone) + (mine & put); if (gone) w = 1; A(l.Count() == w, "number of values of a key"); if (l.Count() == 2) { A(l[0] == 5 * ((k - 1) / 2), "values in order of addition"); A(l[1] == y, "values in order of addition"); } else A(l[0] == vs_ite64(own, 5 * ((k - 1) / 2), y), "value of a key"); } vs_reach("tall keys");
}
VS_ENTRY(tallValues) { // shards=4 tshards=8
  int64_t live = vs_live(); { int n = tall(4, 12), p = spotIn(n), op = (int)vs_choice("op", 4); Group<vint, vint> g; g.Add(1, 9); for (int i = 0; i < n; i++) g.Add(2, 3 * i); g.Add(3, 9); vint y = vs_range("y", 2000, 3000); int c = n, skip = -1; switch (op) { case 0: g.Add(2, y); c++; break; case 1: A(g.Contains(2, 3 * p), "Contains"); A(g.Remove(2, 3 * p), "Remove"); skip = p; c--; break; case 2: A(!g.Remove(2, y), "Remove of a missing value"); A(!g.Contains(2, y), "Contains of a missing value"); break; case 3: while (c > 1) { A(g.Remove(2, 3 * (n - c)), "Remove"); c--; } skip = -2; break; }
    A(g.Count() == 3, "number of keys"); const List<vint>& l = g[2]; A(l.Count() == c, "number of values"); for (int i = 0; i < c; i++) A(l[i] == (op == 0 && i == n ? y : skip == -2 ? 3 * (n - 1) : 3 * (skip >= 0 && i >= skip ? i + 1 : i)), "values in order of addition"); A(g[1].Count() == 1, "other keys"); A(g[3][0] == 9, "other keys"); A(g.Remove(2), "Remove"); A(g.Count() == 2, "number of keys"); } A(vs_live() == live, "all storage released"); vs_reach("tall values");
}
