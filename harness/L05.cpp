// sources: Basic.cpp Exception.cpp
// bounds: histories of 4 (thorough 5) operations over arbitrary keys and values; dictionaries of 0..10 (thorough 20) arbitrary distinct keys with any following operation; dictionaries of 17 to 129 (thorough 257) fixed keys added in three orders with any key set, added, removed or read
// outside: longer histories; more keys
// assume: keys are taken from 256 consecutive numbers around zero: only their relative order can matter to code using comparisons alone
#include "coll.h"
#include "tall.h"
struct Map { int8_t k[64]; uint32_t v[64]; int n = 0; int find(int8_t x) const { for (int i = 0; i < n; i++) if (k[i] == x) return i; return -1; } void set(int8_t x, uint32_t y) { int i = find(x); if (i == -1) { i = n++; k[i] = x; } v[i] = y; } void remove(int8_t x) { int i = find(x); if (i == -1) return; n--; k[i] = k[n]; v[i] = v[n]; } };
static inline int64_t num(vint x) { return x; } static inline int64_t num(const Obj& o) { return (int8_t)o.get(); }
static inline uint32_t uval(uint32_t x) { return x; } static inline uint32_t uval(const Obj& o) { return o.get(); }
template<typename K> K key(int8_t x) { return K(x); } template<> Obj key<Obj>(int8_t x) { return Obj((uint32_t)(uint8_t)x ^ 0); }
// Obj keys are ordered as unsigned bytes, plain keys as signed numbers
template<typename K> static bool less(const K& a, const K& b) { return num(a) < num(b); } template<> bool less<Obj>(const Obj& a, const Obj& b) { return a.get() < b.get(); }
template<typename K, typename V> static void agree(const Dictionary<K, V>& d, const Map& m) {
  A(d.Count() == m.n, "number of entries"); A(d.Keys().Count() == m.n, "number of keys"); A(d.Values().Count() == m.n, "number of values");
  for (int i = 0; i + 1 < m.n; i++) A(less(d.Keys()[i], d.Keys()[i + 1]), "keys strictly ascending");
  for (int j = 0; j < m.n; j++) { bool in = false; for (int i = 0; i < m.n; i++) in = in | ((num(d.Keys()[i]) == m.k[j]) & (uval(d.Values()[i]) == m.v[j])); A(in, "every key with its own latest value"); }
}
template<typename K, typename V> static void step(Dictionary<K, V>& d, Map& m, int op) {
  int8_t x = (int8_t)vs_u8("k"); uint32_t y = vs_u32("v");
  switch (op) {
  case 0: A(d.Set(key<K>(x), V(y)), "Set succeeds"); m.set(x, y); break;
  case 1: { K a = key<K>(x); V b(y); A(d.Set(a, b), "Set succeeds"); A(num(a) == x, "key argument unchanged"); A(uval(b) == y, "value argument unchanged"); m.set(x, y); break; }
  case 2: { K a = key<K>(x); V b(y); bool has = m.find(x) != -1, thrown = false; try { A(d.Add(a, b), "Add succeeds"); } catch (const Error&) { thrown = true; } A(thrown == has, "Add raises exactly for an existing key"); A(num(a) == x, "key argument unchanged"); A(uval(b) == y, "value argument unchanged"); if (!has) m.set(x, y); break; }
  case 3: { bool has = m.find(x) != -1, thrown = false; try { A(d.Add(Pair<K, V>(key<K>(x), V(y))), "Add succeeds"); } catch (const Error&) { thrown = true; } A(thrown == has, "Add raises exactly for an existing key"); if (!has) m.set(x, y); break; }
  case 4: { K a = key<K>(x); bool has = m.find(x) != -1; A(d.Remove(a) == has, "Remove tells whether the key was there"); m.remove(x); break; }
  case 5: { K a = key<K>(x); int i = m.find(x); if (i != -1) { A(uval(d.Get(a)) == m.v[i], "Get"); A(uval(d[a]) == m.v[i], "operator[]"); } else { MUST_THROW(d.Get(a), "reading a missing key must raise"); MUST_THROW(d[a], "reading a missing key must raise"); } break; }
  case 6: A(d.Clear(), "Clear"); m.n = 0; break;
  case 7: { Dictionary<K, V> o(std::move(d)); A(d.Count() == 0, "moved-from dictionary is empty"); agree(o, m); d.Set(key<K>(x), V(y)); d = std::move(o); A(o.Count() == 0, "moved-from dictionary is empty"); break; }
  case 8: { K a = key<K>(x); V b(y); bool has = m.find(x) != -1, thrown = false; Pair<K, V> p(a, b); switch ((int)vs_choice("form", 3)) { case 0: try { d.Add(p); } catch (const Error&) { thrown = true; } break; case 1: try { d.Add(a, V(y)); } catch (const Error&) { thrown = true; } break; default: try { d.Add(key<K>(x), b); } catch (const Error&) { thrown = true; } } A(thrown == has, "Add raises exactly for an existing key"); A(num(a) == x, "key argument unchanged"); A(uval(b) == y, "value argument unchanged"); if (!has) m.set(x, y); break; }
  case 9: { K a = key<K>(x); V b(y); if (vs_choice("form", 2)) d.Set(a, V(y)); else d.Set(key<K>(x), b); A(num(a) == x, "key argument unchanged"); A(uval(b) == y, "value argument unchanged"); m.set(x, y); break; }
  }
}
template<typename K, typename V> static void hist(int N) { int64_t live = vs_live(); { Dictionary<K, V> d; Map m; for (int k = 0; k < N; k++) { step(d, m, (int)vs_choice("op", 10)); agree(d, m); } } A(vs_live() == live, "all storage released"); vs_reach("history"); }
VS_ENTRY(plain) { hist<vint, uint32_t>(BOUND(4, 5)); } // shards=8 tshards=32
VS_ENTRY(objects) { hist<Obj, Obj>(BOUND(3, 4)); } // shards=8 tshards=16
VS_ENTRY(mixed) { hist<vint, Obj>(3); }
VS_ENTRY(large) { // shards=8 tshards=16
  int n = (int)vs_choice("n", BOUND(11, 21)), op = (int)vs_choice("op", 10), down = (int)vs_choice("down", 2); Dictionary<vint, uint32_t> d; Map m; int8_t last = 0; for (int i = 0; i < n; i++) { int8_t x = (int8_t)vs_u8("k"); uint32_t y = vs_u32("v"); if (i) vs_assume(down ? x < last : last < x); last = x; d.Add(x, y); m.k[m.n] = x; m.v[m.n++] = y; } agree(d, m); step(d, m, op); agree(d, m); vs_reach("large");
}
// pointer keys and values are found through raw pointers; string keys by their characters
struct Foo { int v; };
VS_ENTRY(keyed) { Dictionary<Ptr<Foo>, Ptr<Foo>> d; Ptr<Foo> f[3]; for (auto& x : f) x = Ptr(new Foo{1}); int want[3] = {-1, -1, -1}, c = 0; for (int i = 0; i < 3; i++) { int k = (int)vs_choice("k", 3), v = (int)vs_choice("v", 3); d.Set(f[k], f[v]); if (want[k] == -1) c++; want[k] = v; } A(d.Count() == c, "count"); for (int i = 0; i < 3; i++) if (want[i] == -1) MUST_THROW(d[f[i].Obj()], "reading a missing key must raise"); else A(d[f[i].Obj()].Obj() == f[want[i]].Obj(), "value of the key"); int r = (int)vs_choice("gone", 3); A(d.Remove(f[r].Obj()) == (want[r] != -1), "Remove"); vs_reach("keyed"); }
// many known keys in three orders of addition; the key of the operation is arbitrary
VS_ENTRY(tallMaps) { // shards=8 tshards=16
  int n = tall(4, 10), order = (int)vs_choice("order", 3), op = (int)vs_choice("op", 4); Dictionary<vint, uint32_t> d; for (int i = 0; i < n; i++) { vint k = order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n; if (i & 1) d.Add(2 * k + 1, (uint32_t)(5 * k)); else d.Set(2 * k + 1, (uint32_t)(5 * k)); }
  vint x = vs_range("x", -1, 2 * n + 1), c = n; uint32_t y = vs_u32("v"); bool there = (x >= 1) & (x <= 2 * n - 1) & ((x & 1) == 1), put = false, gone = false;
  switch (op) { case 0: A(d.Set(x, y), "Set succeeds"); put = true; if (!there) c++; break; case 1: { bool thrown = false; try { d.Add(x, y); } catch (const Error&) { thrown = true; } A(thrown == there, "Add raises exactly for an existing key"); if (!thrown) { put = true; c++; } break; } case 2: { bool b = d.Remove(x); A(b == there, "Remove tells whether the key was there"); gone = b; if (b) c--; break; } case 3: x = vs_concretize(x); if (there) { A(d.Get(x) == (uint32_t)(5 * ((x - 1) / 2)), "Get"); A(d[x] == (uint32_t)(5 * ((x - 1) / 2)), "operator[]"); } else { MUST_THROW(d.Get(x), "reading a missing key must raise"); MUST_THROW(d[x], "reading a missing key must raise"); } break; }
  x = vs_concretize(x); A(d.Count() == c, "number of entries"); A(d.Values().Count() == c, "number of values"); vint last = -5; for (vint i = 0; i < d.Count(); i++) { vint k = d.Keys()[i]; A(last < k, "keys strictly ascending"); last = k; bool mine = k == x; A(mine | ((k >= 1) & (k <= 2 * n - 1) & ((k & 1) == 1)), "only keys that were set"); if (gone) A(!mine, "the removed key is gone"); A(d.Values()[i] == (uint32_t)vs_ite64(mine & put, y, (uint32_t)(5 * ((k - 1) / 2))), "every key with its own latest value"); } vs_reach("tall");
}
