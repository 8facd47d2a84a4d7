// sources: Basic.cpp Exception.cpp
// bounds: groups of 0..4 (thorough 5) keys on either side in every relative arrangement of the keys, 1..2 values per key; up to 8 (thorough 12) keys on one side against 0..2 on the other; 17 to 129 (thorough 257) fixed keys on either side, overlapping in a third of them
// outside: larger groups; keys whose order is inconsistent
// assume: keys are 8-bit numbers: code that only compares sees nothing but their relative order
#include "coll.h"
#include "tall.h"
typedef Group<int, uint32_t> G1; typedef Group<int, uint64_t> G2;
struct Side { int n; int8_t k[16]; int c[16]; uint32_t v[16][2]; Side(const char* name, int min, int max, bool vals) { n = min + (int)vs_choice(name, max - min + 1); for (int i = 0; i < n; i++) { k[i] = (int8_t)vs_u8(name); if (i) vs_assume(k[i - 1] < k[i]); c[i] = vals ? 1 + (int)vs_choice("values", 2) : 1; for (int j = 0; j < c[i]; j++) v[i][j] = vs_u32(name); } }
  template<typename G> void fill(G& g, bool down) { for (int t = 0; t < n; t++) { int i = down ? n - 1 - t : t; for (int j = 0; j < c[i]; j++) g.Add(k[i], v[i][j]); } }
  template<typename L> void is(int i, const L& l, const char* id) const { A(l.Count() == c[i], id); for (int j = 0; j < c[i] && j < l.Count(); j++) A(l[j] == v[i][j], id); }
  template<typename G> void same(const G& g, const char* id) const { A(g.Count() == n, id); for (int i = 0; i < n && i < g.Count(); i++) { A(g.Keys()[i] == k[i], id); is(i, g.GetByIndex(i), id); } } };
static void join(const Side& a, const Side& b) {
  G1 f; G2 s; Side x = a, y = b; bool down = vs_choice("down", 2); x.fill(f, down); y.fill(s, down); int i = 0, j = 0; int last = -1000;
  auto next = [&](int key) { A(last < key, "each key once, in ascending order"); last = key; };
  GroupInnerJoin(f, s, [&](int key, const List<uint32_t>& l) { next(key); A(i < a.n, "only keys of the first group"); if (i < a.n) { A(key == a.k[i], "keys of the first group in order"); a.is(i, l, "values of the first group"); bool other = false; for (int t = 0; t < b.n; t++) other = other | (b.k[t] == key); A(!other, "discarded from the first only when the second does not have the key"); } i++; vs_reach("first"); },
    [&](int key, const List<uint64_t>& l) { next(key); A(j < b.n, "only keys of the second group"); if (j < b.n) { A(key == b.k[j], "keys of the second group in order"); b.is(j, l, "values of the second group"); bool other = false; for (int t = 0; t < a.n; t++) other = other | (a.k[t] == key); A(!other, "discarded from the second only when the first does not have the key"); } j++; vs_reach("second"); },
    [&](int key, const List<uint32_t>& l, const List<uint64_t>& r) { next(key); A((i < a.n) & (j < b.n), "only keys of both groups"); if (i < a.n && j < b.n) { A((key == a.k[i]) & (key == b.k[j]), "accepted only when both groups have the key"); a.is(i, l, "values of the first group"); b.is(j, r, "values of the second group"); } i++; j++; vs_reach("both"); });
  A(i == a.n, "every key of the first group visited"); A(j == b.n, "every key of the second group visited"); a.same(f, "first group unchanged"); b.same(s, "second group unchanged");
}
VS_ENTRY(plain) { Side a("first", 0, BOUND(4, 5), false), b("second", 0, BOUND(4, 5), false); join(a, b); } // shards=4 tshards=8
VS_ENTRY(values) { Side a("first", 0, BOUND(2, 3), true), b("second", 0, BOUND(2, 3), true); join(a, b); } // shards=4 tshards=8
VS_ENTRY(lopsided) { Side a("first", 5, BOUND(8, 12), false), b("second", 0, BOUND(2, 3), false); if (vs_choice("swap", 2)) join(a, b); else join(b, a); } // shards=4 tshards=8
VS_ENTRY(tallJoins) { // shards=2
  int n = tall(4, 5), k = vs_choice("other", 2) ? n : 5; int sa = (int)vs_choice("sa", 3) + 1, sb = (int)vs_choice("sb", 3) + 1; uint32_t base = 500; G1 f; uint32_t sym = vs_u32("v"); int at = spotIn(n); G2 s; for (int i = 0; i < n; i++) { f.Add(sa * i, base + i); f.Add(sa * i, i == at ? sym : base); } for (int i = k - 1; i >= 0; i--) s.Add(sb * i, base + 3 * i); int i = 0, j = 0, last = -1; auto next = [&](int key) { A(last < key, "each key once, in ascending order"); last = key; }; auto one = [&](int key, const List<uint32_t>& l) { A(key == sa * i, "keys of the first group in order"); A(l.Count() == 2, "values of the first group"); A(l[0] == base + i, "values of the first group"); A(l[1] == (i == at ? sym : base), "values of the first group"); i++; }; auto two = [&](int key, const List<uint64_t>& l) { A(key == sb * j, "keys of the second group in order"); A(l.Count() == 1, "values of the second group"); A(l[0] == (uint64_t)(base + 3 * j), "values of the second group"); j++; };
  GroupInnerJoin(f, s, [&](int key, const List<uint32_t>& l) { next(key); one(key, l); A(!s.Contains(key), "only in the first"); }, [&](int key, const List<uint64_t>& l) { next(key); two(key, l); A(!f.Contains(key), "only in the second"); }, [&](int key, const List<uint32_t>& l, const List<uint64_t>& r) { next(key); one(key, l); two(key, r); }); A(i == n, "every key of the first group visited"); A(j == k, "every key of the second group visited"); vs_reach("tall");
}
