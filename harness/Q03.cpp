// sources: Basic.cpp Exception.cpp
// bounds: all pairs of sequences of 0..6 (thorough 12) elements each over all 32-bit values, given as list, array, sorted list (elements in order), lazy sequence or buffer; signed, unsigned, nested and partially ordered element types; transitivity over all triples of 0..2 (thorough 3) elements; sequences of 17 to 257 (thorough 300) elements equal except at one place or at the end
// outside: longer sequences
#define SEQ_CAP 720
#include "enum.h"
#include "tall.h"
template<typename T> static int sgn(T a, T b) { return (int)vs_ite64(a < b, -1, vs_ite64(a == b, 0, 1)); }
template<typename T> static int lex(const T* a, int n, const T* b, int k) { int r = n < k ? -1 : n > k ? 1 : 0; for (int i = (n < k ? n : k) - 1; i >= 0; i--) { int s = sgn(a[i], b[i]); r = (int)vs_ite64(s != 0, s, r); } return r; }
template<typename O> static int num(O o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
template<typename T> struct Src { T e[16]; int n; List<T> l; Array<T> a; Src(const char* name, int max, bool small) { n = (int)vs_choice(name, max + 1); a.Resize(n); for (int i = 0; i < n; i++) { e[i] = (T)vs_u64(name); l.Add(e[i]); a.Set(i, e[i]); } }
  template<typename F> auto with(int kind, F&& f) { switch (kind) { case 0: return f(static_cast<const IEnumerable<T>&>(l)); case 1: return f(static_cast<const IEnumerable<T>&>(a)); case 2: { auto z = From(l).Select([](T x) { return x; }); return f(static_cast<const IEnumerable<T>&>(z)); } default: { auto z = From(e, e + n); return f(static_cast<const IEnumerable<T>&>(z)); } } } };
template<typename T> static void two(int max) { Src<T> x("x", max, false), y("y", max, false); int kx = (int)vs_choice("kx", 4), ky = (int)vs_choice("ky", 4); auto o = x.with(kx, [&](const IEnumerable<T>& p) { return y.with(ky, [&](const IEnumerable<T>& q) { return CompareEnumerable(p, q); }); }); A(num(o) == lex(x.e, x.n, y.e, y.n), "lexicographic order"); vs_reach("two"); }
VS_ENTRY(unsigned32) { two<uint32_t>(BOUND(4, 8)); } // shards=8
VS_ENTRY(signed64) { two<int64_t>(BOUND(4, 8)); } // shards=8
VS_ENTRY(signed8) { two<int8_t>(BOUND(3, 6)); } // shards=4
VS_ENTRY(characters) { two<wchar_t>(BOUND(3, 6)); } // shards=4
VS_ENTRY(large) { Src<uint32_t> x("x", BOUND(10, 15), false), y("y", BOUND(10, 15), false); A(num(CompareEnumerable(x.l, y.a)) == lex(x.e, x.n, y.e, y.n), "lexicographic order"); vs_reach("large"); } // shards=8
VS_ENTRY(laws) { const int M = BOUND(2, 3); Src<uint32_t> x("x", M, false), y("y", M, false), z("z", M, false); int a = num(CompareEnumerable(x.l, y.l)), b = num(CompareEnumerable(y.l, z.l)), c = num(CompareEnumerable(x.l, z.l)); A(num(CompareEnumerable(y.l, x.l)) == -a, "antisymmetric"); if (a <= 0 && b <= 0) { A(c <= 0, "transitive"); if (a < 0 || b < 0) A(c < 0, "strictly transitive"); } A(num(CompareEnumerable(x.l, x.a)) == 0, "reflexive"); vs_reach("laws"); } // shards=8 tshards=16
VS_ENTRY(maps) { // shards=4
  typedef Dictionary<vint, vint> D; D d[2]; int n[2]; vint k[2][4], v[2][4]; for (int t = 0; t < 2; t++) { n[t] = (int)vs_choice("n", BOUND(3, 4)); for (int i = 0; i < n[t]; i++) { k[t][i] = (int8_t)vs_u8("k"); v[t][i] = (int8_t)vs_u8("v"); if (i) vs_assume(k[t][i - 1] < k[t][i]); d[t].Add(k[t][i], v[t][i]); } }
  int r = n[0] < n[1] ? -1 : n[0] > n[1] ? 1 : 0; for (int i = (n[0] < n[1] ? n[0] : n[1]) - 1; i >= 0; i--) { int s = sgn(v[0][i], v[1][i]); r = s ? s : r; s = sgn(k[0][i], k[1][i]); r = s ? s : r; } A(num(CompareEnumerable(d[0], d[1])) == r, "pairs compare by key, then value"); vs_reach("maps");
}
// elements of which some are not comparable: the first pair that is not equivalent decides
struct Part { int32_t v; std::partial_ordering operator<=>(const Part& o) const { return (v & 1) | (o.v & 1) ? std::partial_ordering::unordered : (std::partial_ordering)(v <=> o.v); } bool operator==(const Part& o) const { return !((v & 1) | (o.v & 1)) & (v == o.v); } };
VS_ENTRY(partly) { // shards=2
  List<Part> a; Array<Part> b; Part x[4], y[4]; int n = (int)vs_choice("n", 4), m = (int)vs_choice("m", 4); b.Resize(m); for (int i = 0; i < n; i++) { x[i] = Part{(int32_t)vs_u32("x")}; a.Add(x[i]); } for (int i = 0; i < m; i++) { y[i] = Part{(int32_t)vs_u32("y")}; b.Set(i, y[i]); }
  int64_t r = n < m ? -1 : n > m ? 1 : 0; for (int i = (n < m ? n : m) - 1; i >= 0; i--) { int64_t s = vs_ite64((x[i].v | y[i].v) & 1, 2, sgn(x[i].v, y[i].v)); r = vs_ite64(s != 0, s, r); }
  auto o = vs_choice("lazy", 2) ? CompareEnumerable(From(a), From(b)) : CompareEnumerable(a, b); int64_t g = o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; A(g == r, "the first pair that is not equivalent decides"); vs_reach("partly");
}
VS_ENTRY(tallOnes) { int n = tall(), p = spotIn(n), cut = (int)vs_choice("cut", 3), kind = (int)vs_choice("kind", 3); List<int32_t> a; Array<int32_t> b(n - (cut == 2)); int32_t x = (int32_t)vs_u32("x"), y = (int32_t)vs_u32("y"); for (int i = 0; i < n - (cut == 1); i++) a.Add(i == p ? x : i * 7); for (int i = 0; i < n - (cut == 2); i++) b.Set(i, i == p ? y : i * 7); bool xin = p < n - (cut != 0); int r = cut == 0 ? 0 : cut == 1 ? -1 : 1, s = xin ? sgn(x, y) : 0; r = (int)vs_ite64(s != 0, s, r); auto o = kind == 0 ? CompareEnumerable(a, b) : kind == 1 ? CompareEnumerable(From(a), From(b)) : CompareEnumerable(From(a).Select([](int32_t v) { return v; }), b); A(num(o) == r, "lexicographic order"); vs_reach("tall"); } // shards=2
