// sources: Basic.cpp Exception.cpp Strings/String.cpp
// bounds: tuples of 0 to 6 and pairs of arbitrary components of 8 to 64 bit integers (signed and unsigned), life-cycle checked objects, references and strings of one character; all values of all components; strong, weak and partial orders
// outside: tuples with more than 6 components; converting a tuple of references by moving it (it moves the referents); copying a one-component tuple through a non-const name (does not compile)
#include "coll.h"
#include "Strings/String.h"
#include "Primitives/Tuple.h"
#include "Collections/Pair.h"
static int64_t any() { return (int64_t)vs_u64("a"); }
template<typename X, typename Y> static void order(const X& x, const Y& y, int want, bool unordered = false) {
  auto r = x <=> y; A((r < 0) == (!unordered & (want < 0)), "order"); A((r > 0) == (!unordered & (want > 0)), "order"); A((r == 0) == (!unordered & (want == 0)), "order"); A((x < y) == (!unordered & (want < 0)), "less"); A((x <= y) == (!unordered & (want <= 0)), "not greater"); A((x > y) == (!unordered & (want > 0)), "greater"); A((x >= y) == (!unordered & (want >= 0)), "not less"); }
template<typename X, typename Y> static void equal(const X& x, const Y& y, bool want) { A((x == y) == want, "equality"); A((x != y) == !want, "inequality"); A((y == x) == want, "equality"); }
template<typename P, typename Q> static int64_t cmp(P a, Q b) { return vs_ite64(a < b, -1, vs_ite64(a > b, 1, 0)); }
static int64_t then(int64_t a, int64_t b) { return vs_ite64(a != 0, a, b); }
VS_ENTRY(zero) { Tuple<> a, b; order(a, b, 0); equal(a, b, true); Tuple<> c(a); c = b; A(c == a, "equality"); vs_reach("zero"); }
VS_ENTRY(one) { int64_t a = any(), b = any(); const Tuple<int64_t> x(a), y(b); order(x, y, (int)cmp(a, b)); equal(x, y, a == b); Tuple<int64_t> z(x); A(z.get<0>() == a, "copied"); z = y; A(get<0>(z) == b, "assigned"); z.get<0>() = a; A(z.get<0>() == a, "changed"); vs_reach("one"); }
VS_ENTRY(two) { int8_t a = (int8_t)vs_u8("a"), c = (int8_t)vs_u8("c"); uint32_t b = vs_u32("b"), d = vs_u32("d"); const Tuple<int8_t, uint32_t> x(a, b), y(c, d); int want = (int)then(cmp(a, c), cmp(b, d)); order(x, y, want); equal(x, y, (a == c) & (b == d)); const Pair<int8_t, uint32_t> p(a, b), q(c, d); order(p, q, want); equal(p, q, (a == c) & (b == d)); vs_reach("two"); }
VS_ENTRY(three) { int64_t a = any(), d = any(); uint8_t b = vs_u8("b"), e = vs_u8("e"); int32_t c = (int32_t)vs_u32("c"), f = (int32_t)vs_u32("f"); const Tuple<int64_t, uint8_t, int32_t> x(a, b, c), y(d, e, f); order(x, y, (int)then(cmp(a, d), then(cmp(b, e), cmp(c, f)))); equal(x, y, (a == d) & (b == e) & (c == f)); vs_reach("three"); }
VS_ENTRY(four) { uint32_t v[8]; for (auto& i : v) i = vs_u32("v"); const Tuple<uint32_t, uint32_t, uint32_t, uint32_t> x(v[0], v[1], v[2], v[3]), y(v[4], v[5], v[6], v[7]); order(x, y, (int)then(cmp(v[0], v[4]), then(cmp(v[1], v[5]), then(cmp(v[2], v[6]), cmp(v[3], v[7]))))); equal(x, y, (v[0] == v[4]) & (v[1] == v[5]) & (v[2] == v[6]) & (v[3] == v[7])); vs_reach("four"); }
// components of different but comparable types
VS_ENTRY(mixed) { int64_t a = any(); int32_t b = (int32_t)vs_u32("b"), c = (int32_t)vs_u32("c"); int64_t d = any(); const Tuple<int64_t, int32_t> x(a, b); const Tuple<int32_t, int64_t> y(c, d); int want = (int)then(cmp(a, (int64_t)c), cmp((int64_t)b, d)); order(x, y, want); equal(x, y, (a == c) & (b == d)); const Pair<int64_t, int32_t> p(a, b); const Pair<int32_t, int64_t> q(c, d); order(p, q, want); equal(p, q, (a == c) & (b == d)); Tuple<int64_t, int64_t> z(y); A(z.get<0>() == c, "converted"); A(z.get<1>() == d, "converted"); z = x; A(z.get<0>() == a, "converted"); A(z.get<1>() == b, "converted"); Tuple<int32_t, int8_t> n(x); A(n.get<0>() == (int32_t)a, "converted"); A(n.get<1>() == (int8_t)b, "converted"); Pair<int64_t, int64_t> r(q); A(r.key == c, "converted"); A(r.value == d, "converted"); vs_reach("mixed"); }
// weak and partial component orders: the first component that is not equivalent decides
struct Weak { int64_t v; std::weak_ordering operator<=>(const Weak& o) const { return (v >> 1) <=> (o.v >> 1); } bool operator==(const Weak& o) const { return (v >> 1) == (o.v >> 1); } };
struct Part { int64_t v; std::partial_ordering operator<=>(const Part& o) const { return (v & 1) | (o.v & 1) ? std::partial_ordering::unordered : (std::partial_ordering)(v <=> o.v); } bool operator==(const Part& o) const { return !((v & 1) | (o.v & 1)) & (v == o.v); } };
VS_ENTRY(weaker) { int64_t a = any(), b = any(), c = any(), d = any(); const Tuple<Weak, int64_t> x(Weak{a}, b), y(Weak{c}, d); int want = (int)then(cmp(a >> 1, c >> 1), cmp(b, d)); order(x, y, want); equal(x, y, ((a >> 1) == (c >> 1)) & (b == d)); const Pair<Weak, int64_t> p(Weak{a}, b), q(Weak{c}, d); order(p, q, want);
  const Tuple<int64_t, Part> u(a, Part{b}), v(c, Part{d}); bool un = (b & 1) | (d & 1); order(u, v, (int)then(cmp(a, c), cmp(b, d)), (a == c) & un); equal(u, v, (a == c) & !un & (b == d)); const Pair<int64_t, Part> s(a, Part{b}), t(c, Part{d}); order(s, t, (int)then(cmp(a, c), cmp(b, d)), (a == c) & un); const Pair<Part, int64_t> k(Part{b}, a), l(Part{d}, c); order(k, l, (int)then(cmp(b, d), cmp(a, c)), un); const Tuple<Part, int64_t> f(Part{b}, a), g(Part{d}, c); order(f, g, (int)then(cmp(b, d), cmp(a, c)), un); equal(f, g, !un & (b == d) & (a == c)); const Tuple<int64_t, Part, int64_t> h(a, Part{b}, c), i(c, Part{d}, a); order(h, i, (int)then(cmp(a, c), then(cmp(b, d), cmp(c, a))), (a == c) & un); vs_reach("weaker"); }
// order axioms on three tuples
VS_ENTRY(axioms) { uint16_t v[6]; for (auto& i : v) i = vs_u16("v"); const Tuple<uint16_t, uint16_t> x(v[0], v[1]), y(v[2], v[3]), z(v[4], v[5]); bool xy = x < y, yz = y < z, xz = x < z, yx = y < x; A(!(xy & yz) | xz, "transitive"); A(!(xy & yx), "antisymmetric"); A(xy | yx | (x == y), "total"); vs_reach("axioms"); }
// components keep to themselves through copies, moves, assignment and change of one component
VS_ENTRY(objects) { int64_t live = vs_live(); { uint32_t a = vs_u32("a"), b = vs_u32("b"), c = vs_u32("c"), d = vs_u32("d"); Tuple<Obj, int64_t, Obj> x(Obj(a), 7, Obj(b)); A(x.get<0>().get() == a, "component"); A(x.get<1>() == 7, "component"); A(x.get<2>().get() == b, "component"); aliveIs(2, "one object per component"); const auto& cx = x; Tuple<Obj, int64_t, Obj> y(cx); A(x.get<0>().get() == a, "source kept"); A(y.get<2>().get() == b, "copied"); aliveIs(4, "a copy has its own"); y.get<0>() = Obj(c); A(x.get<0>().get() == a, "other tuple kept"); A(y.get<0>().get() == c, "changed"); A(y.get<2>().get() == b, "neighbour kept"); y.get<1>() = 9; A(y.get<0>().get() == c, "neighbour kept"); A(x.get<1>() == 7, "other tuple kept"); x = y; A(x.get<0>().get() == c, "assigned"); A(x.get<1>() == 9, "assigned"); A(y.get<0>().get() == c, "source kept"); Tuple<Obj, int64_t, Obj> z(std::move(y)); A(z.get<0>().get() == c, "moved"); A(z.get<1>() == 9, "moved"); A(z.get<2>().get() == b, "moved"); z.get<2>() = Obj(d); x = std::move(z); A(x.get<2>().get() == d, "move assigned"); A(x.get<0>().get() == c, "move assigned"); auto& [p, q, r] = x; A(&p == &x.get<0>(), "structured binding"); A(q == 9, "structured binding"); A(r.get() == d, "structured binding");
    Obj o(a); Tuple<Obj, Obj> t(o, Obj(b)); A(o.get() == a, "argument kept"); A(t.get<0>().get() == a, "component"); Tuple u{Obj(a), (int8_t)3}; A(u.get<0>().get() == a, "deduced"); Pair<Obj, Obj> k{Obj(a), Obj(b)}; const Pair<Obj, Obj>& ck = k; Pair<Obj, Obj> l(ck); l.key = Obj(d); A(k.key.get() == a, "other pair kept"); A(l.value.get() == b, "neighbour kept"); k = l; A(k.key.get() == d, "assigned"); Pair<Obj, Obj> m(std::move(l)); A(m.key.get() == d, "moved"); A(m.value.get() == b, "moved"); k = std::move(m); A(k.value.get() == b, "move assigned"); auto& [kk, kv] = k; A(&kk == &k.key, "structured binding"); A(&kv == &k.value, "structured binding"); A(&k.get<0>() == &k.key, "get"); A(&k.get<1>() == &k.value, "get"); }
  aliveIs(0, "every component destroyed"); A(vs_live() == live, "all storage released"); vs_reach("objects"); }
VS_ENTRY(references) { int64_t a = any(), b = any(), c = any(), d = any(); int64_t x = a, y = b; Tuple<int64_t&, int64_t> t(x, y); A(&t.get<0>() == &x, "refers to the object"); t.get<0>() = c; A(x == c, "changes through the reference"); t.get<1>() = d; A(y == b, "a value is a copy"); int64_t z = d; Tuple<int64_t&, int64_t> u(z, b); const int64_t& r = t.get<0>(); A(&r == &x, "refers to the object"); Tuple<int64_t, int64_t> v((const Tuple<int64_t&, int64_t>&)t); A(v.get<0>() == c, "converted"); x = a; A(v.get<0>() == c, "a value is a copy"); A(t.get<0>() == a, "refers to the object"); Pair<int64_t&, const int64_t&> p(x, y); A(&p.key == &x, "refers to the object"); A(&p.value == &y, "refers to the object"); p.key = d; A(x == d, "changes through the reference"); Pair<int64_t, int64_t> q(p); A(q.key == d, "converted"); A(q.value == b, "converted"); vs_reach("references"); }
// comparing tuples and pairs that refer to objects compares the objects
VS_ENTRY(referenceOrder) { int64_t v[4]; for (auto& i : v) i = any(); int64_t w[4] = {v[0], v[1], v[2], v[3]}; const Tuple<int64_t&, int64_t&> x(w[0], w[1]), y(w[2], w[3]); equal(x, y, (v[0] == v[2]) & (v[1] == v[3])); const Tuple<int64_t, int64_t&> z(v[2], w[3]); equal(x, z, (v[0] == v[2]) & (v[1] == v[3])); Tuple<int64_t&, int64_t&> r(w[0], w[1]); Tuple<int64_t&, int64_t&> s(w[2], w[3]); const auto& cs = s; r = cs; A(&r.get<0>() == &w[2], "refers to the other object"); A(&r.get<1>() == &w[3], "refers to the other object"); A((w[0] == v[0]) & (w[1] == v[1]), "objects are not touched"); const Tuple<int64_t&, int64_t&> t(x); A(&t.get<0>() == &w[0], "a copy refers to the same object"); vs_reach("reference order"); }
// six components: construction, conversion, assignment and comparison of each
VS_ENTRY(six) { uint32_t v[12]; for (auto& i : v) i = vs_u32("v"); using T = Tuple<uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t>; using W = Tuple<uint64_t, int64_t, uint64_t, int64_t, uint64_t, uint32_t>; const T x(v[0], v[1], v[2], v[3], v[4], v[5]), y(v[6], v[7], v[8], v[9], v[10], v[11]); int64_t want = 0; bool eq = true; for (int i = 5; i >= 0; i--) { want = then(cmp(v[i], v[i + 6]), want); eq &= v[i] == v[i + 6]; } order(x, y, (int)want); equal(x, y, eq);
  auto is = [&](auto& t, int o, const char* id) { A(t.template get<0>() == v[o], id); A((uint64_t)t.template get<1>() == v[o + 1], id); A(t.template get<2>() == v[o + 2], id); A((uint64_t)t.template get<3>() == v[o + 3], id); A(t.template get<4>() == v[o + 4], id); A(t.template get<5>() == v[o + 5], id); }; W w(x); is(w, 0, "converted"); w = y; is(w, 6, "converted by assignment"); w = T(x); is(w, 0, "converted by move assignment"); W u(T{y}); is(u, 6, "converted by moving"); T z(x); z = T(y); is(z, 6, "move assigned"); is(x, 0, "source kept"); is(y, 6, "source kept"); vs_reach("six"); }
// objects moved through converting tuples: moved once, and only moved
VS_ENTRY(convertedObjects) { int64_t live = vs_live(); { uint32_t a[4]; for (auto& i : a) i = vs_u32("a"); using T = Tuple<Obj, uint32_t, Obj, int8_t, Obj>; using W = Tuple<Obj, uint64_t, Obj, int64_t, Obj>; T x(Obj(a[0]), a[1], Obj(a[2]), (int8_t)5, Obj(a[3])); auto is = [&](auto& t, const char* id) { A(t.template get<0>().get() == a[0], id); A(t.template get<1>() == a[1], id); A(t.template get<2>().get() == a[2], id); A(t.template get<3>() == 5, id); A(t.template get<4>().get() == a[3], id); }; const T& cx = x; W w(cx); is(w, "converted"); is(x, "source kept"); W u(Obj(1), 2, Obj(3), 4, Obj(5)); u = cx; is(u, "converted by assignment"); is(x, "source kept"); W q(Obj(1), 2, Obj(3), 4, Obj(5)); q = std::move(x); is(q, "converted by move assignment"); T y(Obj(1), 2, Obj(3), (int8_t)4, Obj(5)); const W& cq = q; y = cq; is(y, "narrowed by assignment"); is(q, "source kept"); W m(std::move(y)); is(m, "converted by moving"); } aliveIs(0, "every component destroyed"); A(vs_live() == live, "all storage released"); vs_reach("converted"); }
VS_ENTRY(strings) { int64_t live = vs_live(); { wchar_t c[4]; for (auto& i : c) i = (wchar_t)(1 + vs_u8("c")); auto s = [&](int i) { return WString::FromChar(c[i]); }; const Tuple<WString, WString> x(s(0), s(1)), y(s(2), s(3)); order(x, y, (int)then(cmp(c[0], c[2]), cmp(c[1], c[3]))); equal(x, y, (c[0] == c[2]) & (c[1] == c[3])); const Pair<WString, WString> p(s(0), s(1)), q(s(2), s(3)); order(p, q, (int)then(cmp(c[0], c[2]), cmp(c[1], c[3]))); equal(p, q, (c[0] == c[2]) & (c[1] == c[3])); Tuple t(L"ab", c[0]); A(t.get<0>()[1] == L'b', "literal"); A(t.get<1>() == c[0], "component"); Pair<WString, int64_t> k(L"xy", 5); A(k.key.Length() == 2, "converted component"); } A(vs_live() == live, "all storage released"); vs_reach("strings"); }
