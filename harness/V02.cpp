// sources: Basic.cpp Exception.cpp Strings/String.cpp
// bounds: every history of 3 (thorough 4) operations over 2 variants of 3 or 4 alternatives (integers, counted objects, strings, wide-aligned objects), all values arbitrary
// outside: alternatives whose construction raises an error; alternatives that cannot be assigned or copied; assigning to a variant from a part of the value it holds (the held value itself is covered); the same type listed twice
#include "coll.h"
#include "Strings/String.h"
#include "Primitives/Variant.h"
static int64_t any() { return (int64_t)vs_u64("a"); }
template<int N> struct Val { static inline int alive = 0; int64_t v; uint32_t tag; Val(int64_t x = 0) : v(x), tag(0xA1 + N) { alive++; } Val(const Val& o) : v(o.read()), tag(0xA1 + N) { alive++; } Val(Val&& o) : v(o.read()), tag(0xA1 + N) { o.v = -1; alive++; } ~Val() { A(tag == 0xA1 + N, "destroyed once, as its own type"); tag = 0; alive--; } int64_t read() const { A(tag == 0xA1 + N, "used while alive"); return v; } Val& operator=(const Val& o) { A(tag == 0xA1 + N, "assigned while alive"); v = o.read(); return *this; } Val& operator=(Val&& o) { A(tag == 0xA1 + N, "assigned while alive"); int64_t t = o.read(); o.v = -1; v = this == &o ? -1 : t; return *this; } };
using P = Val<1>; using Q = Val<2>; struct alignas(32) Big { int64_t v; char c[8]; };
using V = Variant<int64_t, P, Q>; 
static int total() { return P::alive + Q::alive; }
// the variant holds value v under alternative k; every way of asking agrees
static void holds(V& x, int k, int64_t v) {
  const V& c = x; A(c.Index() == k, "index"); A((x.TryGet<int64_t>() != nullptr) == (k == 0), "type query"); A((c.TryGet<P>() != nullptr) == (k == 1), "type query"); A((x.TryGet<Q>() != nullptr) == (k == 2), "type query");
  int n = 0; auto see = Overloading([&](int64_t& y) { n++; A(k == 0, "visited as its own type"); A(y == v, "value"); }, [&](P& y) { n++; A(k == 1, "visited as its own type"); A(y.read() == v, "value"); }, [&](Q& y) { n++; A(k == 2, "visited as its own type"); A(y.read() == v, "value"); }); x.Apply(see); A(n == 1, "visited exactly once"); auto seeC = Overloading([&](const int64_t& y) { n++; A((k == 0) & (y == v), "value"); }, [&](const P& y) { n++; A((k == 1) & (y.v == v), "value"); }, [&](const Q& y) { n++; A((k == 2) & (y.v == v), "value"); }); c.Apply(seeC); A(n == 2, "visited exactly once"); c.Apply([&](auto& y) { n++; A(sizeof(y) == (k == 0 ? sizeof(int64_t) : sizeof(P)), "generic visitor"); }); A(n == 3, "visited exactly once");
  if (k == 0) { A(c.Get<int64_t>() == v, "value"); A(&x.Get<int64_t>() == c.TryGet<int64_t>(), "same object"); MUST_THROW(c.Get<P>(), "another alternative"); MUST_THROW(x.Get<Q>(), "another alternative"); } else if (k == 1) { A(c.Get<P>().read() == v, "value"); A(x.TryGet<P>()->read() == v, "value"); MUST_THROW(c.Get<int64_t>(), "another alternative"); MUST_THROW(std::move(x).Get<Q>(), "another alternative"); } else { A(x.Get<Q>().read() == v, "value"); A(c.TryGet<Q>()->read() == v, "value"); MUST_THROW(x.Get<P>(), "another alternative"); MUST_THROW(c.Get<int64_t>(), "another alternative"); }
  bool called = false; A(x.TryApply([&](P& y) { called = true; A(y.read() == v, "value"); }) == (k == 1), "partial visitor"); A(called == (k == 1), "partial visitor"); called = false; A(x.TryApply([&](const Q& y) { called = true; }) == (k == 2), "partial visitor by const reference"); A(called == (k == 2), "partial visitor by const reference"); called = false; A(c.TryApply([&](const Q& y) { called = true; }) == (k == 2), "partial visitor of a constant"); A(called == (k == 2), "partial visitor of a constant"); called = false; A(x.TryApply([&](int64_t y) { called = true; A(y == v, "value"); }) == (k == 0), "partial visitor by value"); A(called == (k == 0), "partial visitor by value"); called = false; A(x.TryApply(Overloading([&](int64_t&) { called = true; }, [&](P&) { called = true; })) == (k != 2), "partial visitor"); A(called == (k != 2), "partial visitor");
}
struct World { V x[2]; int k[2] = {0, 0}; int64_t v[2] = {0, 0}; };
static void step(World& w) {
  int i = (int)vs_choice("i", 2), j = 1 - i; int64_t a = any();
  switch ((int)vs_choice("op", 13)) {
  case 0: w.x[i] = a; w.k[i] = 0; w.v[i] = a; break;
  case 1: w.x[i] = P(a); w.k[i] = 1; w.v[i] = a; break;
  case 2: { Q q(a); w.x[i] = q; A(q.read() == a, "source kept"); w.k[i] = 2; w.v[i] = a; break; }
  case 3: w.x[i] = w.x[j]; w.k[i] = w.k[j]; w.v[i] = w.v[j]; break;
  case 4: { w.x[i] = std::move(w.x[j]); w.k[i] = w.k[j]; w.v[i] = w.v[j]; A(w.x[j].Index() == w.k[j], "a moved-from variant keeps an alternative"); if (w.k[j] != 0) w.v[j] = -1; break; }
  case 5: { V t(w.x[i]); holds(t, w.k[i], w.v[i]); V u(std::move(t)); holds(u, w.k[i], w.v[i]); w.x[j] = u; w.k[j] = w.k[i]; w.v[j] = w.v[i]; vs_reach("constructed copies"); break; }
  case 6: { auto& self = w.x[i]; w.x[i] = self; w.x[i] = std::move(self); break; }
  case 7: w.x[i].Set(VariantIndex<1>{}, P(a)); w.k[i] = 1; w.v[i] = a; break;
  case 8: w.x[i].Set(VariantIndex<2>{}, a); w.k[i] = 2; w.v[i] = a; break;
  case 9: { V t(VariantIndex<2>{}, a); holds(t, 2, a); w.x[i] = std::move(t); w.k[i] = 2; w.v[i] = a; break; }
  case 10: { w.x[i].Apply(Overloading([&](int64_t& y) { y = y < a ? a : ~y; }, [&](P& y) { y = y.read() < a ? P(a) : P(~y.v); }, [&](Q& y) { if (y.read() < a) y.v = a; else y.v = ~y.v; })); w.v[i] = vs_ite64(w.v[i] < a, a, ~w.v[i]); vs_reach("changed through a visitor"); break; }
  case 11: { const P p(a); V t(p); holds(t, 1, a); const int64_t n = a; V s(n); holds(s, 0, a); V d; holds(d, 0, 0); w.x[i] = p; w.k[i] = 1; w.v[i] = a; break; }
  case 12: { int s = (int)vs_choice("source", 2); V& x = w.x[s]; if (w.k[s] == 0) { const int64_t& y = x.Get<int64_t>(); w.x[i] = y; } else if (w.k[s] == 1) { const P& y = x.Get<P>(); w.x[i] = y; } else { const Q& y = x.Get<Q>(); w.x[i] = y; } w.k[i] = w.k[s]; w.v[i] = w.v[s]; vs_reach("assigned from a held value, possibly its own"); break; }
  }
  holds(w.x[0], w.k[0], w.v[0]); holds(w.x[1], w.k[1], w.v[1]); A(P::alive == (w.k[0] == 1) + (w.k[1] == 1), "exactly the held values are alive"); A(Q::alive == (w.k[0] == 2) + (w.k[1] == 2), "exactly the held values are alive");
}
VS_ENTRY(histories) { // shards=4 tshards=16
  P::alive = Q::alive = 0; { World w; for (int i = 0; i < BOUND(3, 4); i++) step(w); } A(total() == 0, "every held value is destroyed"); vs_reach("history");
}
// strings, converted values and alignment
VS_ENTRY(strings) {
  int64_t live = vs_live(); { wchar_t c[2] = {(wchar_t)(1 + vs_u8("c")), 0}; using S = Variant<int32_t, WString, AString, Big>; S s = L"lit"; A(s.Index() == 1, "literal converts to the string"); S t(c); A(t.Get<WString>()[0] == c[0], "converted text"); s = (const char*)"xy"; A(s.Get<AString>().Length() == 2, "other string type"); s = t; A(s.Get<WString>()[0] == c[0], "copied string"); WString w = std::move(t).Get<WString>(); A(w[0] == c[0], "moved out"); s = 5; A(s.Get<int32_t>() == 5, "number after a string"); s = Big{any()}; s.Apply(Overloading([](Big& b) { A(((uint64_t)&b & 31) == 0, "properly aligned"); }, [](auto&) { vs_fail("visited as another type"); })); S u = s; A(((uint64_t)u.TryGet<Big>() & 31) == 0, "properly aligned"); A(u.Get<Big>().v == s.Get<Big>().v, "copied"); } A(vs_live() == live, "all storage released"); vs_reach("strings");
}
// moving and copying between all pairs of alternatives, including alternatives owning storage
VS_ENTRY(transitions) { // shards=2
  int64_t live = vs_live(); P::alive = 0; { using W = Variant<P, WString, int8_t>; int64_t a = any(); wchar_t c[3] = {(wchar_t)(1 + vs_u8("c")), (wchar_t)(1 + vs_u8("d")), 0}; int8_t b = (int8_t)vs_u8("b"); auto make = [&](int k) { return k == 0 ? W(P(a)) : k == 1 ? W(WString(c)) : W(b); }; auto is = [&](const W& w, int k) { A(w.Index() == k, "index"); if (k == 0) A(w.Get<P>().read() == a, "value"); else if (k == 1) { A(w.Get<WString>().Length() == 2, "value"); A(w.Get<WString>()[0] == c[0], "value"); A(w.Get<WString>()[1] == c[1], "value"); } else A(w.Get<int8_t>() == b, "value"); };
    int k1 = (int)vs_choice("k1", 3), k2 = (int)vs_choice("k2", 3), k3 = (int)vs_choice("k3", 3); W x = make(k1), y = make(k2); is(x, k1); is(y, k2); x = y; is(x, k2); is(y, k2); x = make(k3); is(x, k3); y = std::move(x); is(y, k3); W z(y); is(z, k3); is(y, k3); const W& cz = z; W q(cz); is(q, k3); } A(P::alive == 0, "every held value is destroyed"); A(vs_live() == live, "all storage released"); vs_reach("transitions");
}
