// sources: Basic.cpp Exception.cpp Strings/String.cpp
// bounds: all argument values (8 to 64 bit integers, references, const references, rvalue references, objects passed by value, shared pointers, strings of up to 2 characters); every kind of target; every history of 3 (thorough 4) copy, move, assign, clear and destroy operations over 3 function objects of one type
// outside: calling an empty function object (documented to crash); targets that raise errors while being copied; more than four parameters
#include "coll.h"
#include "Strings/String.h"
#include "Primitives/Function.h"
static int64_t any() { return (int64_t)vs_u64("a"); }
static int calls; static int64_t seenA, seenB, seenC;
static int64_t mix(int64_t a, int64_t b) { return (a ^ (b << 1)) - 3; }
// plain functions
static int64_t plain(int64_t a, int32_t b, uint8_t c) { calls++; seenA = a; seenB = b; seenC = c; return mix(a, b) + c; }
static void plainVoid(int64_t a) { calls++; seenA = a; }
static int64_t& refBack(int64_t& x) { calls++; x++; return x; }
static int64_t nothing() { calls++; return 77; }
struct Target { int64_t base; int64_t m(int64_t a, int64_t b) { calls++; return base + mix(a, b); } virtual int64_t v(int64_t a) { calls++; return base - a; } void set(int64_t a) { calls++; base = a; } virtual ~Target() {} };
struct TargetD : Target { int64_t v(int64_t a) override { calls++; return base * 3 + a; } };
VS_ENTRY(plainFunctions) {
  int64_t a = any(), x0; int32_t b = (int32_t)vs_u32("b"); uint8_t c = vs_u8("c"); calls = 0;
  Func<int64_t(int64_t, int32_t, uint8_t)> f(&plain); A((bool)f, "not empty"); A(f(a, b, c) == mix(a, b) + c, "result of a plain function"); A(calls == 1, "called once"); A(seenA == a, "argument"); A(seenB == b, "argument"); A(seenC == c, "argument");
  Func<void(int64_t)> g(&plainVoid); g(a); A(calls == 2, "called once"); A(seenA == a, "argument");
  Func<int64_t&(int64_t&)> h(&refBack); int64_t x = a; int64_t& y = h(x); A(&y == &x, "reference result"); A(x == (int64_t)((uint64_t)a + 1), "reference argument"); A(calls == 3, "called once");
  Func<int64_t()> z(&nothing); A(z() == 77, "no arguments"); Func d = &nothing; A(d() == 77, "deduced"); Func<int32_t(int64_t)> narrow = [](int64_t v) { return (int16_t)v; }; A(narrow(a) == (int16_t)a, "converted result");
  // a function pointer of a compatible but different type
  Func<int64_t(int32_t, int32_t, uint8_t)> w(&plain); A(w(b, b, c) == mix(b, b) + c, "compatible function pointer"); Func<void(int64_t, int32_t, uint8_t)> drop(&plain); drop(a, b, c); A(seenA == a, "result dropped"); vs_reach("plain");
}
VS_ENTRY(methods) {
  int64_t a = any(), b = any(), k = any(); calls = 0; Target t; t.base = k; TargetD d; d.base = b;
  Func<int64_t(int64_t, int64_t)> f(&t, &Target::m); A(f(a, b) == (int64_t)((uint64_t)k + (uint64_t)mix(a, b)), "method of the object"); Func<int64_t(int64_t)> v(&t, &Target::v); A(v(a) == (int64_t)((uint64_t)k - (uint64_t)a), "virtual method"); Target* p = &d; Func<int64_t(int64_t)> vd(p, &Target::v); A(vd(a) == (int64_t)((uint64_t)b * 3 + (uint64_t)a), "overridden method");
  Func<void(int64_t)> s(&t, &Target::set); s(a); A(t.base == a, "acts on the object"); Func e(&t, &Target::m); A(e(b, b) == (int64_t)((uint64_t)a + (uint64_t)mix(b, b)), "deduced method"); A(calls == 5, "each called once"); vs_reach("methods");
}
struct Functor { int64_t k; int64_t operator()(int64_t a) { calls++; return k += a; } };
VS_ENTRY(functors) {
  int64_t a = any(), b = any(), k = any(); calls = 0; Functor o{k}; Func<int64_t(int64_t)> f(o); A(f(a) == (int64_t)((uint64_t)k + (uint64_t)a), "functor"); A(o.k == k, "a copy of the functor is kept"); Func<int64_t(int64_t)> g = f; A(g(b) == (int64_t)((uint64_t)k + (uint64_t)a + (uint64_t)b), "copies share the state"); A(f(0) == (int64_t)((uint64_t)k + (uint64_t)a + (uint64_t)b), "copies share the state"); A(f == g, "copies are equal"); A(!(f != g), "copies are equal");
  int64_t local = k; auto lam = [&local, a](int64_t v) -> int64_t { calls++; local = v; return mix(v, a); }; Func<int64_t(int64_t)> l(lam); A(l(b) == mix(b, a), "lambda"); A(local == b, "captured reference"); Func<void(int64_t)> lv(lam); lv(k); A(local == k, "result dropped"); A(!(l == f), "different targets"); A(l != f, "different targets");
  auto mut = [n = (int64_t)0](int64_t v) mutable { calls++; n += v; return n; }; Func<int64_t(int64_t)> m(std::move(mut)); A(m(a) == a, "stateful lambda"); A(m(b) == (int64_t)((uint64_t)a + (uint64_t)b), "stateful lambda"); Func m2 = [](int64_t u, int64_t v) { return mix(v, u); }; A(m2(a, b) == mix(b, a), "order of arguments"); A(calls == 7, "each called once"); vs_reach("functors");
}
VS_ENTRY(nested) { // function objects over function objects
  int64_t a = any(); int32_t b = (int32_t)vs_u32("b"); calls = 0; Func<int64_t(int64_t, int32_t, uint8_t)> f(&plain); Func<void(int64_t, int32_t, uint8_t)> g(f); g(a, b, 3); A(calls == 1, "called through"); A(seenA == a, "argument"); Func<int64_t(int64_t, int16_t, uint8_t)> h(g ? f : f); A(h(a, (int16_t)b, 3) == mix(a, (int16_t)b) + 3, "called through");
  Func<int64_t(int64_t, int32_t, uint8_t)> empty; A(!empty, "empty"); Func<void(int64_t, int32_t, uint8_t)> e1(empty); A(!e1, "wrapping an empty one stays empty"); const auto& ce = empty; Func<void(int64_t, int32_t, uint8_t)> e2(ce); A(!e2, "wrapping an empty one stays empty"); Func<void(int64_t, int32_t, uint8_t)> e3(std::move(empty)); A(!e3, "wrapping an empty one stays empty"); Func<int64_t(int64_t, int32_t, uint8_t)> e4(f), e5; e4 = e5; A(!e4, "assigned an empty one"); A(e4 == e5, "empty ones are equal"); A(!(e4 == f), "empty and not"); e4 = f; A(e4(a, b, 9) == mix(a, b) + 9, "assigned again"); e4 = Func<int64_t(int64_t, int32_t, uint8_t)>(); A(!e4, "assigned an empty one"); vs_reach("nested");
}
// an argument object counts how it travels
struct Arg { static inline int alive = 0; int64_t v; bool moved = false; Arg(int64_t x) : v(x) { alive++; } Arg(const Arg& o) : v(o.v) { A(!o.moved, "copied from a live value"); alive++; } Arg(Arg&& o) : v(o.v) { A(!o.moved, "moved from a live value"); o.moved = true; alive++; } ~Arg() { alive--; } };
struct Only { int64_t v; bool moved = false; Only(int64_t x) : v(x) {} Only(const Only&) = delete; Only(Only&& o) : v(o.v) { A(!o.moved, "moved from a live value"); o.moved = true; } };
VS_ENTRY(categories) {
  int64_t a = any(), b = any(); Arg::alive = 0; { Arg x(a); const Arg cx(b);
    Func<int64_t(Arg)> byValue = [](Arg v) { A(!v.moved, "value given"); return v.v; }; A(byValue(x) == a, "by value"); A(!x.moved, "argument kept"); A(byValue(cx) == b, "by value"); A(byValue(Arg(b)) == b, "by value"); A(byValue(std::move(x)) == a, "moved in"); A(x.moved, "moved in");
    Arg y(b); Func<void(Arg&)> byRef = [&](Arg& v) { A(&v == &y, "the very object"); v.v = a; }; byRef(y); A(y.v == a, "changed through the reference"); Func<int64_t(const Arg&)> byConst = [&](const Arg& v) { A(&v == &cx, "the very object"); return v.v; }; A(byConst(cx) == b, "by const reference"); Func<int64_t(Arg&&)> byRv = [](Arg&& v) { Arg t(std::move(v)); return t.v; }; A(byRv(std::move(y)) == a, "by rvalue reference"); A(y.moved, "by rvalue reference");
    Func<int64_t(Only)> only = [](Only v) { A(!v.moved, "value given"); return v.v; }; A(only(Only(a)) == a, "move-only by value"); Func<Only(int64_t)> makes = [](int64_t v) { return Only(v); }; A(makes(b).v == b, "move-only result"); Func<int64_t(Arg, Arg&, const Arg&, Arg&&)> many = [](Arg p, Arg& q, const Arg& r, Arg&& s) { q.v = p.v; return r.v - s.v; }; Arg q(0), s(a); A(many(Arg(b), q, cx, std::move(s)) == (int64_t)((uint64_t)b - (uint64_t)a), "mixed"); A(q.v == b, "mixed"); } A(Arg::alive == 0, "every argument destroyed"); vs_reach("categories");
}
VS_ENTRY(library) { // library values as arguments, results and captures
  wchar_t c[3] = {(wchar_t)(1 + (vs_u32("c") & 0x7fffffff) % 0x10ffff), (wchar_t)(1 + vs_u8("d")), 0}; int64_t live = vs_live(); { WString s(c); Func<WString(WString, const WString&)> f = [](WString x, const WString& y) { return y + x; }; WString t = f(s, L"!"); A(t.Length() == 3, "string result"); A(t[1] == c[0], "string result"); A(t[2] == c[1], "string result"); A(s.Length() == 2, "argument kept"); Ptr<Arg> p(new Arg(any())); Func<Ptr<Arg>()> g = [p]() { return p; }; A(g() == p, "captured pointer"); Arg* raw = p.Obj(); int64_t v = p->v; p = nullptr; A(g()->v == v, "a capture keeps its object alive"); A(g().Obj() == raw, "a capture keeps its object alive"); } A(vs_live() == live, "captures are released"); vs_reach("library");
}
// histories over function objects with counted captured state
struct Cap { static inline int alive = 0, made = 0; int id; Cap(int i) : id(i) { alive++; } Cap(const Cap& o) : id((A(o.id >= 0, "copied while alive"), o.id)) { alive++; } ~Cap() { A(id >= 0, "destroyed once"); id = -2; alive--; } };
static const int P = 3;
struct World { Func<int64_t(int64_t)> f[P]; int which[P] = {-1, -1, -1}; int made = 0; int64_t sum[16]; int kind[16]; };
static int64_t g_k; static int64_t stat(int64_t a) { return a ^ g_k; }
struct Bound { int64_t total = 0; int64_t add(int64_t a) { total += a; return total; } };
static Bound bound;
static void step(World& w) {
  int i = (int)vs_choice("i", P), j;
  switch ((int)vs_choice("op", 7)) {
  case 0: { int id = w.made++; Cap c(id); w.sum[id] = 0; w.kind[id] = 0; w.f[i] = [c, n = (int64_t)0](int64_t v) mutable { A(c.id >= 0, "the captured state is alive"); if (n < v) n = v; else n -= v; return n + c.id; }; w.which[i] = id; break; }
  case 1: { int id = w.made++; w.kind[id] = 1; if (vs_choice("bind", 2)) { w.f[i] = &stat; } else { w.kind[id] = 2; w.f[i] = Func<int64_t(int64_t)>(&bound, &Bound::add); } w.which[i] = id; break; }
  case 2: j = (int)vs_choice("j", P); w.f[i] = w.f[j]; w.which[i] = w.which[j]; break;
  case 3: j = (int)vs_choice("j", P); if (i != j) { Func<int64_t(int64_t)> t(std::move(w.f[j])); A(!w.f[j], "moved-from function is empty"); w.f[i] = t; w.which[i] = w.which[j]; w.which[j] = -1; } break;
  case 4: w.f[i] = Func<int64_t(int64_t)>(); w.which[i] = -1; break;
  case 5: { Func<int64_t(int64_t)> t(w.f[i]); A(t == w.f[i], "a copy is equal"); if (vs_choice("chain", 2)) { if (w.which[i] >= 0) { Func<int64_t(int64_t)> u = [t](int64_t v) { return t(v); }; A(u != t, "another target"); } } break; }
  case 6: { if (w.which[i] >= 0) { int64_t a = any(); int id = w.which[i]; int64_t r = w.f[i](a); if (w.kind[id] == 0) { w.sum[id] = vs_ite64(w.sum[id] < a, a, (int64_t)((uint64_t)w.sum[id] - (uint64_t)a)); A(r == (int64_t)((uint64_t)w.sum[id] + (uint64_t)id), "calls its own target"); } else if (w.kind[id] == 1) A(r == (a ^ g_k), "calls its own target"); else { A(r == bound.total, "calls its own target"); } } break; }
  }
  for (int p = 0; p < P; p++) { A((bool)w.f[p] == (w.which[p] >= 0), "empty exactly without a target"); for (int q = 0; q < P; q++) A((w.f[p] == w.f[q]) == (w.which[p] == w.which[q]), "equal exactly with the same target"); }
  int alive = 0; for (int k = 0; k < w.made; k++) if (w.kind[k] == 0) for (int p = 0; p < P; p++) if (w.which[p] == k) { alive++; break; } A(Cap::alive == alive, "captured state lives exactly as long as a copy exists");
}
VS_ENTRY(histories) { // shards=8 tshards=24
  Cap::alive = 0; bound.total = 0; g_k = any(); int64_t live = vs_live(); { World w; for (int i = 0; i < BOUND(3, 4); i++) step(w); } A(Cap::alive == 0, "captured state released"); A(vs_live() == live, "all storage released"); vs_reach("history");
}
