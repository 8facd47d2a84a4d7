// sources: Basic.cpp Exception.cpp Strings/String.cpp
// bounds: every history of 3 (thorough 4) operations over 2 nullables, for plain 64-bit values, 8-bit values, counted objects, objects that cannot be assigned, move-only objects and strings, all values arbitrary; all pairs for comparisons with strong, weak and partial orders
// outside: longer histories; element types whose copying raises errors
#include "coll.h"
#include "Strings/String.h"
#include "Primitives/Nullable.h"
static int64_t any() { return (int64_t)vs_u64("a"); }
// life-cycle counted values; copy and move are distinguished
template<int KIND> struct Val { static inline int alive = 0; int64_t v; uint32_t tag; Val(int64_t x) : v(x), tag(0xA1) { alive++; } Val(const Val& o) : v(o.read()), tag(0xA1) { alive++; } Val(Val&& o) : v(o.read()), tag(0xA1) { o.v = -1; alive++; } int64_t read() const { A(tag == 0xA1, "copied or moved while alive"); return v; } ~Val() { A(tag == 0xA1, "destroyed once"); tag = 0; alive--; }
  Val& operator=(const Val& o) requires(KIND == 0) { A((tag == 0xA1) & (o.tag == 0xA1), "assigned while alive"); v = o.v; return *this; } Val& operator=(Val&& o) requires(KIND == 0) { A((tag == 0xA1) & (o.tag == 0xA1), "assigned while alive"); if (this != &o) { v = o.v; o.v = -1; } return *this; } Val& operator=(const Val&) requires(KIND == 1) = delete; Val& operator=(Val&&) requires(KIND == 1) = delete; std::strong_ordering operator<=>(const Val& o) const { return v <=> o.v; } bool operator==(const Val& o) const { return v == o.v; } };
using Full = Val<0>; using Fixed = Val<1>; static_assert(!std::is_copy_assignable_v<Fixed> && !std::is_move_assignable_v<Fixed> && std::is_copy_assignable_v<Full>);
struct Only { static inline int alive = 0; int64_t v; uint32_t tag = 0xA1; Only(int64_t x) : v(x) { alive++; } Only(const Only&) = delete; Only(Only&& o) : v(o.read()) { o.v = -1; alive++; } int64_t read() const { A(tag == 0xA1, "moved while alive"); return v; } Only& operator=(Only&& o) { A((tag == 0xA1) & (o.tag == 0xA1), "assigned while alive"); v = o.v; o.v = -1; return *this; } Only& operator=(const Only&) = delete; ~Only() { A(tag == 0xA1, "destroyed once"); tag = 0; alive--; } bool operator==(const Only& o) const { return v == o.v; } };
template<typename T> static int64_t get(const T& x) { if constexpr (std::is_integral_v<T>) return (int64_t)x; else return x.v; }
template<typename T> static void settle(const Nullable<T>& n, bool has, int64_t v) { A((bool)n == has, "holds a value exactly when one was given"); if (has) { MUST_NOT_THROW(A(get(n.Value()) == v, "the value given last"), "reading a value"); } else MUST_THROW(n.Value(), "reading an empty one"); }
template<typename T> struct World { Nullable<T> n[2]; bool has[2] = {false, false}; int64_t v[2] = {0, 0}; };
template<typename T, bool COPY> static void step(World<T>& w) {
  int i = (int)vs_choice("i", 2), j = 1 - i; int64_t a = std::is_same_v<T, int8_t> ? (int64_t)(int8_t)vs_u8("b") : any();
  switch ((int)vs_choice("op", 11)) {
  case 0: w.n[i] = T(a); w.has[i] = true; w.v[i] = a; vs_reach("assign a temporary"); break;
  case 1: if constexpr (COPY) { T x(a); const T& c = x; w.n[i] = c; A(get(x) == a, "source kept"); w.has[i] = true; w.v[i] = a; vs_reach("assign a value"); } break;
  case 2: if constexpr (COPY) { w.n[i] = w.n[j]; w.has[i] = w.has[j]; w.v[i] = w.v[j]; vs_reach("copy"); } break;
  case 3: { w.n[i] = std::move(w.n[j]); w.has[i] = w.has[j]; w.v[i] = w.v[j]; w.has[j] = false; vs_reach("move"); break; }
  case 4: w.n[i].Reset(); w.has[i] = false; vs_reach("reset"); break;
  case 5: if constexpr (COPY) { Nullable<T> t(w.n[i]); settle(t, w.has[i], w.v[i]); Nullable<T> u(std::move(t)); settle(t, false, 0); settle(u, w.has[i], w.v[i]); w.n[j] = u; w.has[j] = w.has[i]; w.v[j] = w.v[i]; vs_reach("constructed copies"); } else { Nullable<T> u(std::move(w.n[i])); settle(u, w.has[i], w.v[i]); settle(w.n[i], false, 0); w.n[i] = std::move(u); } break;
  case 6: w.n[i] = Nullable<T>(); w.has[i] = false; break;
  case 7: if constexpr (COPY) { auto& self = w.n[i]; w.n[i] = self; vs_reach("self assignment"); } break;
  case 8: { auto& self = w.n[i]; w.n[i] = std::move(self); vs_reach("self move"); break; }
  case 9: if constexpr (COPY) { if (w.has[i]) w.n[i] = w.n[i].Value(); vs_reach("own value"); } break;
  case 10: if constexpr (COPY) { if (w.has[j]) { w.n[i] = w.n[j].Value(); w.has[i] = true; w.v[i] = w.v[j]; } } break;
  }
  for (int k = 0; k < 2; k++) settle(w.n[k], w.has[k], w.v[k]); if constexpr (requires { T::alive; }) A(T::alive == (int)w.has[0] + (int)w.has[1], "exactly the held values are alive");
  A((w.n[0] == w.n[1]) == ((w.has[0] == w.has[1]) & (!w.has[0] | (w.v[0] == w.v[1]))), "equality");
}
template<typename T, bool COPY = true> static void hist(int n) { if constexpr (requires { T::alive; }) T::alive = 0; int64_t live = vs_live(); { World<T> w; for (int i = 0; i < n; i++) step<T, COPY>(w); } if constexpr (requires { T::alive; }) A(T::alive == 0, "every held value is destroyed"); A(vs_live() == live, "no storage left"); vs_reach("history"); }
VS_ENTRY(plain) { hist<int64_t>(BOUND(3, 4)); } // shards=2 tshards=8
VS_ENTRY(tiny) { hist<int8_t>(BOUND(3, 4)); } // shards=2 tshards=8
VS_ENTRY(objects) { hist<Full>(BOUND(3, 4)); } // shards=2 tshards=8
VS_ENTRY(unassignable) { hist<Fixed>(BOUND(3, 4)); } // shards=2 tshards=8
VS_ENTRY(moveOnly) { hist<Only, false>(BOUND(3, 4)); } // shards=2 tshards=8
// comparisons for arbitrary values and all orderings
template<typename T, typename ORD> static void cmp(T x, T y) { Nullable<T> a, b, e; bool ha = vs_choice("ha", 2), hb = vs_choice("hb", 2); if (ha) a = x; if (hb) b = y; auto r = a <=> b; static_assert(std::is_same_v<decltype(r), ORD>); ORD want = ha ? (hb ? (ORD)(x <=> y) : (ORD)std::strong_ordering::greater) : (hb ? (ORD)std::strong_ordering::less : (ORD)std::strong_ordering::equal); A(r == want || (r != want && !(r == r)), "order"); A((r < 0) == (want < 0), "order"); A((r > 0) == (want > 0), "order"); A((r == 0) == (want == 0), "order"); A((a < b) == (want < 0), "order"); A((a >= b) == (want >= 0), "order"); A((a == b) == (ha == hb && (!ha || x == y)), "equality"); A((a != b) == !(a == b), "inequality"); A((Nullable<T>::Empty == e) && !Nullable<T>::Empty, "the empty one"); A((a == Nullable<T>::Empty) == !ha, "the empty one"); }
struct Weak { int64_t v; std::weak_ordering operator<=>(const Weak& o) const { return (v >> 1) <=> (o.v >> 1); } bool operator==(const Weak& o) const { return (v >> 1) == (o.v >> 1); } };
struct Part { int64_t v; std::partial_ordering operator<=>(const Part& o) const { return (v & 1) | (o.v & 1) ? std::partial_ordering::unordered : (std::partial_ordering)(v <=> o.v); } bool operator==(const Part& o) const { return !((v & 1) | (o.v & 1)) & (v == o.v); } };
VS_ENTRY(compareStrong) { cmp<int64_t, std::strong_ordering>(any(), any()); vs_reach("strong"); }
VS_ENTRY(compareUnsigned) { cmp<uint64_t, std::strong_ordering>((uint64_t)any(), (uint64_t)any()); vs_reach("unsigned"); }
VS_ENTRY(compareWeak) { cmp<Weak, std::weak_ordering>(Weak{any()}, Weak{any()}); vs_reach("weak"); }
VS_ENTRY(comparePartial) { cmp<Part, std::partial_ordering>(Part{any()}, Part{any()}); vs_reach("partial"); }
// nested nullables and strings
VS_ENTRY(nested) { int64_t live = vs_live(); { wchar_t c = (wchar_t)(1 + vs_u8("c")), d = (wchar_t)(1 + vs_u8("d")); Nullable<WString> a, b = WString::FromChar(d); a = WString::FromChar(c); A(a.Value()[0] == c, "string"); A((a == b) == (c == d), "string equality"); A((a < b) == (c < d), "string order"); Nullable<WString> t = a; a = b; A(a.Value()[0] == d, "string"); A(t.Value()[0] == c, "copy kept"); b = std::move(t); A(!t, "moved from"); A(b.Value()[0] == c, "string"); a = a.Value(); A(a.Value()[0] == d, "own value"); Nullable<Nullable<int64_t>> n; A(!n, "empty"); n = Nullable<int64_t>(); A((bool)n, "holds an empty one"); A(!n.Value(), "holds an empty one"); int64_t v = any(); n = Nullable<int64_t>(v); A(n.Value().Value() == v, "nested"); } A(vs_live() == live, "no storage left"); vs_reach("nested"); }
