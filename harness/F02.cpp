// sources: Basic.cpp Exception.cpp Strings/String.cpp
// bounds: every history of 6 (thorough 8) attach, detach, fire operations over up to 4 handlers of all kinds with arbitrary argument values; heap addresses ascending or descending; up to 3 handlers, one of which (selected by the symbolic argument) attaches or detaches itself, another or a new handler or fires the event again while being called, with two firings; 17 to 65 (thorough 129) handlers, one of them detached
// outside: the order in which handlers are called (not documented; the handler list is ordered by address); longer histories; destroying the event from inside a handler
#include "coll.h"
#include "tall.h"
#include "Strings/String.h"
#include "Primitives/Event.h"
static int64_t any() { return (int64_t)vs_u64("a"); }
static const int H = 4; static int count[16]; static int64_t seen[16];
static int64_t limit; // handler 0 filters its argument
static void hit(int id, int64_t a) { if (id == 0 && a < limit) return; count[id]++; seen[id] = a; }
static void plain(int64_t a) { hit(1, a); }
struct Method { int id; void on(int64_t a) { hit(id, a); } };
struct World { Event<void(int64_t)> e; Ptr<EventHandler> h[8]; bool on[8] = {}; int n = 0; Method m{2}; };
static void fire(World& w) { int64_t a = any(); for (int i = 0; i < 8; i++) count[i] = 0; w.e(a); for (int i = 0; i < 8; i++) { A(count[i] == (w.on[i] && (i != 0 || a >= limit) ? 1 : 0), "every attached handler is called exactly once and no other"); if (w.on[i] && count[i]) A(seen[i] == a, "with the argument given"); } }
static void step(World& w) {
  switch ((int)vs_choice("op", 4)) {
  case 0: { int k = w.n; if (k >= H) break; w.n++; if (k == 1) w.h[k] = w.e.Add(&plain); else if (k == 2) w.h[k] = w.e.Add(&w.m, &Method::on); else w.h[k] = w.e.Add(Func<void(int64_t)>([k](int64_t a) { hit(k, a); })); A((bool)w.h[k], "a handler is returned"); A(w.h[k]->IsAttached(), "attached"); w.on[k] = true; vs_reach("attach"); break; }
  case 1: { if (!w.n) break; int k = (int)vs_choice("k", w.n); A(w.e.Remove(w.h[k]) == w.on[k], "detaching succeeds exactly once"); w.on[k] = false; A(!w.h[k]->IsAttached(), "not attached any more"); vs_reach("detach"); break; }
  case 2: fire(w); vs_reach("fire"); break;
  case 3: { A(!w.e.Remove(nullptr), "nothing to detach"); Event<void(int64_t)> other; auto h = other.Add(&plain); A(!w.e.Remove(h), "a handler of another event"); A(h->IsAttached(), "stays attached there"); if (w.n) A(!other.Remove(w.h[0]), "a handler of another event"); A(other.Remove(h), "detached from its own event"); break; }
  }
  for (int i = 0; i < w.n; i++) A(w.h[i]->IsAttached() == w.on[i], "IsAttached");
}
VS_ENTRY(histories) { // shards=4 tshards=16
  vs_heap_desc((int)vs_choice("down", 2)); int64_t live = vs_live(); limit = any(); { World w; for (int i = 0; i < BOUND(6, 8); i++) step(w); fire(w); } vs_heap_desc(0); A(vs_live() == live, "everything is released"); vs_reach("history");
}
// the handler object and its captures live as long as the event or a handle
struct Cap { static inline int alive = 0; uint32_t tag = 0xCA; Cap() { alive++; } Cap(const Cap& o) { A(o.tag == 0xCA, "copied while alive"); alive++; } ~Cap() { tag = 0; alive--; } };
VS_ENTRY(ownership) {
  vs_heap_desc((int)vs_choice("down", 2)); Cap::alive = 0; int64_t live = vs_live(); Ptr<EventHandler> kept; { Event<void()> e; int calls = 0; { Cap c; auto h = e.Add(Func<void()>([c, &calls] { A(c.tag == 0xCA, "captures are alive"); calls++; })); if (vs_choice("keep", 2)) kept = h; if (vs_choice("detach", 2)) { A(e.Remove(h), "detach"); e(); A(calls == 0, "not called"); } else { e(); A(calls == 1, "called"); } } e(); A(Cap::alive <= 1, "one copy of the captures"); } if (kept) A(Cap::alive == 1, "a handle keeps the handler"); kept = nullptr; A(Cap::alive == 0, "captures are released"); vs_heap_desc(0); A(vs_live() == live, "everything is released"); vs_reach("ownership");
}
// every handler receives the same arguments, whatever their kind
struct Val { int64_t v; bool moved = false; Val(int64_t x) : v(x) {} Val(const Val& o) : v(o.v), moved(o.moved) {} Val(Val&& o) : v(o.v), moved(o.moved) { o.moved = true; } };
VS_ENTRY(arguments) {
  vs_heap_desc((int)vs_choice("down", 2)); int64_t a = any(), b = any(); const int N = 3; int n = 0;
  { Event<void(Val, int64_t)> e; for (int i = 0; i < N; i++) e.Add(Func<void(Val, int64_t)>([&](Val v, int64_t w) { n++; A(!v.moved, "every handler gets the value given"); A(v.v == a, "every handler gets the value given"); A(w == b, "every handler gets the value given"); })); switch ((int)vs_choice("how", 3)) { case 0: e(Val(a), b); break; case 1: { Val v(a); e(v, (int64_t)b); A(!v.moved, "argument kept"); break; } case 2: { Val v(a); e(std::move(v), b); break; } } A(n == N, "all handlers called"); }
  { n = 0; Event<void(Val&)> e; Val x(0); for (int i = 0; i < N; i++) e.Add(Func<void(Val&)>([&](Val& v) { A(&v == &x, "the very object"); v.v++; n++; })); e(x); A(x.v == N, "every handler gets the very object"); }
  { n = 0; Event<void(const Val&)> e; for (int i = 0; i < N; i++) e.Add(Func<void(const Val&)>([&](const Val& v) { A(v.v == a, "every handler gets the value given"); A(!v.moved, "every handler gets the value given"); n++; })); e(Val(a)); A(n == N, "all handlers called"); }
  { n = 0; Event<void(WString)> e; for (int i = 0; i < N; i++) e.Add(Func<void(WString)>([&](WString s) { A(s.Length() == 2, "every handler gets the text given"); n++; })); e(WString(L"ab")); e(L"cd"); A(n == 2 * N, "all handlers called"); }
  { n = 0; Event<void(Ptr<Val>)> e; for (int i = 0; i < N; i++) e.Add(Func<void(Ptr<Val>)>([&](Ptr<Val> p) { A((bool)p, "every handler gets the pointer given"); n++; })); e(Ptr(new Val(a))); A(n == N, "all handlers called"); }
  vs_heap_desc(0); vs_reach("arguments");
}
// handlers that attach and detach while the event is firing
VS_ENTRY(reentrant) { // shards=4
  vs_heap_desc((int)vs_choice("down", 2)); int64_t live = vs_live(); { Event<void(int64_t)> e; Ptr<EventHandler> h[6]; bool on[6] = {}, throughout[6] = {}; int n = 2 + (int)vs_choice("n", 2), calls[6] = {}, inner[6] = {}; int act = (int)vs_choice("act", 4), victim = (int)vs_choice("victim", n); bool acted = false; int64_t a = any(), first = any(); int depth = 0; // the handler that acts is the one the argument selects
    for (int i = 0; i < n; i++) { h[i] = e.Add(Func<void(int64_t)>([&, i](int64_t v) { if (depth) { inner[i]++; return; } A(v == a, "argument"); A(h[i]->IsAttached(), "a detached handler is not called"); calls[i]++; if (!acted && (uint64_t)v - (uint64_t)first == (uint64_t)i) { acted = true; if (act == 0) { A(e.Remove(h[victim]), "detach while firing"); on[victim] = false; } else if (act == 1) { h[n] = e.Add(Func<void(int64_t)>([&](int64_t) { calls[n]++; })); on[n] = true; } else if (act == 3) { depth = 1; e(v + 1); depth = 0; vs_reach("nested firing"); } else { A(e.Remove(h[i]), "detach while firing"); on[i] = false; h[n] = e.Add(Func<void(int64_t)>([&](int64_t) { calls[n]++; })); on[n] = true; } } })); on[i] = true; }
    e(a); A(acted == ((uint64_t)a - (uint64_t)first < (uint64_t)n), "the acting handler was called"); if (acted && act == 3) for (int i = 0; i < n; i++) A(inner[i] == 1, "a nested firing calls every attached handler"); for (int i = 0; i < n; i++) { if (on[i]) A(calls[i] == 1, "a handler attached throughout a firing is called exactly once"); else A(calls[i] <= 1, "at most once"); } A(calls[n] <= 1, "at most once");
    for (int i = 0; i < 6; i++) calls[i] = 0; acted = true; e(a); for (int i = 0; i <= n; i++) A(calls[i] == (on[i] ? 1 : 0), "the next firing calls exactly the attached handlers"); for (int i = 0; i <= n; i++) if (h[i]) A(h[i]->IsAttached() == on[i], "IsAttached"); }
  vs_heap_desc(0); A(vs_live() == live, "everything is released"); vs_reach("reentrant");
}
VS_ENTRY(tallLists) { // shards=2
  vs_heap_desc((int)vs_choice("down", 2)); int64_t live = vs_live(); { int n = tall(3, 5), p = spotIn(n); if (n > 200) n = 129, p = 3; Event<void(int64_t)> e; static int calls[140]; Ptr<EventHandler> h[140]; int64_t a = any(); for (int i = 0; i < n; i++) { calls[i] = 0; h[i] = e.Add(Func<void(int64_t)>([i, a](int64_t v) { A(v == a, "argument"); calls[i]++; })); } e(a); for (int i = 0; i < n; i++) A(calls[i] == 1, "every attached handler is called exactly once"); A(e.Remove(h[p]), "detach"); A(!e.Remove(h[p]), "detached only once"); e(a); for (int i = 0; i < n; i++) { A(calls[i] == (i == p ? 1 : 2), "every attached handler is called exactly once and no other"); A(h[i]->IsAttached() == (i != p), "IsAttached"); } for (int i = 0; i < n; i += 2) if (i != p) e.Remove(h[i]); e(a); for (int i = 0; i < n; i++) A(calls[i] == (i == p ? 1 : i % 2 ? 3 : 2), "every attached handler is called exactly once and no other"); } vs_heap_desc(0); A(vs_live() == live, "everything is released"); vs_reach("tall");
}
