// sources: Basic.cpp Exception.cpp Strings/String.cpp
// models: libc
// bounds: every interleaving of the atomic operations of two threads and the main thread with at most 5 switches away from a thread that could go on (strings 4, COM pointers and functions 6; thorough: 9, 6, 12, and three threads with 3), each thread doing one of 6 pieces of work with its own shared pointer, COM pointer, function object or string that shares one object; data of all values
// outside: more threads or longer work; two threads using the same pointer variable without a lock (not promised); weak memory beyond happens-before (a plain access not ordered by synchronisation is reported as a race, so behaviour is that of an interleaving)
// assume: std::atomic operations are atomic and their memory orders synchronise as in the C++ memory model
#include "vs.h"
#include "Primitives/Pointer.h"
#include "Primitives/Function.h"
#include "Strings/String.h"
using namespace vl;
static const int MAXT = 3; static int died; static uint64_t expected;
struct Base { uint64_t data, check; Base(uint64_t d) : data(d), check((d ^ 0x5555) + 2 * (d & 0x5555)) {} virtual ~Base() { died++; data = ~data; } };
struct Derived : Base { Derived(uint64_t d) : Base(d) {} };
static void use(Base* b) { A(b != nullptr, "the object is there"); A(died == 0, "the object is alive while a pointer owns it"); A(b->data == expected, "the object is intact"); A(b->check == b->data + 0x5555, "the object is intact"); }
struct PtrWork { Ptr<Base> own; int op; uint64_t limit = ~0ull; };
static void ptrOp(Ptr<Base>& own, int op) {
  switch (op) {
  case 0: { Ptr<Base> c = own; use(c.Obj()); } break;
  case 1: { Ptr<Base> c = std::move(own); use(c.Obj()); own = c; } break;
  case 2: { Ptr<Derived> d = own.Cast<Derived>(); use(d.Obj()); A((bool)d, "the same object after a cast"); } break;
  case 3: { Ptr<Base> c; c = own; own = c; c = nullptr; use(own.Obj()); } break;
  case 4: { Ptr<Base> c = own; own = std::move(c); use(own.Obj()); } break;
  case 5: { use(own.Obj()); own = nullptr; } break;
  }
}
static void ptrThread(void* x) { PtrWork* w = (PtrWork*)x; if (w->own->data <= w->limit) ptrOp(w->own, w->op); w->own = nullptr; } // what a thread does depends on the shared data
static void ptrRun(int n, int ops, int mainOps) {
  vint base = vs_live(); died = 0; expected = vs_u64("data");
  { PtrWork w[MAXT]; Ptr<Base> p(new Derived(expected)); for (int i = 0; i < n; i++) { w[i].own = p; w[i].op = (int)vs_choice("work", ops); if (i == 0) w[i].limit = vs_u64("limit"); } int m = (int)vs_choice("main", mainOps); vs_preemptions(n == 3 ? 3 : BOUND(5, 9));
    for (int i = 0; i < n; i++) vs_thread_create(ptrThread, &w[i]);
    if (m == 1) ptrOp(p, 0); if (m != 2) p = nullptr; vs_join_all(); if (m == 2) { use(p.Obj()); p = nullptr; }
    A(died == 1, "destroyed exactly once, by the last one"); }
  A(vs_live() == base, "everything is released");
}
VS_ENTRY(pointers) { // shards=8
  ptrRun(2, 6, 3); vs_reach("pointers");
}
VS_THOROUGH(pointersThree) { // shards=24
  ptrRun(3, 2, 3); vs_reach("pointersThree");
}
struct Com { uint64_t data; int released = 0; vuint32_t AddRef() { return 1; } vuint32_t Release() { A(released == 0, "given back once"); released++; died++; return 0; } };
struct ComWork { ComPtr<Com> own; int op; };
static void comUse(Com* c) { A(died == 0, "the reference is kept while a pointer shares it"); A(c->data == expected, "the object is intact"); }
static void comThread(void* x) { ComWork* w = (ComWork*)x; switch (w->op) { case 0: { ComPtr<Com> c = w->own; comUse(c.Obj()); } break; case 1: { ComPtr<Com> c = std::move(w->own); comUse(c.Obj()); } break; case 2: { ComPtr<Com> c; c = w->own; w->own = nullptr; comUse(c.Obj()); } break; } w->own = nullptr; }
VS_ENTRY(com) {
  vint base = vs_live(); died = 0; expected = vs_u64("data"); { Com c; c.data = expected; ComWork w[2]; ComPtr<Com> p(&c); for (int i = 0; i < 2; i++) { w[i].own = p; w[i].op = (int)vs_choice("work", 3); } vs_preemptions(BOUND(6, 12)); for (int i = 0; i < 2; i++) vs_thread_create(comThread, &w[i]); p = nullptr; vs_join_all(); A(died == 1, "given back exactly once"); } A(vs_live() == base, "everything is released"); vs_reach("com");
}
struct Life { uint64_t data; Life(uint64_t d) : data(d) {} Life(const Life& o) : data(o.data) { died--; } Life(Life&& o) : data(o.data) { died--; } ~Life() { died++; } };
struct FuncWork { Func<uint64_t(uint64_t)> own; int op; uint64_t arg, got; };
static void funcThread(void* x) { FuncWork* w = (FuncWork*)x; switch (w->op) { case 0: { auto c = w->own; w->got = c(w->arg); } break; case 1: { auto c = std::move(w->own); w->got = c(w->arg); } break; case 2: { Func<uint64_t(uint64_t)> c; c = w->own; w->own = {}; w->got = c(w->arg); } break; } w->own = {}; }
VS_ENTRY(functions) {
  vint base = vs_live(); died = 0; expected = vs_u64("data"); { FuncWork w[2]; Func<uint64_t(uint64_t)> f; { Life l(expected); f = [l](uint64_t a) { return l.data + a; }; } int before = died; for (int i = 0; i < 2; i++) { w[i].own = f; w[i].op = (int)vs_choice("work", 3); w[i].arg = vs_u64("arg"); } vs_preemptions(BOUND(6, 12)); for (int i = 0; i < 2; i++) vs_thread_create(funcThread, &w[i]); f = {}; vs_join_all(); for (int i = 0; i < 2; i++) A(w[i].got == expected + w[i].arg, "called with its argument"); A(died == before + 1, "the captured state is released exactly once"); } A(vs_live() == base, "everything is released"); vs_reach("functions");
}
static wchar_t text[4];
struct StrWork { WString own; int op; };
static void same(const WString& s, int from, int n) { A(s.Length() == n, "length"); for (int i = 0; i < n; i++) A(s[i] == text[from + i], "text is intact"); }
static void strThread(void* x) { StrWork* w = (StrWork*)x;
  switch (w->op) {
  case 0: { WString c = w->own; if (c[0] < c[1]) c = w->own.Left(1); A(c[0] == text[0], "text is intact"); } break;
  case 1: { WString c = std::move(w->own); same(c, 0, 3); } break;
  case 2: { WString c = w->own.Sub(1, 2); w->own = WString::Empty; same(c, 1, 2); } break;
  case 3: { WString c; c = w->own; w->own = c.Left(1); same(w->own, 0, 1); same(c, 0, 3); } break;
  case 4: { WString c = w->own; A(c == w->own, "equal"); w->own = w->own.Right(2) ; same(w->own, 1, 2); } break;
  case 5: { WString c = w->own + w->own; A(c.Length() == 6, "joined"); A(c[4] == text[1], "joined"); } break;
  }
  w->own = WString::Empty; }
static void strRun(int n, int ops) {
  vint base = vs_live(); for (int i = 0; i < 3; i++) { text[i] = (wchar_t)vs_range("c", 1, 0x10FFFF); } text[3] = 0;
  { StrWork w[MAXT]; WString s = WString::CopyFrom(text, 3); for (int i = 0; i < n; i++) { w[i].own = i ? s : s.Left(3); w[i].op = (int)vs_choice("work", ops); } vs_preemptions(BOUND(4, n == 3 ? 3 : 6)); for (int i = 0; i < n; i++) vs_thread_create(strThread, &w[i]); int m = (int)vs_choice("main", 2); if (m) { WString c = s.Sub(0, 2); s = c; same(c, 0, 2); } s = WString::Empty; vs_join_all(); }
  A(vs_live() == base, "everything is released");
}
VS_ENTRY(strings) { // shards=8
  strRun(2, 6); vs_reach("strings");
}
VS_THOROUGH(stringsThree) { // shards=24
  strRun(3, 2); vs_reach("stringsThree");
}
// one thread makes the object, gives the other a copy before it starts, and both keep making and dropping copies
static void twice(void* x) { PtrWork* w = (PtrWork*)x; ptrOp(w->own, w->op); Ptr<Base> again = w->own; w->own = nullptr; if (again) use(again.Obj()); }
VS_THOROUGH(repeated) { // shards=24
  vint base = vs_live(); died = 0; expected = vs_u64("data"); { PtrWork w[2]; { Ptr<Base> p(new Derived(expected)); for (int i = 0; i < 2; i++) { w[i].own = p; w[i].op = (int)vs_choice("work", 6); } } vs_preemptions(6); for (int i = 0; i < 2; i++) vs_thread_create(twice, &w[i]); vs_join_all(); A(died == 1, "destroyed exactly once, by the last one"); } A(vs_live() == base, "everything is released"); vs_reach("repeated");
}
