// sources: Basic.cpp Exception.cpp
// bounds: every history of 4 (thorough 5) operations over 3 pointers and freshly made objects of a small hierarchy (base, two derived, one with virtual and second bases); objects with two plain bases converted in 6 ways to a pointer to either base; chains of up to 4 objects owning each other with any pointer of the chain assigned to any other; histories of 2 (thorough 3) operations over 4 pointers of two types to 2 objects that already have any number (up to 2^40) of other owners
// outside: longer histories; more pointers; the counter of an object detached by its last owner (documented to stay behind)
#include "coll.h"
#include "Primitives/Pointer.h"
struct Side { virtual ~Side() {} uint64_t pad = 7; };
struct Base : Object { static inline int alive = 0; static inline int died[64]; static inline int made = 0; int id; uint32_t tag = 0xA11FE; Base() : id(made++) { alive++; died[id] = 0; } ~Base() { A(tag == 0xA11FE, "destroyed while alive"); tag = 0; alive--; died[id]++; } };
struct Left : Side, Base {}; struct Right : Base { uint32_t extra = 5; };
static void reset() { Base::alive = 0; Base::made = 0; }
static const int P = 3; static const int NONE = -1;
// which[i]: the object pointer i must own, or NONE
struct World { Ptr<Base> p[P]; int which[P] = {NONE, NONE, NONE}; bool detached[64] = {}; Base* obj[64] = {}; int kind[64]; };
static bool owned(const World& w, int id) { for (int i = 0; i < P; i++) if (w.which[i] == id) return true; return false; }
static void agree(const World& w) {
  for (int i = 0; i < P; i++) { A((bool)w.p[i] == (w.which[i] != NONE), "empty exactly when it owns nothing"); A(w.p[i].Obj() == (w.which[i] == NONE ? nullptr : w.obj[w.which[i]]), "points at the object it owns"); if (w.which[i] != NONE) A(w.p[i]->tag == 0xA11FE, "the object is alive"); for (int j = 0; j < P; j++) A((w.p[i] == w.p[j]) == (w.which[i] == w.which[j]), "equality follows the object"); }
  for (int k = 0; k < Base::made; k++) A(Base::died[k] == (owned(w, k) || w.detached[k] ? 0 : 1), "destroyed exactly once, when nobody owns it any more");
}
static int make(World& w, int kind, Ptr<Base>& to) { int id = Base::made; if (kind == 0) { auto q = Ptr(new Base); w.obj[id] = q.Obj(); to = q; } else if (kind == 1) { Ptr<Left> q(new Left); w.obj[id] = q.Obj(); if (vs_choice("move", 2)) { to = std::move(q); A(!q, "moved-from pointer is empty"); A(q.Obj() == nullptr, "moved-from pointer is empty"); } else { to = q; A(q.Obj() == w.obj[id], "copied-from pointer keeps its object"); } } else { Ptr<Right> q(new Right); w.obj[id] = q.Obj(); to = Ptr<Base>(q); } w.kind[id] = kind; return id; }
static void step(World& w) {
  int i = (int)vs_choice("i", P), j;
  switch ((int)vs_choice("op", 10)) {
  case 0: w.which[i] = make(w, (int)vs_choice("kind", 3), w.p[i]); vs_reach("make"); break;
  case 1: j = (int)vs_choice("j", P); w.p[i] = w.p[j]; w.which[i] = w.which[j]; vs_reach("copy"); break;
  case 2: j = (int)vs_choice("j", P); w.p[i] = std::move(w.p[j]); if (i != j) { w.which[i] = w.which[j]; w.which[j] = NONE; } vs_reach("move"); break;
  case 3: w.p[i] = nullptr; w.which[i] = NONE; vs_reach("clear"); break;
  case 4: { Ptr<Base> t(w.p[i]); A(t == w.p[i], "a copy is equal"); Ptr<Base> u(std::move(t)); A(!t, "moved-from pointer is empty"); A(u.Obj() == w.p[i].Obj(), "a moved pointer keeps the object"); j = (int)vs_choice("j", P); w.p[j] = u; w.which[j] = w.which[i]; vs_reach("temporaries"); break; }
  case 5: { auto l = w.p[i].Cast<Left>(); auto r = w.p[i].Cast<Right>(); auto s = w.p[i].Cast<Side>(); int k = w.which[i] == NONE ? NONE : w.kind[w.which[i]]; A((bool)l == (k == 1), "cast succeeds exactly for objects of the type"); A((bool)r == (k == 2), "cast succeeds exactly for objects of the type"); A((bool)s == (k == 1), "cast to a second base"); if (l) A(static_cast<Base*>(l.Obj()) == w.obj[w.which[i]], "casting keeps the object"); if (s) A(dynamic_cast<Base*>(s.Obj()) == w.obj[w.which[i]], "casting keeps the object");
    j = (int)vs_choice("j", P); if (k == 1) { w.p[i] = nullptr; w.p[j] = vs_choice("way", 2) ? Ptr<Base>(std::move(l)) : s.Cast<Base>(); int o = w.which[i]; w.which[i] = NONE; w.which[j] = o; } vs_reach("cast"); break; }
  case 6: { int o = w.which[i]; Base* b = w.p[i].Detach(); A(b == (o == NONE ? nullptr : w.obj[o]), "Detach returns the object"); w.which[i] = NONE; if (o != NONE && !owned(w, o)) w.detached[o] = true; vs_reach("detach"); break; }
  case 7: { int o = w.which[i]; const Base* raw = o == NONE ? nullptr : w.obj[o]; A(w.p[i] == raw, "equal to the address of its object"); j = (int)vs_choice("j", P); A((w.p[i] <=> w.p[j]) == (w.p[i].Obj() <=> w.p[j].Obj()), "ordered like addresses"); A((w.p[i] <=> w.p[j].Obj()) == (w.p[i].Obj() <=> w.p[j].Obj()), "ordered like addresses"); A((w.p[i] < w.p[j]) == (w.p[i].Obj() < w.p[j].Obj()), "ordered like addresses"); break; }
  case 8: { Ptr<const Base> c = w.p[i]; j = (int)vs_choice("j", P); if (i != j) { w.p[i] = nullptr; int o = w.which[i]; w.which[i] = NONE; if (o != NONE) A(c->tag == 0xA11FE, "alive while a pointer of another type owns it"); } break; }
  case 9: { Ptr<Base> e(nullptr), f, g((Base*)nullptr); A(!e && !f && !g, "null pointers are empty"); A(e == f, "empty pointers are equal"); w.p[i] = vs_choice("which", 2) ? e : std::move(g); w.which[i] = NONE; break; }
  }
  agree(w);
}
static void hist(int n) { reset(); int64_t live = vs_live(); Base* left[64]; int nleft = 0; { World w; for (int i = 0; i < n; i++) step(w); for (int k = 0; k < Base::made; k++) if (w.detached[k]) left[nleft++] = w.obj[k]; } A(Base::alive == nleft, "everything owned is destroyed in the end"); for (int k = 0; k < nleft; k++) { A(left[k]->tag == 0xA11FE, "detached object stays alive"); delete left[k]; } if (!nleft) A(vs_live() == live, "all storage released"); vs_reach("history"); }
VS_ENTRY(histories) { hist(BOUND(3, 4)); } // shards=16 tshards=32
// objects that keep their own counter (the documented strategy), already owned by an arbitrary number of other owners
struct Own { atomic_vint counter; int dead = 0; int64_t others = 0; virtual ~Own() {} }; struct OwnD : Own {}; struct Pad { uint64_t pad = 3; virtual ~Pad() {} }; struct OwnE : Pad, Own {};
namespace vl { template<typename T> struct ReferenceCounterOperator<T, std::enable_if_t<std::is_base_of_v<Own, T>>> { static atomic_vint* CreateCounter(T* o) { return &o->counter; } static void DeleteReference(atomic_vint* c, void* r) { auto o = (T*)r; A(c == &o->counter, "its own counter"); A(c->load() == 0, "released at zero"); o->dead++; } }; }
template<typename X> struct Owners { X o[2]; Ptr<Own> p[3]; Ptr<X> q; int which[3] = {-1, -1, -1}, qw = -1; bool gone[2] = {false, false}; int let[2] = {0, 0};
  int64_t owners(int k) { int64_t n = qw == k; for (int i = 0; i < 3; i++) n += which[i] == k; return n; }
  void check() { for (int k = 0; k < 2; k++) { int64_t n = o[k].others + owners(k); A(o[k].counter.load() == n, "the counter is the number of owners"); A(o[k].dead == vs_ite64(!let[k] ? 0 : n == 0, 1, 0), "destroyed exactly when the last owner lets go"); } for (int i = 0; i < 3; i++) A(p[i].Obj() == (which[i] < 0 ? nullptr : (Own*)&o[which[i]]), "points at what it owns"); A(q.Obj() == (qw < 0 ? nullptr : &o[qw]), "points at what it owns"); }
  void lets(int k, bool silently = false) { if (k >= 0) { if (silently) vs_assume((o[k].others + owners(k)) > 0); else let[k] = 1; } }
  void step() { int i = (int)vs_choice("i", 3), j = (int)vs_choice("j", 3), k = (int)vs_choice("k", 2), old = which[i];
    if (o[k].dead) return; // a destroyed object is not attached again
    switch ((int)vs_choice("op", 9)) {
    case 0: which[i] = k; if (old >= 0 && !owners(old)) let[old] = 1; p[i] = Ptr<Own>(&o[k]); break;
    case 1: which[i] = which[j]; lets(old); p[i] = p[j]; break;
    case 2: if (i == j) { p[i] = std::move(p[j]); break; } which[i] = which[j]; which[j] = -1; lets(old); p[i] = std::move(p[j]); break;
    case 3: which[i] = -1; lets(old); p[i] = nullptr; break;
    case 4: which[i] = -1; lets(old, true); { Own* b = p[i].Detach(); A(b == (old < 0 ? nullptr : (Own*)&o[old]), "Detach returns the object"); } break;
    case 5: { int oq = qw; qw = which[i]; lets(oq); q = p[i].template Cast<X>(); break; }
    case 6: which[i] = qw; lets(old); p[i] = q; break;
    case 7: { if (i != j) { int oq = qw; which[i] = oq; qw = -1; lets(old); p[i] = std::move(q); A(!q, "moved-from pointer is empty"); } break; }
    case 8: { Ptr<Own> t(p[i]); Ptr<Own> u(std::move(t)); Ptr<const Own> c(u); A(c.Obj() == p[i].Obj(), "copies"); if (which[i] >= 0) A(o[which[i]].counter.load() == o[which[i]].others + owners(which[i]) + 2, "temporaries own too"); break; }
    } check(); }
};
template<typename X> static void counted(int n) { int64_t live = vs_live(); X* kept; Owners<X> w; for (int k = 0; k < 2; k++) { w.o[k].others = vs_range("others", 0, 1ll << 40); w.o[k].counter.store(w.o[k].others); } for (int i = 0; i < n; i++) w.step(); for (int i = 0; i < 3; i++) { w.lets(w.which[i]); w.which[i] = -1; w.p[i] = nullptr; } w.lets(w.qw); w.qw = -1; w.q = nullptr; w.check(); A(vs_live() == live, "all storage released"); vs_reach("counted"); }
VS_ENTRY(countedPlain) { counted<OwnD>(BOUND(2, 3)); } // shards=8 tshards=32
VS_ENTRY(countedSecondBase) { counted<OwnE>(BOUND(2, 3)); } // shards=8 tshards=32
// plain classes with two bases and no virtual destructor: the last owner, of whatever type, destroys the whole object it was made as
struct One { uint64_t a = 1; }; struct Two { uint64_t b = 2; }; struct Both : One, Two { static inline int dead; uint32_t tag = 0xA11FE; ~Both() { A(tag == 0xA11FE, "destroyed as what it was made as"); tag = 0; dead++; } };
template<typename B> static Ptr<B> up(Ptr<Both>& d) { switch ((int)vs_choice("how", 6)) { case 0: return Ptr<B>(d); case 1: { Ptr<B> r(std::move(d)); A(!d, "moved-from pointer is empty"); return r; } case 2: { Ptr<B> r; r = d; return r; } case 3: { Ptr<B> r; r = std::move(d); A(!d, "moved-from pointer is empty"); return r; } case 4: { Ptr<B> r(new B); r = d; return r; } default: { Ptr<B> r(new B); r = std::move(d); A(!d, "moved-from pointer is empty"); return r; } } }
template<typename B> static Ptr<B> again(Ptr<B> p) { switch ((int)vs_choice("then", 4)) { case 0: return p; case 1: { Ptr<B> r(std::move(p)); return r; } case 2: { Ptr<B> r(p); p = nullptr; return r; } default: { Ptr<B> r(new B); r = p; return r; } } }
template<typename B> static void plain() { Both::dead = 0; int64_t live = vs_live(); { Ptr<Both> d(new Both); B* raw = d.Obj(); { Ptr<B> p = again<B>(up<B>(d)); A(p.Obj() == raw, "points at its part of the object"); bool first = vs_choice("first", 2); if (first) d = nullptr; A(Both::dead == 0, "alive while owned"); Ptr<const B> c; if (vs_choice("const", 2)) { c = std::move(p); A(c.Obj() == raw, "points at its part of the object"); } A(Both::dead == 0, "alive while owned"); } A(Both::dead == (d ? 0 : 1), "destroyed with its last owner"); d = nullptr; A(Both::dead == 1, "destroyed exactly once"); } A(vs_live() == live, "all storage released"); vs_reach("plain"); }
VS_ENTRY(plainFirstBase) { plain<One>(); }
VS_ENTRY(plainSecondBase) { plain<Two>(); }
// objects owning each other in a chain; pointers in the middle of the chain are overwritten by later ones
struct Link { static inline int alive = 0; Ptr<Link> next; int id; uint32_t tag = 0xA11FE; Link(int i) : id(i) { alive++; } ~Link() { A(tag == 0xA11FE, "destroyed once"); tag = 0; alive--; } };
struct LinkD : Link { LinkD(int i) : Link(i) {} uint32_t x = 1; };
VS_ENTRY(chains) { // shards=4
  Link::alive = 0; int64_t live = vs_live(); { int n = 1 + (int)vs_choice("n", 4); Ptr<Link> head; for (int i = n - 1; i >= 0; i--) { Ptr<Link> l(vs_choice("derived", 2) ? new LinkD(i) : new Link(i)); l->next = head; head = l; }
    Ptr<Link>* at[5]; Link* obj[5]; at[0] = &head; obj[0] = head.Obj(); for (int i = 1; i <= n; i++) { at[i] = &(*at[i - 1])->next; obj[i] = at[i]->Obj(); } int a = (int)vs_choice("a", n + 1), b = (int)vs_choice("b", n + 1); vs_assume(a < b); bool move = vs_choice("move", 2);
    if (move) *at[a] = std::move(*at[b]); else *at[a] = *at[b];
    A(at[a]->Obj() == obj[b], "the assigned pointer"); A(Link::alive == n - (b - a), "exactly the skipped objects are destroyed"); int seen = 0; for (Link* l = head.Obj(); l; l = l->next.Obj()) { A(l->tag == 0xA11FE, "what is left of the chain is alive"); seen++; } A(seen == n - (b - a), "the rest of the chain is intact"); } A(Link::alive == 0, "everything is destroyed"); A(vs_live() == live, "all storage released"); vs_reach("chains");
}
// an object that owns itself and lets go
VS_ENTRY(selfowned) { Link::alive = 0; int64_t live = vs_live(); { Link* l = new Link(0); l->next = Ptr(l); switch ((int)vs_choice("how", 3)) { case 0: l->next = nullptr; break; case 1: l->next = Ptr<Link>(); break; case 2: { Ptr<Link> t = l->next; l->next = nullptr; A(Link::alive == 1, "still owned"); t = nullptr; break; } } A(Link::alive == 0, "an object that lets go of itself is destroyed once"); } A(vs_live() == live, "all storage released"); vs_reach("selfowned"); }
VS_ENTRY(many) { Link::alive = 0; int64_t live = vs_live(); { const int N = BOUND(6, 12); Ptr<Link> p[12]; p[0] = Ptr(new Link(0)); for (int i = 1; i < N; i++) p[i] = p[vs_choice("from", i < 3 ? i : 3)]; int order = (int)vs_choice("order", N); for (int k = 0; k < N; k++) { A(Link::alive == 1, "alive while owned"); p[(k + order) % N] = nullptr; } A(Link::alive == 0, "destroyed by the last"); } A(vs_live() == live, "all storage released"); vs_reach("many"); }

// a failed cast owns nothing: the object goes with its last owner, and the failed result can be copied, moved, assigned and compared
VS_ENTRY(failedCast) { int64_t live = vs_live(); int alive = 0; struct F { int* n; F(int* x) : n(x) { ++*n; } virtual ~F() { --*n; } }; struct G : F { using F::F; }; struct H : F { using F::F; };
  { Ptr<F> p(new G(&alive)); Ptr<F> q = p; auto bad = p.Cast<H>(); A(!bad, "not of the type"); A(bad.Obj() == nullptr, "empty"); Ptr<H> copy = bad; Ptr<H> moved = std::move(copy); Ptr<F> up(moved); Ptr<F> upMoved(Ptr<H>{bad}); A(!up, "empty"); A(bad == Ptr<H>(), "equals an empty one"); A(alive == 1, "alive while owned"); switch (vs_choice("way", 4)) { case 0: p = nullptr; q = nullptr; break; case 1: p = up; q = upMoved; break; case 2: { Ptr<F> r(std::move(p)); r = std::move(up); q = Ptr<F>(bad); break; } case 3: { p = q.Cast<H>(); A(alive == 1, "alive while owned"); q = Ptr<F>(); break; } } A(alive == 0, "destroyed when the last owner let go, failed casts do not own"); Ptr<H> good(new H(&alive)); bad = good; good = nullptr; A(alive == 1, "alive while owned"); bad = nullptr; A(alive == 0, "destroyed when the last owner let go"); Ptr<F> none; auto nc = none.Cast<G>(); A(!nc, "casting an empty one is empty"); }
  A(alive == 0, "destroyed exactly once"); A(vs_live() == live, "all storage released"); vs_reach("failed cast"); }
