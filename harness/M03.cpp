// sources: Basic.cpp Exception.cpp
// bounds: every history of 4 (thorough 5) operations over 3 COM pointers and fresh objects, or further references on objects already held, each starting with any number (1 to 2^40) of references held by the maker; objects holding COM pointers to other objects in chains of up to 4, with any pointer of the chain assigned to any earlier one
// assume: an object destroys itself when its reference count drops to zero, and AddRef/Release are the only way ComPtr reaches it
// outside: longer histories; more pointers
#include "coll.h"
#include "Primitives/Pointer.h"
// a COM-like object: the references held on it are counted by the object
struct Com { static inline int made = 0; int64_t refs; int released = 0; int added = 0; uint32_t tag = 0xC0; void AddRef() { A(tag == 0xC0, "AddRef on a live object"); added++; refs++; } void Release() { A(tag == 0xC0, "Release on a live object"); released++; if (--refs == 0) tag = 0xDEAD; } };
static const int P = 3; static const int NONE = -1; static const int MAX = 6;
// a group is one acquisition: the pointers that descend from one raw pointer share one reference
struct World { Com o[MAX]; ComPtr<Com> p[P]; int which[P] = {NONE, NONE, NONE}; int64_t start[MAX]; int of[MAX]; int groups = 0; int taken[MAX] = {}; };
static bool shared(const World& w, int g) { for (int i = 0; i < P; i++) if (w.which[i] == g) return true; return false; }
static int held(const World& w, int k) { int n = 0; for (int g = 0; g < w.groups; g++) if (w.of[g] == k && shared(w, g)) n++; return n; } // acquisitions of the object still in use
static void agree(const World& w) {
  for (int i = 0; i < P; i++) { const Com* want = w.which[i] == NONE ? nullptr : &w.o[w.of[w.which[i]]]; A((bool)w.p[i] == (want != nullptr), "empty exactly when it holds nothing"); A(w.p[i].Obj() == want, "points at the object it holds"); A(w.p[i].operator->() == want, "points at the object it holds"); A(w.p[i] == want, "equal to its object"); for (int j = 0; j < P; j++) { const Com* other = w.which[j] == NONE ? nullptr : &w.o[w.of[w.which[j]]]; A((w.p[i] == w.p[j]) == (want == other), "equality follows the object"); A((w.p[i] <=> w.p[j]) == (want <=> other), "order follows the address"); A((w.p[i] <=> other) == (want <=> other), "order follows the address"); } }
  for (int k = 0; k < Com::made; k++) { A((w.o[k].tag == 0xDEAD) == (w.o[k].refs == 0), "an object nobody references is gone"); if (held(w, k)) A(w.o[k].tag == 0xC0, "an object held by a pointer is alive"); A(w.o[k].refs == w.start[k] - (w.taken[k] - held(w, k)), "one reference is given back exactly when the last pointer lets go"); }
}
// a fresh object with a symbolic number of references, one of which is handed to the COM pointer
static int acquire(World& w, int k) { w.of[w.groups] = k; w.taken[k]++; return w.groups++; }
static int fresh(World& w) { int k = Com::made++; w.start[k] = vs_range("refs", 1, 1ll << 40); w.o[k].refs = w.start[k]; return k; }
static void step(World& w) {
  int i = (int)vs_choice("i", P), j;
  switch ((int)vs_choice("op", 10)) {
  case 0: { int k = fresh(w); w.p[i] = &w.o[k]; w.which[i] = acquire(w, k); vs_reach("assign raw"); break; }
  case 1: { int k = fresh(w); w.p[i] = ComPtr<Com>(&w.o[k]); w.which[i] = acquire(w, k); vs_reach("make"); break; }
  case 2: j = (int)vs_choice("j", P); w.p[i] = w.p[j]; w.which[i] = w.which[j]; vs_reach("copy"); break;
  case 3: j = (int)vs_choice("j", P); w.p[i] = std::move(w.p[j]); if (i != j) { w.which[i] = w.which[j]; w.which[j] = NONE; } vs_reach("move"); break;
  case 4: w.p[i] = nullptr; w.which[i] = NONE; vs_reach("clear"); break;
  case 5: w.p[i] = (Com*)nullptr; w.which[i] = NONE; vs_reach("clear raw"); break;
  case 6: { ComPtr<Com> t(w.p[i]); A(t == w.p[i], "a copy is equal"); ComPtr<Com> u(std::move(t)); A(!t, "moved-from pointer is empty"); j = (int)vs_choice("j", P); w.p[j] = u; w.which[j] = w.which[i]; break; }
  case 7: { ComPtr<Com> e(nullptr), f, g((Com*)nullptr); A(!e & !f & !g, "null pointers are empty"); A(e == f, "empty pointers are equal"); w.p[i] = vs_choice("which", 2) ? e : std::move(g); w.which[i] = NONE; break; }
  case 8: { int k = fresh(w), g = acquire(w, k); { ComPtr<Com> t(&w.o[k]); ComPtr<Com> u; u = t; A(w.o[k].refs == w.start[k], "held"); if (vs_choice("keep", 2)) { w.p[i] = u; w.which[i] = g; } } vs_reach("scope"); break; }
  case 9: { if (w.which[i] == NONE) break; int k = w.of[w.which[i]]; j = (int)vs_choice("j", P); w.o[k].AddRef(); w.start[k]++; if (vs_choice("raw", 2)) w.p[j] = &w.o[k]; else w.p[j] = ComPtr<Com>(&w.o[k]); w.which[j] = acquire(w, k); vs_reach("another reference on the same object"); break; } // possibly handed to the pointer that holds it already
  }
  agree(w);
}
VS_ENTRY(histories) { // shards=8 tshards=32
  Com::made = 0; int64_t live = vs_live(); { World w; { for (int i = 0; i < BOUND(3, 4); i++) step(w); for (int i = 0; i < P; i++) { w.p[i] = nullptr; w.which[i] = NONE; } agree(w); for (int k = 0; k < Com::made; k++) { A(w.o[k].refs == w.start[k] - w.taken[k], "exactly the references taken over are given back"); A(w.o[k].released - w.o[k].added == 1, "released exactly once more than acquired"); } } } A(vs_live() == live, "all storage released"); vs_reach("history");
}
// destroying pointers (not clearing them) gives the references back
VS_ENTRY(scopes) { // shards=4
  Com::made = 0; int64_t live = vs_live(); World* w = new World; for (int i = 0; i < BOUND(2, 3); i++) step(*w); int64_t refs[MAX], start[MAX]; Com* o = w->o; struct Last { World* w; int64_t* refs; }; for (int i = 0; i < P; i++) w->p[i].~ComPtr<Com>(); for (int k = 0; k < Com::made; k++) A(o[k].refs == w->start[k] - w->taken[k], "given back by destruction"); ::operator delete((void*)w); A(vs_live() == live, "all storage released"); vs_reach("scopes");
}
// objects holding each other
struct Link { static inline int alive = 0; int64_t refs = 1; int id; ComPtr<Link> next; uint32_t tag = 0xC0; Link(int i) : id(i) { alive++; } ~Link() { A(tag == 0xC0, "destroyed once"); tag = 0; alive--; } void AddRef() { refs++; } void Release() { A(tag == 0xC0, "Release on a live object"); if (--refs == 0) delete this; } };
VS_ENTRY(chains) { // shards=4
  Link::alive = 0; int64_t live = vs_live(); { int n = 1 + (int)vs_choice("n", 4); ComPtr<Link> head; for (int i = n - 1; i >= 0; i--) { ComPtr<Link> l(new Link(i)); l->next = head; head = l; }
    ComPtr<Link>* at[5]; Link* obj[5]; at[0] = &head; obj[0] = head.Obj(); for (int i = 1; i <= n; i++) { at[i] = &(*at[i - 1])->next; obj[i] = at[i]->Obj(); } int a = (int)vs_choice("a", n + 1), b = (int)vs_choice("b", n + 1); vs_assume(a < b);
    if (vs_choice("move", 2)) *at[a] = std::move(*at[b]); else *at[a] = *at[b];
    A(at[a]->Obj() == obj[b], "the assigned pointer"); A(Link::alive == n - (b - a), "exactly the skipped objects are destroyed"); int seen = 0; for (Link* l = head.Obj(); l; l = l->next.Obj()) { A(l->tag == 0xC0, "what is left of the chain is alive"); seen++; } A(seen == n - (b - a), "the rest of the chain is intact"); } A(Link::alive == 0, "everything is released"); A(vs_live() == live, "all storage released"); vs_reach("chains");
}
VS_ENTRY(selfheld) { Link::alive = 0; int64_t live = vs_live(); { Link* l = new Link(0); l->next = l; switch ((int)vs_choice("how", 3)) { case 0: l->next = nullptr; break; case 1: l->next = ComPtr<Link>(); break; case 2: { ComPtr<Link> t = l->next; l->next = nullptr; A(Link::alive == 1, "still held"); t = nullptr; break; } } A(Link::alive == 0, "an object that lets go of itself is released once"); } A(vs_live() == live, "all storage released"); vs_reach("selfheld"); }
