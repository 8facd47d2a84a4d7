// sources: Basic.cpp Exception.cpp Strings/String.cpp
// bounds: arrays, lists, sorted lists, dictionaries, groups, lazy sequences, pointer ranges; every history of 4 (thorough 5) operations over 2 collections (associate, ask, ask by type, copy or move where the collection can, fill, destroy and make again) with a reference of one of two types decided by symbolic data
// outside: a notification that itself changes the collection; several threads
#include "coll.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
static const int R = 6; static int notified[R];
struct RefA : Object, virtual ICollectionReference { int id; uint64_t tag; RefA(int i, uint64_t t) : id(i), tag(t) {} void OnDisposed() override { notified[id]++; } };
struct RefB : RefA { RefB(int i, uint64_t t) : RefA(i, t) {} };
struct RefC : Object, virtual ICollectionReference { void OnDisposed() override {} };
template<typename X> static void fill(Array<X>& c) { c.Resize(2); } template<typename X> static void fill(List<X>& c) { c.Add(1); } template<typename X> static void fill(SortedList<X>& c) { c.Add(1); }
static void fill(Dictionary<vint, vint>& c) { c.Set(c.Count(), 1); } static void fill(Group<vint, vint>& c) { c.Add(1, c.Count()); } static void fill(LazyList<vint>& c) { c = Range<vint>(0, 2); }
template<typename T> static void histories() {
  uint64_t limit = vs_u64("limit"); int64_t live = vs_live(); { T* c[2] = { new T(), new T() }; int owner[2] = { -1, -1 }; uint64_t tags[R]; int made = 0, want[R] = {}; bool isB[R] = {}; Ptr<RefA> keep[R];
  for (int q = 0; q < BOUND(4, 5); q++) { int k = (int)vs_choice("which", 2);
    switch ((int)vs_choice("op", 7)) {
    case 0: { if (made == R) break; uint64_t tag = vs_u64("tag"); bool b = tag < limit; Ptr<RefA> r; if (b) r = Ptr(new RefB(made, tag)); else r = Ptr(new RefA(made, tag)); if (owner[k] != -1) { int o = owner[k]; MUST_THROW(c[k]->SetCollectionReference(r), "a second reference is refused"); MUST_THROW(c[k]->SetCollectionReference(keep[o]), "the same reference again is refused"); MUST_THROW(c[k]->SetCollectionReference(nullptr), "taking the reference away is refused"); A(c[k]->GetCollectionReference().Obj() == keep[o].Obj(), "and the first one stays"); vs_reach("refused"); } else { c[k]->SetCollectionReference(r); tags[made] = tag; isB[made] = b; keep[made] = r; owner[k] = made++; vs_reach("associated"); } break; }
    case 1: { auto a = c[k]->template TryGetCollectionReference<RefA>(); A((bool)a == (owner[k] != -1), "the reference by type"); if (a) A(a->tag == tags[owner[k]], "is the one associated"); if (owner[k] == -1) { A(!c[k]->template TryGetCollectionReference<RefC>(), "none of any type"); } else { MUST_THROW(c[k]->template TryGetCollectionReference<RefC>(), "another type is refused"); if (isB[owner[k]]) A((bool)c[k]->template TryGetCollectionReference<RefB>(), "its own type"); else MUST_THROW(c[k]->template TryGetCollectionReference<RefB>(), "a more special type is refused"); } break; }
    case 2: { { T t(std::move(*c[k])); } break; } // a collection made by moving is another collection
    case 3: { *c[k] = std::move(*c[1 - k]); break; }
    case 4: { if constexpr (std::is_copy_constructible_v<T>) { T t(*c[k]); A(!t.GetCollectionReference(), "a copy has no reference"); } if constexpr (std::is_copy_assignable_v<T>) *c[k] = *c[1 - k]; break; }
    case 5: fill(*c[k]); break;
    case 6: { delete c[k]; if (owner[k] != -1) want[owner[k]]++; owner[k] = -1; c[k] = new T(); vs_reach("destroyed"); break; }
    }
    for (int i = 0; i < made; i++) A(notified[i] == want[i], "notified exactly when its collection is destroyed"); for (int i = 0; i < 2; i++) { auto r = c[i]->GetCollectionReference(); if (owner[i] == -1) A(!r, "no reference"); else A(r.Obj() == keep[owner[i]].Obj(), "the associated reference"); A(c[i]->GetCollectionObject() == (const Object*)c[i], "the collection itself"); }
  }
  for (int i = 0; i < 2; i++) { delete c[i]; if (owner[i] != -1) want[owner[i]]++; } for (int i = 0; i < made; i++) A(notified[i] == want[i], "notified exactly once"); }
  A(vs_live() == live, "everything is released"); vs_reach("histories");
}
VS_ENTRY(array) { histories<Array<vint>>(); } // shards=2 tshards=4
VS_ENTRY(list) { histories<List<vint>>(); } // shards=2 tshards=4
VS_ENTRY(sortedList) { histories<SortedList<vint>>(); } // shards=2 tshards=4
VS_ENTRY(dictionary) { histories<Dictionary<vint, vint>>(); } // shards=2 tshards=4
VS_ENTRY(group) { histories<Group<vint, vint>>(); } // shards=2 tshards=4
VS_ENTRY(lazyList) { histories<LazyList<vint>>(); } // shards=2 tshards=4
