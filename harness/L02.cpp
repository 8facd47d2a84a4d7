// sources: Basic.cpp Exception.cpp
// bounds: histories of 4 (thorough 5) operations on lists, arrays, sorted lists, dictionaries and groups of objects that track their own life; lists of up to 14 (thorough 30) elements across growth and shrink points with arbitrary positions; containers of 17 to 257 (thorough 300) objects with one operation at the front, middle or end
// outside: longer histories; elements whose own copy or move raises an error
#include "coll.h"
#include "tall.h"
#include "Collections/Operation.h"
static void list(int n, int N) {
  { List<Obj> l; for (int i = 0; i < n; i++) l.Add(Obj(vs_u32("e"))); aliveIs(n, "one object per element"); int c = n;
    for (int k = 0; k < N; k++) { switch ((int)vs_choice("op", 9)) {
      case 0: l.Add(Obj(vs_u32("v"))); c++; break;
      case 1: { Obj o(vs_u32("v")); l.Insert(vs_choice("i", c + 1), o); c++; break; }
      case 2: l.Insert(vs_choice("i", c + 1), Obj(vs_u32("v"))); c++; break;
      case 3: if (c) { l.RemoveAt(vs_choice("i", c)); c--; } break;
      case 4: { int i = (int)vs_choice("i", c + 1), d = (int)vs_choice("d", c - i + 1); l.RemoveRange(i, d); c -= d; break; }
      case 5: if (c) { l.Set(vs_choice("i", c), Obj(4)); } break;
      case 6: l.Clear(); c = 0; break;
      case 7: { List<Obj> o; o.Add(Obj(5)); o = std::move(l); aliveIs(c, "overwritten elements destroyed by move assignment"); l = std::move(o); break; }
      case 8: { Obj o(vs_u32("x")); bool b = l.Contains(o); A(l.Remove(o) == b, "removed"); if (b) c--; break; }
    } aliveIs(c, "objects alive equal elements held"); A(l.Count() == c, "count"); for (int i = 0; i < c; i++) l[i].get(); }
  } aliveIs(0, "everything destroyed with the container"); vs_reach("list");
}
VS_ENTRY(listHist) { list(0, BOUND(4, 5)); } // shards=8 tshards=24
VS_ENTRY(listGrown) { list((int)vs_choice("n", BOUND(15, 31)), 2); } // shards=8 tshards=24
VS_ENTRY(arrayHist) { // shards=8 tshards=16
  int64_t live = vs_live(); { Array<Obj> a(vs_choice("size", 5)); int c = (int)a.Count(); aliveIs(c, "one object per element");
    for (int k = 0; k < BOUND(4, 5); k++) { switch ((int)vs_choice("op", 5)) {
      case 0: c = (int)vs_choice("new", 7); a.Resize(c); break;
      case 1: if (c) a.Set(vs_choice("i", c), Obj(4)); break;
      case 2: if (c) { Obj o(1); a[vs_choice("i", c)] = o; } break;
      case 3: { Array<Obj> b(2); b = std::move(a); A(a.Count() == 0, "moved-from array is empty"); aliveIs(c, "overwritten elements destroyed by move assignment"); Array<Obj> d(std::move(b)); a = std::move(d); break; }
      case 4: { Obj src[2] = { 1, 2 }; Array<Obj> b(src, 2); aliveIs(c + 4, "copied elements are objects of their own"); break; }
    } A(a.Count() == c, "count"); aliveIs(c, "objects alive equal elements held"); for (int i = 0; i < c; i++) a[i].get(); }
  } aliveIs(0, "everything destroyed with the array"); A(vs_live() == live, "all storage released"); vs_reach("array");
}
VS_ENTRY(sortedHist) { // shards=8 tshards=16
  int64_t live = vs_live(); { SortedList<Obj> l; int c = 0;
    for (int k = 0; k < BOUND(4, 6); k++) { uint32_t v = vs_u8("v"); switch ((int)vs_choice("op", 6)) {
      case 0: l.Add(Obj(v)); c++; break;
      case 1: { Obj o(v); l.Add(o); c++; break; }
      case 2: { Obj o(v); if (l.Remove(o)) c--; break; }
      case 3: if (c) { l.RemoveAt(vs_choice("i", c)); c--; } break;
      case 4: { SortedList<Obj> o; o.Add(Obj(5)); o = std::move(l); aliveIs(c, "overwritten elements destroyed by move assignment"); SortedList<Obj> p(std::move(o)); l = std::move(p); break; }
      case 5: { SortedList<Obj> o(l); aliveIs(2 * c, "a copy has objects of its own"); A(o.Count() == c, "copy has the same count"); break; }
    } aliveIs(c, "objects alive equal elements held"); A(l.Count() == c, "count"); for (int i = 0; i < c; i++) l[i].get(); }
  } aliveIs(0, "everything destroyed with the container"); A(vs_live() == live, "all storage released"); vs_reach("sorted");
}
VS_ENTRY(dictHist) { // shards=8 tshards=16
  int64_t live = vs_live(); { Dictionary<Obj, Obj> l; 
    for (int k = 0; k < BOUND(4, 5); k++) { uint32_t v = vs_u8("v"); switch ((int)vs_choice("op", 7)) {
      case 0: l.Set(Obj(v), Obj(v)); break;
      case 1: { Obj o(v), p(v); l.Set(o, p); o.get(); p.get(); break; }
      case 2: { Obj o(v), p(v); try { l.Add(o, p); } catch (const Error&) {} o.get(); p.get(); break; }
      case 3: { try { l.Add(Obj(v), Obj(v)); } catch (const Error&) {} break; }
      case 4: { Obj o(v); l.Remove(o); break; }
      case 5: { Dictionary<Obj, Obj> o; o.Add(Obj(1), Obj(2)); int c = (int)l.Count(); o = std::move(l); aliveIs(2 * c, "overwritten entries destroyed by move assignment"); Dictionary<Obj, Obj> p(std::move(o)); l = std::move(p); break; }
      case 6: l.Clear(); break;
    } aliveIs(2 * l.Count(), "objects alive equal entries held"); for (int i = 0; i < l.Count(); i++) A(l.Keys()[i].get() == l.Values()[i].get(), "entry"); }
  } aliveIs(0, "everything destroyed with the container"); A(vs_live() == live, "all storage released"); vs_reach("dict");
}
VS_ENTRY(groupHist) { // shards=8 tshards=16
  int64_t live = vs_live(); { Group<Obj, Obj> l; int c = 0;
    for (int k = 0; k < BOUND(4, 5); k++) { uint32_t v = vs_u8("v"), w = vs_u8("w"); switch ((int)vs_choice("op", 6)) {
      case 0: l.Add(Obj(v), Obj(w)); c++; break;
      case 1: { Obj o(v), p(w); l.Add(o, p); o.get(); p.get(); c++; break; }
      case 2: { Obj o(v); if (l.Contains(o)) c -= (int)l.Get(o).Count(); l.Remove(o); break; }
      case 3: { Obj o(v), p(w); if (l.Contains(o, p)) c--; l.Remove(o, p); break; }
      case 4: { Group<Obj, Obj> o; o.Add(Obj(1), Obj(2)); int n = c + (int)l.Count(); o = std::move(l); aliveIs(n, "overwritten entries destroyed by move assignment"); Group<Obj, Obj> p(std::move(o)); l = std::move(p); break; }
      case 5: l.Clear(); c = 0; break;
    } aliveIs(c + l.Count(), "objects alive equal keys and values held"); for (int i = 0; i < l.Count(); i++) { l.Keys()[i].get(); for (int j = 0; j < l.GetByIndex(i).Count(); j++) l.GetByIndex(i)[j].get(); } }
  } aliveIs(0, "everything destroyed with the container"); A(vs_live() == live, "all storage released"); vs_reach("group");
}
VS_ENTRY(copies) { // copying between containers makes objects of its own
  int64_t live = vs_live(); { int n = (int)vs_choice("n", 4), m = (int)vs_choice("m", 4); bool app = vs_choice("append", 2); List<Obj> s; for (int i = 0; i < n; i++) s.Add(Obj(vs_u32("v"))); List<Obj> d; Array<Obj> a; SortedList<Obj> o; for (int i = 0; i < m; i++) { d.Add(Obj(i)); o.Add(Obj(i)); } a.Resize(m); int t = app ? n + m : n;
    CopyFrom(d, s, app); A(d.Count() == t, "list"); aliveIs(n + t + 2 * m, "list copy"); CopyFrom(a, s, app); A(a.Count() == t, "array"); aliveIs(n + t + t + m, "array copy"); CopyFrom(o, s, app); A(o.Count() == t, "sorted"); aliveIs(n + 3 * t, "sorted copy"); for (auto& x : s) x.get(); for (auto& x : d) x.get(); for (auto& x : a) x.get(); for (auto& x : o) x.get(); }
  aliveIs(0, "everything destroyed"); A(vs_live() == live, "all storage released"); vs_reach("copies");
}
// many objects
VS_ENTRY(tallLists) { // shards=4 tshards=8
  int64_t live = vs_live(); { int n = tall(), c = n; List<Obj> l; for (int i = 0; i < n; i++) l.Add(Obj(i)); aliveIs(n, "one object per element"); int p = spot(n); switch ((int)vs_choice("op", 7)) { case 0: { Obj o(vs_u32("v")); l.Insert(p, o); c++; aliveIs(c + 1, "objects alive equal elements held"); break; } case 1: if (p < n) { l.RemoveAt(p); c--; } break; case 2: { int d = (n - p) / 2; l.RemoveRange(p, d); c -= d; break; } case 3: l.Clear(); c = 0; break; case 4: { List<Obj> o; o.Add(Obj(1)); o = std::move(l); aliveIs(c, "overwritten elements destroyed by move assignment"); l = std::move(o); break; } case 5: { Array<Obj> a; CopyFrom(a, l); aliveIs(2 * n, "a copy has objects of its own"); a.Resize(p); aliveIs(n + p, "a smaller array"); a.Resize(n + p); aliveIs(2 * n + p, "a larger array"); break; } case 6: { List<Obj> o; CopyFrom(o, l); CopyFrom(o, l, true); aliveIs(3 * n, "copies have objects of their own"); CopyFrom(o, From(l).Take(p)); aliveIs(n + p, "replaced elements destroyed"); break; } } aliveIs(c, "objects alive equal elements held"); for (int i = 0; i < l.Count(); i++) l[i].get(); } aliveIs(0, "everything destroyed with the container"); A(vs_live() == live, "all storage released"); vs_reach("tall lists");
}
VS_ENTRY(tallMaps) { // shards=4 tshards=8
  int64_t live = vs_live(); { int n = tall(4, 12), p = spotIn(n), kind = (int)vs_choice("kind", 3), op = (int)vs_choice("op", 4); if (kind == 0) { SortedList<Obj> l; for (int i = 0; i < n; i++) l.Add(Obj(i * 7 % n)); aliveIs(n, "one object per element"); switch (op) { case 0: l.RemoveAt(p); n--; break; case 1: l.Remove(Obj(p)); n--; break; case 2: l.Add(Obj(p)); n++; break; case 3: l.Clear(); n = 0; break; } aliveIs(n, "objects alive equal elements held"); }
    else if (kind == 1) { Dictionary<Obj, Obj> d; for (int i = 0; i < n; i++) d.Add(Obj(i * 7 % n), Obj(i)); aliveIs(2 * n, "two objects per entry"); switch (op) { case 0: d.Set(Obj(p), Obj(5)); break; case 1: d.Remove(Obj(p)); n--; break; case 2: d.Set(Obj(n + 1), Obj(1)); n++; break; case 3: d.Clear(); n = 0; break; } aliveIs(2 * n, "objects alive equal entries held"); }
    else { Group<Obj, Obj> g; int c = 0; for (int i = 0; i < n; i++) { int k = i * 7 % n; g.Add(Obj(k / 2), Obj(k)); } c = n + (int)g.Count(); aliveIs(c, "objects alive equal keys and values held"); switch (op) { case 0: c -= (int)g.Get(Obj(p / 2)).Count() + 1; g.Remove(Obj(p / 2)); break; case 1: { bool only = g.Get(Obj(p / 2)).Count() == 1; g.Remove(Obj(p / 2), Obj(p)); c -= 1 + only; break; } case 2: g.Add(Obj(p / 2), Obj(9)); c++; break; case 3: g.Clear(); c = 0; break; } aliveIs(c, "objects alive equal keys and values held"); } } aliveIs(0, "everything destroyed with the container"); A(vs_live() == live, "all storage released"); vs_reach("tall maps");
}
