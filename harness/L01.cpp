// sources: Basic.cpp Exception.cpp
// bounds: histories of 4 (thorough 5) operations from an empty list; lists of 0..20 (thorough 40) elements in every capacity state reachable by growing to n and removing any range, followed by any operation with any 64-bit argument; lists of 17 to 257 (thorough 300) elements with one operation at the front, middle or end; element values arbitrary; elements of a plain and of a class type
// outside: longer histories and lists; elements whose own copy or move raises an error; more than 2^60 elements
#define SEQ_CAP 320
#include "coll.h"
#include "tall.h"
// one operation with arbitrary arguments; false: it was (rightly) refused
template<typename T> static bool step(List<T>& l, Seq& m, int op) {
  uint32_t v = vs_u32("v"); vint i = 0, c = 0;
  switch (op) {
  case 0: A(l.Add(T(v)) == m.n, "Add returns the index"); m.push(v); return true;
  case 1: { T t(v); A(l.Add(t) == m.n, "Add returns the index"); A(val(t) == v, "argument unchanged"); m.push(v); return true; }
  case 2: { if (inRange("index", 0, m.n, i)) { T t(v); A(l.Insert(i, t) == i, "Insert returns the index"); A(val(t) == v, "argument unchanged"); m.insert((int)i, v); return true; } T t(v); MUST_THROW(l.Insert(i, t), "Insert out of range must raise"); MUST_THROW(l.Insert(i, T(v)), "Insert out of range must raise"); return false; }
  case 3: { if (inRange("index", 0, m.n, i)) { A(l.Insert(i, T(v)) == i, "Insert returns the index"); m.insert((int)i, v); return true; } MUST_THROW(l.Insert(i, T(v)), "Insert out of range must raise"); return false; }
  case 4: { if (inRange("index", 0, m.n - 1, i)) { A(l.RemoveAt(i), "RemoveAt succeeds"); m.remove((int)i, 1); return true; } MUST_THROW(l.RemoveAt(i), "RemoveAt out of range must raise"); return false; }
  case 5: { if (inRange("index", 0, m.n, i)) { if (inRange("count", 0, m.n - i, c)) { A(l.RemoveRange(i, c), "RemoveRange succeeds"); m.remove((int)i, (int)c); return true; } } else c = vs_u64("count"); MUST_THROW(l.RemoveRange(i, c), "RemoveRange out of range must raise"); return false; }
  case 6: { if (inRange("index", 0, m.n - 1, i)) { T t(v); A(l.Set(i, t), "Set succeeds"); m.e[i] = v; v = vs_u32("v2"); same(l, m, "after Set"); A(l.Set(i, T(v)), "Set succeeds"); m.e[i] = v; return true; } T t(v); MUST_THROW(l.Set(i, t), "Set out of range must raise"); MUST_THROW(l.Set(i, T(v)), "Set out of range must raise"); return false; }
  case 7: { if (inRange("index", 0, m.n - 1, i)) { A(val(((const List<T>&)l)[i]) == m.e[i], "element"); l[i] = T(v); m.e[i] = v; return true; } MUST_THROW(l[i], "index out of range must raise"); MUST_THROW(((const List<T>&)l)[i], "index out of range must raise"); MUST_THROW(l.Get(i), "index out of range must raise"); return false; }
  case 8: { T t(v); int p = m.find(v); A(l.IndexOf(t) == p, "IndexOf is the first equal element"); A(l.Contains(t) == (p != -1), "Contains"); A(l.Remove(t) == (p != -1), "Remove tells whether it removed"); if (p != -1) m.remove(p, 1); return true; }
  case 9: l.Clear(); m.n = 0; return true;
  case 10: { List<T> o(std::move(l)); A(l.Count() == 0, "moved-from list is empty"); same(o, m, "moved list"); l.Add(T(v)); l = std::move(o); A(o.Count() == 0, "moved-from list is empty"); o.Add(T(v)); o.Insert(0, T(v + 1)); Seq r; r.push(v + 1); r.push(v); same(o, r, "moved-from list is usable again"); return true; }
  case 11: { if (!inRange("index", 0, m.n, i)) return false; vint j; if (!inRange("own", 0, m.n - 1, j)) return false; uint32_t w = m.e[j]; A(l.Insert(i, l[j]) == i, "inserting an element of the list itself"); m.insert((int)i, w); return true; }
  }
  return true;
}
static const int OPS = 12;
template<typename T> static void hist(int N) {
  int64_t live = vs_live(); { List<T> l; Seq m; same(l, m, "new list is empty"); for (int k = 0; k < N; k++) { bool ok = step(l, m, (int)vs_choice("op", OPS)); same(l, m, ok ? "contents after the operation" : "contents after a refused operation"); if (!ok) { vs_reach("refused"); break; } if (k == N - 1) vs_reach("history"); } }
  A(vs_live() == live, "all storage released");
}
VS_ENTRY(histPlain) { hist<uint32_t>(BOUND(4, 5)); } // shards=8 tshards=32
VS_ENTRY(histObj) { hist<Obj>(BOUND(4, 5)); } // shards=8 tshards=24
// grown to n, any range removed, then two operations
template<typename T> static void grown(int max) {
  int n = (int)vs_choice("n", max + 1), op = (int)vs_choice("op", OPS), cut = (int)vs_choice("cut", 2); List<T> l; Seq m; for (int i = 0; i < n; i++) { uint32_t v = vs_u32("e"); l.Add(T(v)); m.push(v); } same(l, m, "grown");
  if (cut) { int i = (int)vs_choice("at", n + 1); int c = (int)vs_choice("len", n - i + 1); l.RemoveRange(i, c); m.remove(i, c); same(l, m, "range removed"); if (op == 5 || op == 8 || op == 11) return; }
  bool ok = step(l, m, op); same(l, m, ok ? "contents after the operation" : "contents after a refused operation"); uint32_t v = vs_u32("last"); l.Insert(m.n / 2, T(v)); m.insert(m.n / 2, v); same(l, m, "contents after a further insertion"); vs_reach("grown");
}
VS_ENTRY(grownPlain) { grown<uint32_t>(BOUND(20, 40)); } // shards=8 tshards=32
VS_ENTRY(grownObj) { grown<Obj>(BOUND(14, 28)); } // shards=8 tshards=32
// filled and emptied one by one across every growth and shrink point
template<typename T> static void tide(int N) {
  List<T> l; Seq m; int front = (int)vs_choice("front", 3); for (int r = 0; r < 2; r++) { for (int i = 0; i < N; i++) { uint32_t v = vs_u32("e"); int p = front == 0 ? m.n : front == 1 ? 0 : m.n / 2; l.Insert(p, T(v)); m.insert(p, v); same(l, m, "rising"); } while (m.n > (r ? 0 : 2)) { int p = front == 0 ? 0 : front == 1 ? m.n - 1 : m.n / 2; l.RemoveAt(p); m.remove(p, 1); same(l, m, "falling"); } } vs_reach("tide");
}
VS_ENTRY(tidePlain) { tide<uint32_t>(BOUND(40, 100)); }
VS_ENTRY(tideObj) { tide<Obj>(BOUND(30, 80)); }
// elements compared through their key type
struct Foo { uint32_t v; };
VS_ENTRY(keyed) {
  List<Ptr<Foo>> l; Ptr<Foo> f[3]; for (auto& x : f) x = Ptr(new Foo{1}); int ix[4]; int n = (int)vs_choice("n", 5); for (int i = 0; i < n; i++) { ix[i] = (int)vs_choice("which", 3); l.Add(f[ix[i]]); }
  int w = (int)vs_choice("probe", 3), p = -1; for (int i = n - 1; i >= 0; i--) if (ix[i] == w) p = i; A(l.IndexOf(f[w].Obj()) == p, "first pointer to the object"); A(l.Contains(f[w].Obj()) == (p != -1), "Contains"); A(l.Remove(f[w].Obj()) == (p != -1), "Remove"); A(l.Count() == n - (p != -1), "count"); for (int i = 0, k = 0; i < n; i++) if (i != p) A(l[k++].Obj() == f[ix[i]].Obj(), "others stay"); vs_reach("keyed");
}
// long lists: one operation near either end or in the middle, then growing and draining
template<typename T> static void tallList() {
  int64_t live = vs_live(); { int n = tall(); bool front = vs_choice("front", 2); List<T> l; Seq m; for (int i = 0; i < n; i++) { uint32_t v = 7 * i + 1; l.Insert(front ? 0 : i, T(v)); m.push(v); } if (front) for (int i = 0; i < n; i++) m.e[i] = 7 * (n - 1 - i) + 1; same(l, m, "long list");
    uint32_t s = vs_u32("v"); int op = (int)vs_choice("op", 9), p = spot(n); if (p == n && op != 0 && op != 2 && op != 7) return;
    switch (op) {
    case 0: A(l.Insert(p, T(s)) == p, "Insert returns the index"); m.insert(p, s); break;
    case 1: A(l.RemoveAt(p), "RemoveAt succeeds"); m.remove(p, 1); break;
    case 2: { int c[4] = {0, 1, n / 2, n - p}; int k = c[vs_choice("count", 4)]; if (k > n - p) return; A(l.RemoveRange(p, k), "RemoveRange succeeds"); m.remove(p, k); break; }
    case 3: { T t(s); A(l.Set(p, t), "Set succeeds"); m.e[p] = s; break; }
    case 4: { T t(m.e[p]), no(3); A(l.IndexOf(t) == p, "IndexOf"); A(l.Contains(t), "Contains"); A(l.IndexOf(no) == -1, "IndexOf of a missing value"); A(!l.Remove(no), "Remove of a missing value"); A(l.Remove(t), "Remove"); m.remove(p, 1); break; }
    case 5: l.Clear(); m.n = 0; break;
    case 6: { List<T> o(std::move(l)); A(l.Count() == 0, "moved-from list is empty"); same(o, m, "moved list"); l.Add(T(s)); l = std::move(o); A(o.Count() == 0, "moved-from list is empty"); break; }
    case 7: { int j = spotIn(n); uint32_t w = m.e[j]; A(l.Insert(p, l[j]) == p, "inserting an element of the list itself"); m.insert(p, w); break; }
    case 8: { vint x = (vint)vs_u64("index"); vs_assume((x < 0) | (x > n)); T t(s); MUST_THROW(l[x], "index out of range must raise"); MUST_THROW(l.RemoveAt(x), "index out of range must raise"); MUST_THROW(l.Insert(x, t), "index out of range must raise"); MUST_THROW(l.RemoveRange(p, n - p + 1), "range beyond the end must raise"); break; }
    }
    same(l, m, "contents after the operation"); for (int i = 0; i < 3; i++) { l.Add(T(s + i)); m.push(s + i); } same(l, m, "contents after further additions"); while (m.n > 2) { int h = m.n / 2; l.RemoveRange(m.n / 4, h); m.remove(m.n / 4, h); same(l, m, "draining"); }
  } A(vs_live() == live, "all storage released"); vs_reach("tall");
}
VS_ENTRY(tallPlain) { tallList<uint32_t>(); } // shards=4 tshards=8
VS_ENTRY(tallObj) { tallList<Obj>(); } // shards=4 tshards=8
