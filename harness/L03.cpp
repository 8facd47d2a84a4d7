// sources: Basic.cpp Exception.cpp
// bounds: arrays of 0..6 elements (thorough 10, and up to 40 in the resizing sweep), arbitrary contents, every 64-bit index and size argument, histories of 3 (thorough 4) operations; arrays of 17 to 257 (thorough 300) elements resized between these sizes
// outside: sizes whose storage does not fit in memory
#define SEQ_CAP 320
#include "coll.h"
#include "tall.h"
template<typename T> static void hist(int N, int max) {
  int64_t live = vs_live(); { int n = (int)vs_choice("n", max + 1); T* src = new T[n]; Seq m; for (int i = 0; i < n; i++) { uint32_t v = vs_u32("e"); src[i] = T(v); m.push(v); } Array<T> a(src, n); for (int i = 0; i < n; i++) A(val(src[i]) == m.e[i], "source buffer unchanged"); delete[] src; same(a, m, "copied from the buffer");
    for (int k = 0; k < N; k++) { vint i; uint32_t v = vs_u32("v"); bool ok = true; switch ((int)vs_choice("op", 6)) {
      case 0: { int c = (int)vs_choice("size", max + 3), old = m.n; a.Resize(c); A(a.Count() == c, "size is what was asked for"); for (int j = 0; j < c && j < old; j++) A(val(a[j]) == m.e[j], "common prefix kept"); for (int j = old; j < c; j++) { uint32_t w = vs_u32("w"); a[j] = T(w); m.e[j] = w; } m.n = c; break; }
      case 1: if (inRange("index", 0, m.n - 1, i)) { T t(v); A(a.Set(i, t), "Set succeeds"); m.e[i] = v; } else { T t(v); MUST_THROW(a.Set(i, t), "Set out of range must raise"); MUST_THROW(a.Set(i, T(v)), "Set out of range must raise"); ok = false; } break;
      case 2: if (inRange("index", 0, m.n - 1, i)) { A(val(((const Array<T>&)a)[i]) == m.e[i], "element"); a[i] = T(v); m.e[i] = v; } else { MUST_THROW(a[i], "index out of range must raise"); MUST_THROW(((const Array<T>&)a)[i], "index out of range must raise"); MUST_THROW(a.Get(i), "index out of range must raise"); ok = false; } break;
      case 3: { T t(v); int p = m.find(v); A(a.IndexOf(t) == p, "first equal element"); A(a.Contains(t) == (p != -1), "Contains"); break; }
      case 4: { vint s = vs_range("size", INT64_MIN, -1); MUST_THROW(a.Resize(s), "negative size must raise"); MUST_THROW(Array<T>{s}, "negative size must raise"); T x[1]; MUST_THROW(Array<T>(x, s), "negative size must raise"); ok = false; break; }
      case 5: { Array<T> b(std::move(a)); same(b, m, "moved"); A(a.Count() == 0, "moved-from array is empty"); a = Array<T>(1); a = std::move(b); A(b.Count() == 0, "moved-from array is empty"); break; }
      } same(a, m, ok ? "contents after the operation" : "contents after a refused operation"); if (!ok) { vs_reach("refused"); break; } if (k == N - 1) vs_reach("history"); }
  } A(vs_live() == live, "all storage released");
}
VS_ENTRY(histPlain) { hist<uint32_t>(BOUND(3, 4), BOUND(4, 5)); } // shards=8 tshards=24
VS_ENTRY(histObj) { hist<Obj>(BOUND(3, 4), BOUND(4, 5)); } // shards=8 tshards=24
template<typename T> static void sweep(int max) { int n = (int)vs_choice("n", max + 1), c = (int)vs_choice("c", max + 1); Array<T> a(n); A(a.Count() == n, "size"); Seq m; for (int i = 0; i < n; i++) { uint32_t v = vs_u32("e"); a.Set(i, T(v)); m.push(v); } same(a, m, "filled"); a.Resize(c); A(a.Count() == c, "size is what was asked for"); for (int i = 0; i < c && i < n; i++) A(val(a[i]) == m.e[i], "common prefix kept"); vs_reach("sweep"); }
VS_ENTRY(sweepPlain) { sweep<uint32_t>(BOUND(20, 40)); }
VS_ENTRY(sweepObj) { sweep<Obj>(BOUND(20, 40)); }
VS_ENTRY(defaults) { int n = (int)vs_choice("n", 6), c = (int)vs_choice("c", 12); Array<Obj> a(n); for (int i = 0; i < n; i++) A(a[i].get() == 0, "default constructed"); a.Resize(c); for (int i = 0; i < c; i++) A(a[i].get() == 0, "new elements are default constructed"); Array<uint32_t> e; A(e.Count() == 0, "default array is empty"); vs_reach("defaults"); }
template<typename T> static void tallArrays() { int64_t live = vs_live(); { int n = tall(), c = vs_choice("change", 2) ? tall() : n + (int)vs_choice("by", 3) - 1; Array<T> a(n); Seq m; for (int i = 0; i < n; i++) { uint32_t v = 7 * i + 1; a.Set(i, T(v)); m.push(v); } int p = spotIn(n); uint32_t s = vs_u32("v"); a[p] = T(s); m.e[p] = s; same(a, m, "filled"); Array<T> b(&a[0], n); same(b, m, "copied"); a.Resize(c); A(a.Count() == c, "size is what was asked for"); for (int i = 0; i < c; i++) A(val(a[i]) == (i < n ? m.e[i] : i < n ? 0 : val(a[i])), "common prefix kept"); vint x = (vint)vs_u64("index"); vs_assume((x < 0) | (x >= c)); MUST_THROW(a[x], "index out of range must raise"); MUST_THROW(a.Set(x, T(s)), "index out of range must raise"); b = std::move(a); A(a.Count() == 0, "moved-from array is empty"); A(b.Count() == c, "moved"); for (int i = 0; i < c && i < n; i++) A(val(b[i]) == m.e[i], "moved"); } A(vs_live() == live, "all storage released"); vs_reach("tall"); }
VS_ENTRY(tallPlain) { tallArrays<uint32_t>(); } // shards=4 tshards=8
VS_ENTRY(tallObj) { tallArrays<Obj>(); } // shards=4 tshards=8
