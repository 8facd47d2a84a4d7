// sources: Basic.cpp Exception.cpp Strings/String.cpp
// bounds: every pair of source and target kind among array, list, sorted list, dictionary, group, lazy sequence, buffer with length, buffer range and string, sources of 0..4 (thorough 8) and targets of 0..3 (thorough 6) arbitrary elements, replacing and appending; sources of 17 to 257 (thorough 300) into targets of 0, 3 or as many
// outside: larger containers; copying a container into itself or a sequence computed from the target; negative counts
#define SEQ_CAP 720
#include "enum.h"
#include "tall.h"
#include "Collections/OperationString.h"
// replacing is also the default
#define CF(...) do { if (append) CopyFrom(__VA_ARGS__, true); else CopyFrom(__VA_ARGS__); } while (0)
static const int NS = BOUND(4, 8), ND = BOUND(3, 6);
typedef Pair<uint32_t, uint32_t> P;
template<typename D> static void fill(D& d, const Seq& m) { for (int i = 0; i < m.n; i++) d.Add(m.e[i]); }
template<> void fill(Array<uint32_t>& d, const Seq& m) { d.Resize(m.n); for (int i = 0; i < m.n; i++) d.Set(i, m.e[i]); }
static Seq some(const char* name, int max) { Seq m; int n = (int)vs_choice(name, max + 1); for (int i = 0; i < n; i++) m.push(vs_u32(name)); return m; }
// copies a sequence of the given source kind (its elements being m) into d
template<typename D> static void copy(D& d, const Seq& m, int kind, bool append) {
  uint32_t buf[Seq::CAP]; for (int i = 0; i < m.n; i++) buf[i] = m.e[i];
  switch (kind) {
  case 0: { Array<uint32_t> s; fill(s, m); CF(d, s); same(s, m, "source array unchanged"); vs_reach("array"); break; }
  case 1: { List<uint32_t> s; fill(s, m); CF(d, s); same(s, m, "source list unchanged"); vs_reach("list"); break; }
  case 2: { List<uint32_t> s; fill(s, m); CF(d, From(s)); same(s, m, "source of the lazy sequence unchanged"); vs_reach("lazy"); break; }
  case 3: CF(d, (const uint32_t*)buf, (vint)m.n); vs_reach("buffer"); break;
  case 4: CF(d, (const uint32_t*)buf, (const uint32_t*)(buf + m.n)); vs_reach("range"); break;
  case 5: { SortedList<uint32_t> s; fill(s, m); CF(d, s); same(s, m, "source sorted list unchanged"); vs_reach("sorted"); break; }
  }
  for (int i = 0; i < m.n; i++) A(buf[i] == m.e[i], "source buffer unchanged");
}
static void sorted(const Seq& m) { for (int i = 1; i < m.n; i++) vs_assume(m.e[i - 1] <= m.e[i]); }
VS_ENTRY(sequences) { // shards=4
  int kind = (int)vs_choice("source", 6), target = (int)vs_choice("target", 2); bool append = vs_choice("append", 2); Seq s = some("s", NS), t = some("t", ND); if (kind == 5) sorted(s);
  Seq m; if (append) for (int i = 0; i < t.n; i++) m.push(t.e[i]); for (int i = 0; i < s.n; i++) m.push(s.e[i]); int64_t live = vs_live();
  if (target == 0) { Array<uint32_t> d; fill(d, t); copy(d, s, kind, append); same(d, m, "target array"); } else { List<uint32_t> d; fill(d, t); copy(d, s, kind, append); same(d, m, "target list"); } A(vs_live() == live, "all storage released"); vs_reach("sequences");
}
// into a sorted list: the elements form the right multiset in order
VS_ENTRY(sortedlist) { // shards=8 tshards=16
  int kind = (int)vs_choice("source", 6); bool append = vs_choice("append", 2); Seq s = some("s", BOUND(3, 4)), t = some("t", BOUND(2, 3)); if (kind == 5) sorted(s); sorted(t); for (int i = 0; i < s.n; i++) s.e[i] = (uint8_t)s.e[i]; for (int i = 0; i < t.n; i++) t.e[i] = (uint8_t)t.e[i]; if (kind == 5) sorted(s); sorted(t);
  SortedList<uint32_t> d; fill(d, t); copy(d, s, kind, append); Seq m; if (append) for (int i = 0; i < t.n; i++) m.push(t.e[i]); for (int i = 0; i < s.n; i++) m.push(s.e[i]);
  A(d.Count() == m.n, "number of elements"); for (int i = 1; i < d.Count(); i++) A(d[i - 1] <= d[i], "in order"); for (int i = 0; i < m.n; i++) { int c = 0, e = 0; for (int j = 0; j < m.n; j++) { c += m.e[i] == m.e[j]; e += m.e[i] == d[j]; } A(c == e, "each element as often as in the source"); } vs_reach("sortedlist");
}
// sorted inputs in either direction into a sorted list of any size
VS_ENTRY(sortedlarge) { int n = (int)vs_choice("n", BOUND(10, 20)); bool down = vs_choice("down", 2); Seq s; for (int i = 0; i < n; i++) { s.push(vs_u8("s")); if (i) vs_assume(down ? s.e[i] < s.e[i - 1] : s.e[i - 1] < s.e[i]); } SortedList<uint32_t> d; copy(d, s, (int)vs_choice("source", 5), false); A(d.Count() == n, "number of elements"); for (int i = 0; i < n; i++) A(d[i] == s.e[down ? n - 1 - i : i], "in order"); vs_reach("sortedlarge"); } // shards=4
struct KV { int8_t k, v; };
static int ascending(KV* a, const char* name, int max) { int n = (int)vs_choice(name, max + 1); for (int i = 0; i < n; i++) { a[i].k = (int8_t)vs_u8(name); a[i].v = (int8_t)vs_u8(name); if (i) vs_assume(a[i - 1].k < a[i].k); } return n; }
typedef Dictionary<vint, vint> Dict; typedef Group<vint, vint> Grp;
static bool lookup(const Dict& d, vint k, vint& v) { vint i = d.Keys().IndexOf(k); if (i == -1) return false; v = d.Values()[i]; return true; }
// into a dictionary: the later of two values for a key wins
VS_ENTRY(dictionaries) { // shards=8 tshards=16
  KV s[8], t[8]; int kind = (int)vs_choice("source", 4); bool append = vs_choice("append", 2); int ns = ascending(s, "s", BOUND(3, 4)), nt = ascending(t, "t", BOUND(2, 3)); Dict d; for (int i = 0; i < nt; i++) d.Add(t[i].k, t[i].v);
  List<Pair<vint, vint>> l; Dict sd; Grp sg; for (int i = 0; i < ns; i++) { l.Add(Pair<vint, vint>(s[i].k, s[i].v)); sd.Add(s[i].k, s[i].v); sg.Add(s[i].k, s[i].v); }
  switch (kind) { case 0: CF(d, l); break; case 1: CF(d, sd); break; case 2: CF(d, From(l)); break; case 3: CF(d, sg); break; }
  for (vint i = 0; i + 1 < d.Count(); i++) A(d.Keys()[i] < d.Keys()[i + 1], "keys ascending"); int count = ns;
  for (int i = 0; i < ns; i++) { vint v; A(lookup(d, s[i].k, v), "every source key"); A(v == s[i].v, "its value"); }
  if (append) for (int i = 0; i < nt; i++) { bool over = false; for (int j = 0; j < ns; j++) if (s[j].k == t[i].k) over = true; if (!over) { count++; vint v; A(lookup(d, t[i].k, v), "previous keys stay"); A(v == t[i].v, "previous values stay"); } }
  A(d.Count() == count, "nothing else"); A(sd.Count() == ns, "source unchanged"); A(sg.Count() == ns, "source unchanged"); for (int i = 0; i < ns; i++) { A(sd.Keys()[i] == s[i].k, "source unchanged"); A(sd.Values()[i] == s[i].v, "source unchanged"); } vs_reach("dictionaries");
}
VS_ENTRY(groups) { // shards=8 tshards=16
  KV s[8], t[8]; int kind = (int)vs_choice("source", 3); bool append = vs_choice("append", 2); int ns = ascending(s, "s", BOUND(3, 4)), nt = ascending(t, "t", BOUND(2, 3)); Grp d; for (int i = 0; i < nt; i++) d.Add(t[i].k, t[i].v);
  bool dup = kind != 1 && ns && vs_choice("dup", 2); vint extra = (int8_t)vs_u8("extra"); List<Pair<vint, vint>> l; Dict sd; Grp sg; for (int i = 0; i < ns; i++) { l.Add(Pair<vint, vint>(s[i].k, s[i].v)); sd.Add(s[i].k, s[i].v); sg.Add(s[i].k, s[i].v); } if (dup) { l.Add(Pair<vint, vint>(s[0].k, extra)); sg.Add(s[0].k, extra); }
  switch (kind) { case 0: CF(d, From(l)); break; case 1: CF(d, sd); break; case 2: CF(d, sg); break; }
  vint keys = d.Count(); int total = 0; for (vint i = 0; i < keys; i++) { if (i) A(d.Keys()[i - 1] < d.Keys()[i], "keys ascending"); vint k = d.Keys()[i]; auto& vs = d.GetByIndex(i); int pos = 0; auto expect = [&](vint v) { A(pos < vs.Count(), "every value"); if (pos < vs.Count()) A(vs[pos] == v, "values in order"); pos++; };
    if (append) for (int j = 0; j < nt; j++) if (t[j].k == k) expect(t[j].v); for (int j = 0; j < ns; j++) if (s[j].k == k) { expect(s[j].v); if (j == 0 && dup) expect(extra); } A(pos == vs.Count(), "no other values"); total += pos; }
  A(total == ns + dup + (append ? nt : 0), "every pair copied"); vs_reach("groups");
}
// from maps into sequences of pairs
VS_ENTRY(pairs) { // shards=2
  KV s[8]; int ns = ascending(s, "s", NS); Dict sd; Grp sg; for (int i = 0; i < ns; i++) { sd.Add(s[i].k, s[i].v); sg.Add(s[i].k, s[i].v); } bool append = vs_choice("append", 2); int nt = (int)vs_choice("t", 3); vint t = vs_u8("t"); List<Pair<vint, vint>> d; for (int i = 0; i < nt; i++) d.Add(Pair<vint, vint>(t, i));
  switch ((int)vs_choice("source", 4)) { case 0: CF(d, sd); break; case 1: CF(d, sg); break; case 2: CF(d, From(sd).Select([](const Pair<const vint&, const vint&>& p) { return Pair<vint, vint>(p.key, p.value); })); break; case 3: { Array<Pair<vint, vint>> a(nt); for (int i = 0; i < nt; i++) a.Set(i, d[i]); CF(a, sd); CopyFrom(d, a); break; } }
  int o = append ? nt : 0; A(d.Count() == o + ns, "number of pairs"); for (int i = 0; i < o; i++) A((d[i].key == t) & (d[i].value == i), "previous pairs stay"); for (int i = 0; i < ns; i++) A((d[o + i].key == s[i].k) & (d[o + i].value == s[i].v), "pairs in order"); vs_reach("pairs");
}
template<typename C> static void strings() {
  C src[8], dst[8]; int ns = (int)vs_choice("s", NS + 1), nt = (int)vs_choice("t", ND + 1); for (int i = 0; i < ns; i++) src[i] = (C)vs_u32("s"); for (int i = 0; i < nt; i++) dst[i] = (C)vs_u32("t"); bool append = vs_choice("append", 2); int o = append ? nt : 0;
  auto get = [&](int i) { return i < o ? dst[i] : src[i - o]; };
  switch ((int)vs_choice("way", 5)) {
  case 0: { Array<C> d(nt); for (int i = 0; i < nt; i++) d.Set(i, dst[i]); CF(d, ObjectString<C>::CopyFrom(src, ns)); A(d.Count() == o + ns, "characters copied"); for (int i = 0; i < o + ns; i++) A(d[i] == get(i), "characters copied"); break; }
  case 1: { List<C> d; for (int i = 0; i < nt; i++) d.Add(dst[i]); ObjectString<C> w = ObjectString<C>::CopyFrom(src, ns); int from = (int)vs_choice("from", ns + 1); auto part = w.Sub(from, ns - from); CF(d, part); A(d.Count() == o + ns - from, "characters copied"); for (int i = 0; i < o + ns - from; i++) A(d[i] == (i < o ? dst[i] : src[i - o + from]), "characters copied"); break; }
  case 2: case 3: case 4: { auto d = ObjectString<C>::CopyFrom(dst, nt); auto keep = d; if (vs_choice("kind", 2)) { Array<C> s(ns); for (int i = 0; i < ns; i++) s.Set(i, src[i]); CF(d, s); } else { List<C> s; for (int i = 0; i < ns; i++) s.Add(src[i]); CF(d, From(s)); } A(d.Length() == o + ns, "characters copied"); for (int i = 0; i < o + ns; i++) A(d[i] == get(i), "characters copied"); A(keep.Length() == nt, "other strings keep their value"); for (int i = 0; i < nt; i++) A(keep[i] == dst[i], "other strings keep their value"); break; }
  } vs_reach("strings");
}
VS_ENTRY(narrow) { strings<char>(); } // shards=2
VS_ENTRY(wide) { strings<wchar_t>(); } // shards=2
VS_ENTRY(objects) { // shards=4
  int ns = (int)vs_choice("s", BOUND(4, 6)), nt = (int)vs_choice("t", BOUND(3, 5)); bool append = vs_choice("append", 2); Seq s, m; for (int i = 0; i < ns; i++) s.push(vs_u32("s")); int64_t live = vs_live(); { List<Obj> src; for (int i = 0; i < ns; i++) src.Add(Obj(s.e[i])); List<Obj> l; Array<Obj> a(nt); for (int i = 0; i < nt; i++) { uint32_t x = vs_u32("t"); l.Add(Obj(x)); a.Set(i, Obj(x)); if (append) m.push(x); } for (int i = 0; i < ns; i++) m.push(s.e[i]);
    if (vs_choice("lazy", 2)) { CF(l, From(src)); CF(a, From(src)); } else { CF(l, src); CF(a, src); } same(l, m, "target list"); same(a, m, "target array"); same(src, s, "source unchanged"); } aliveIs(0, "no object left"); A(vs_live() == live, "all storage released"); vs_reach("objects");
}
VS_ENTRY(tallCopies) { // shards=8 tshards=16
  int n = tall(), kind = (int)vs_choice("source", 6), target = (int)vs_choice("target", 4); bool append = vs_choice("append", 2); int ts[3] = {0, 3, n}; int nt = ts[vs_choice("had", 3)]; Seq s, t, m; for (int i = 0; i < n; i++) s.push(7 * i + 1); for (int i = 0; i < nt; i++) t.push(7 * i + 3); if (target < 2) { if (kind != 5) s.e[spotIn(n)] = vs_u32("s"); if (nt) t.e[nt - 1] = vs_u32("t"); } if (append) for (int i = 0; i < t.n; i++) m.push(t.e[i]); for (int i = 0; i < s.n; i++) m.push(s.e[i]); int64_t live = vs_live();
  switch (target) { case 0: { Array<uint32_t> d; fill(d, t); copy(d, s, kind, append); same(d, m, "target array"); break; } case 1: { List<uint32_t> d; fill(d, t); copy(d, s, kind, append); same(d, m, "target list"); break; } case 2: { SortedList<uint32_t> d; fill(d, t); copy(d, s, kind, append); A(d.Count() == m.n, "number of elements"); int i = 0, j = 0, k = 0; while (k < m.n && k < d.Count()) { uint32_t e = append && j < t.n && (i >= s.n || t.e[j] < s.e[i]) ? t.e[j++] : s.e[i++]; A(d[k] == e, "in order"); k++; } break; }
  case 3: { Dictionary<uint32_t, uint32_t> d, q; Group<uint32_t, uint32_t> g; for (int i = 0; i < n; i++) { q.Add(s.e[i], i); g.Add(s.e[i] / 2, i); } for (int i = 0; i < nt; i++) d.Add(t.e[i], i); CF(d, q); A(d.Count() == n + (append ? nt : 0), "number of entries"); for (int i = 0; i < n; i++) A(d.Get(s.e[i]) == i, "copied entry"); if (append) for (int i = 0; i < nt; i++) A(d.Get(t.e[i]) == i, "previous entry"); Group<uint32_t, uint32_t> h; CopyFrom(h, g); A(h.Count() == g.Count(), "number of keys"); for (int i = 0; i < n; i++) A(h.Contains(s.e[i] / 2, i), "copied value"); break; } } A(vs_live() == live, "all storage released"); vs_reach("tall");
}
VS_ENTRY(tallText) { int n = tall(), nt = (int)vs_choice("had", 2) * n; wchar_t src[300], dst[300]; for (int i = 0; i < n; i++) src[i] = L'a' + i % 50; for (int i = 0; i < nt; i++) dst[i] = L'A' + i % 40; src[spotIn(n)] = (wchar_t)vs_u32("c"); bool append = vs_choice("append", 2); int o = append ? nt : 0; if (vs_choice("way", 2)) { List<wchar_t> d; for (int i = 0; i < nt; i++) d.Add(dst[i]); CF(d, WString::CopyFrom(src, n)); A(d.Count() == o + n, "characters copied"); for (int i = 0; i < o + n; i++) A(d[i] == (i < o ? dst[i] : src[i - o]), "characters copied"); } else { auto d = WString::CopyFrom(dst, nt); List<wchar_t> s; for (int i = 0; i < n; i++) s.Add(src[i]); CF(d, s); A(d.Length() == o + n, "characters copied"); for (int i = 0; i < o + n; i++) A(d[i] == (i < o ? dst[i] : src[i - o]), "characters copied"); } vs_reach("tall text"); } // shards=2
