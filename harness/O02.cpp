// sources: Basic.cpp Exception.cpp Collections/PartialOrdering.cpp
// bounds: every assignment of 0..4 (thorough 5) items to 3 sub classes or none, with every choice of 2 (thorough 3) dependencies (repeated ones included) between 3 items, 1 (thorough 2) between 4 and 1 between 5; every relation on 3 items with every assignment to 2 sub classes or none; items in ascending or descending order with arbitrary values; chains and rings of up to 5 (thorough 7) items with every assignment to 2 sub classes or none; 10 to 36 items in 1 to 9 sub classes by regular patterns with four regular relations and one further dependency
// outside: more items or sub classes; sub class entries for things that are not items
#include "enum.h"
#include "po.h"
#include "tall.h"
// builds the merged graph: cls[i] is the sub class of item i or -1
template<int C> struct ModelN { int n; int cls[C]; bool dep[C][C] = {}; int vertex[C]; GraphN<C> g; int label[C];
  void merge() { g.n = 0; int of[C]; for (int c = 0; c < C; c++) of[c] = -1; for (int i = 0; i < n; i++) if (cls[i] >= 0) { if (of[cls[i]] < 0) { label[g.n] = cls[i]; of[cls[i]] = g.n++; } vertex[i] = of[cls[i]]; } else { label[g.n] = -1; vertex[i] = g.n++; } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (dep[i][j]) g.e[vertex[i]][vertex[j]] = true; } };
typedef ModelN<12> Model;
template<typename TList, int C> static void check(const TList& items, PartialOrderingProcessor& p, ModelN<C>& m) {
  m.merge(); A(p.nodes.Count() == m.g.n, "one node per sub class and per single item"); if (p.nodes.Count() != m.g.n) return; int node[C]; int seen[C] = {}; for (int v = 0; v < m.g.n; v++) node[v] = -1;
  for (int k = 0; k < m.g.n; k++) { auto& x = p.nodes[k]; A(x.subClassItemCount > 0, "every node has items"); int v = -1; for (int t = 0; t < x.subClassItemCount; t++) { vint i = x.firstSubClassItem[t]; A((i >= 0) & (i < m.n), "indices of items"); if (i < 0 || i >= m.n) return; seen[i]++; if (v < 0) v = m.vertex[i]; A(m.vertex[i] == v, "only items of the same sub class share a node"); } A(node[v] == -1, "one node per sub class"); node[v] = k; }
  for (int i = 0; i < m.n; i++) A(seen[i] == 1, "every item in exactly one node"); p.Sort(); sorted(p, m.g, node); int mult[C][C]; for (int i = 0; i < m.g.n; i++) for (int j = 0; j < m.g.n; j++) mult[i][j] = m.g.e[i][j]; neighbours(p, m.g, node, mult);
  // an item never comes before an item it depends on, unless they end in the same component
  for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) if (m.dep[i][j]) A(p.nodes[node[m.vertex[j]]].component <= p.nodes[node[m.vertex[i]]].component, "items after what they depend on"); vs_reach("check");
}
static void values(Model& m, vint* name, bool down) { for (int i = 0; i < m.n; i++) { name[i] = (vint)(int8_t)vs_u8("item"); if (i) vs_assume(down ? name[i - 1] > name[i] : name[i - 1] < name[i]); } }
template<int C> static void run(ModelN<C>& m, vint* name, Group<vint, vint>& dep, int classes, bool swap) {
  Dictionary<vint, vint> sub; for (int i = 0; i < m.n; i++) if (m.cls[i] >= 0) sub.Add(name[i], swap ? classes - m.cls[i] : m.cls[i]); List<vint> items; for (int i = 0; i < m.n; i++) items.Add(name[i]); PartialOrderingProcessor p; p.InitWithSubClass(items, dep, sub); check(items, p, m);
  if (m.n) MUST_THROW(p.InitWithSubClass(items, dep, sub), "initialising twice must raise");
}
VS_ENTRY(sparse) { // shards=16 tshards=32
  Model m; m.n = (int)vs_choice("n", BOUND(5, 6)); bool down = vs_choice("down", 2), swap = vs_choice("swap", 2); for (int i = 0; i < m.n; i++) m.cls[i] = (int)vs_choice("class", 4) - 1; vint name[Graph::CAP]; values(m, name, down); Group<vint, vint> dep; int edges = m.n > 4 ? 1 : m.n > 3 ? BOUND(1, 2) : BOUND(2, 3); for (int k = 0; k < edges; k++) if (m.n) { int e = (int)vs_choice("edge", m.n * m.n + 1); if (e == m.n * m.n) continue; int a = e / m.n, b = e % m.n; dep.Add(name[a], name[b]); m.dep[a][b] = true; } run(m, name, dep, 3, swap);
}
VS_ENTRY(dense) { // shards=16 tshards=32
  Model m; m.n = 3; for (int i = 0; i < m.n; i++) m.cls[i] = (int)vs_choice("class", 3) - 1; vint name[Graph::CAP] = {10, 20, 30}; Group<vint, vint> dep; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (Graph::any()) { dep.Add(name[i], name[j]); m.dep[i][j] = true; } run(m, name, dep, 2, false);
}
VS_ENTRY(rings) { // shards=16 tshards=32
  Model m; m.n = 4 + (int)vs_choice("n", BOUND(2, 4)); int kind = (int)vs_choice("kind", 3); for (int i = 0; i < m.n; i++) m.cls[i] = (int)vs_choice("class", 3) - 1; vint name[Graph::CAP]; for (int i = 0; i < m.n; i++) name[i] = (i * 5) % 11; Group<vint, vint> dep; for (int i = 0; i < m.n; i++) { if (i == m.n - 1 && kind < 2) break; int a = i, b = (i + 1) % m.n; if (kind == 1) { int t = a; a = b; b = t; } dep.Add(name[a], name[b]); m.dep[a][b] = true; } run(m, name, dep, 2, false);
}
// many items: classes by position, several regular relations plus one arbitrary dependency
VS_ENTRY(tallClasses) { // shards=16 steps=30000000
  static ModelN<40> m; int n = m.n = 10 + (int)vs_choice("n", 3) * 13, k = 1 + (int)vs_choice("classes", 3) * 4, split = (int)vs_choice("split", 3), kind = (int)vs_choice("kind", 4); for (int i = 0; i < n; i++) m.cls[i] = split == 0 ? i % k : split == 1 ? (i < n / 2 ? i % k : -1) : i % 3 == 0 ? -1 : (i / 2) % k;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m.dep[i][j] = kind == 0 ? j == i + 1 : kind == 1 ? (i < n / 2 && j >= n / 2) : kind == 2 ? (j < i && (i + j) % 3 == 0) : j == (i * 3 + 1) % n; int a = spotIn(n), b = spotIn(n); m.dep[a][b] = true;
  vint name[40]; bool down = vs_choice("down", 2); for (int i = 0; i < n; i++) name[i] = down ? 100 - i : i * 2; Group<vint, vint> dep; for (int i = n - 1; i >= 0; i--) for (int j = 0; j < n; j++) if (m.dep[i][j]) dep.Add(name[i], name[j]); run(m, name, dep, k, down);
}
VS_ENTRY(unknown) { List<vint> items; vint x = (int8_t)vs_u8("x"), y = (int8_t)vs_u8("y"), a = (int8_t)vs_u8("a"); vs_assume(x != y); items.Add(x); items.Add(y); Dictionary<vint, vint> sub; sub.Add(x, 1); vs_assume(a != x); vs_assume(a != y); Group<vint, vint> dep; if (vs_choice("side", 2)) dep.Add(a, x); else dep.Add(x, a); PartialOrderingProcessor p; MUST_THROW(p.InitWithSubClass(items, dep, sub), "a dependency on something that is not an item must raise"); vs_reach("unknown"); }
struct Foo { int v; };
VS_ENTRY(pointers) { Ptr<Foo> f[3], c[2]; List<Ptr<Foo>> items; for (auto& x : f) { x = Ptr(new Foo{0}); items.Add(x); } for (auto& x : c) x = Ptr(new Foo{1}); Model m; m.n = 3; Dictionary<Ptr<Foo>, Ptr<Foo>> sub; for (int i = 0; i < 3; i++) { m.cls[i] = (int)vs_choice("class", 3) - 1; if (m.cls[i] >= 0) sub.Add(f[i], c[m.cls[i]]); } Group<Ptr<Foo>, Ptr<Foo>> dep; for (int k = 0; k < 2; k++) { int a = (int)vs_choice("a", 3), b = (int)vs_choice("b", 3); dep.Add(f[a], f[b]); m.dep[a][b] = true; } PartialOrderingProcessor p; p.InitWithSubClass(items, dep, sub); check(items, p, m); vs_reach("pointers"); } // shards=2
