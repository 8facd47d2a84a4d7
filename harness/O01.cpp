// sources: Basic.cpp Exception.cpp Collections/PartialOrdering.cpp
// bounds: every dependency relation on 0..3 (thorough 4) nodes and on 4 nodes without self dependencies (given by a function); every relation on 5 nodes where each node depends on at most one other (thorough: at most two); relations on 3 nodes of 3 (thorough 4) entries given as a group with repeated entries, over items in any order; chains, rings and rings of rings of up to 9 nodes; five families of graphs on 17 and 66 (thorough 17 to 66) nodes with one more dependency anywhere near the ends or the middle
// outside: larger graphs of arbitrary shape
#include "enum.h"
#include "po.h"
#include "tall.h"
static const int self[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
static void run(Graph& g) {
  List<vint> items; for (int i = 0; i < g.n; i++) items.Add(i); PartialOrderingProcessor p; p.InitWithFunc(items, [&](vint a, vint b) { return g.e[a][b]; }); p.Sort(); sorted(p, g, self); int m[Graph::CAP][Graph::CAP]; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) m[i][j] = g.e[i][j]; neighbours(p, g, self, m); if (g.n) { MUST_THROW(p.Sort(), "sorting twice must raise"); MUST_THROW(p.InitWithFunc(items, [](vint, vint) { return false; }), "initialising twice must raise"); } vs_reach("run");
}
VS_ENTRY(all) { Graph g; g.n = (int)vs_choice("n", BOUND(4, 5)); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) g.e[i][j] = Graph::any(); run(g); } // tshards=32
VS_ENTRY(four) { Graph g; g.n = 4; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j) g.e[i][j] = Graph::any(); run(g); } // shards=16
VS_ENTRY(functional) { Graph g; g.n = 5; for (int i = 0; i < 5; i++) { int d = (int)vs_choice("dep", 6); if (d < 5) g.e[i][d] = true; } run(g); } // shards=16
VS_THOROUGH(two) { Graph g; g.n = 5; for (int i = 0; i < 5; i++) { int d = (int)vs_choice("dep", 6); if (d < 5) { g.e[i][d] = true; int f = (int)vs_choice("dep2", d + 1); if (f < d) g.e[i][f] = true; } } run(g); } // tshards=64
VS_ENTRY(shapes) { // shards=4
  Graph g; g.n = 1 + (int)vs_choice("n", 9); int rot = (int)vs_choice("rot", g.n), step = 1 + (int)vs_choice("step", 2), kind = (int)vs_choice("kind", 5); auto at = [&](int i) { return (i * step + rot) % g.n; }; if (step == 2 && g.n % 2 == 0) vs_assume(0);
  for (int i = 0; i < g.n; i++) { if (i + 1 < g.n) { if (kind == 1) g.e[at(i + 1)][at(i)] = true; else g.e[at(i)][at(i + 1)] = true; } else if (kind >= 2) g.e[at(i)][at(0)] = true; if (kind == 3) g.e[at(i)][at((i + g.n / 2) % g.n)] = true; } if (kind == 4) { int cut = (int)vs_choice("cut", g.n); g.e[at(cut)][at((cut + 1) % g.n)] = false; } run(g);
}
VS_ENTRY(grouped) { // shards=8 tshards=16
  Graph g; g.n = BOUND(3, 3); int m[Graph::CAP][Graph::CAP] = {}; vint name[4]; int perm = (int)vs_choice("order", 2); for (int i = 0; i < g.n; i++) name[perm ? g.n - 1 - i : i] = (vint)(int8_t)vs_u8("item"); for (int i = 0; i + 1 < g.n; i++) vs_assume(perm ? name[i] > name[i + 1] : name[i] < name[i + 1]);
  Array<vint> items(g.n); for (int i = 0; i < g.n; i++) items[i] = name[i]; Group<vint, vint> dep; for (int k = 0; k < BOUND(3, 4); k++) { int e = (int)vs_choice("edge", g.n * g.n + 1); if (e < g.n * g.n) { int a = e / g.n, b = e % g.n; dep.Add(name[a], name[b]); g.e[a][b] = true; m[a][b]++; } }
  PartialOrderingProcessor p; p.InitWithGroup(items, dep); p.Sort(); sorted(p, g, self); neighbours(p, g, self, m); vs_reach("grouped");
}
VS_ENTRY(unknown) { vint x = (int8_t)vs_u8("x"), y = (int8_t)vs_u8("y"), a = (int8_t)vs_u8("a"), b = (int8_t)vs_u8("b"); vs_assume(x != y); List<vint> items; items.Add(x); items.Add(y); Group<vint, vint> dep; dep.Add(a, b); PartialOrderingProcessor p; if ((a == x || a == y) && (b == x || b == y)) { p.InitWithGroup(items, dep); p.Sort(); A(p.components.Count() == (p.nodes.Count()), "no cycle between different items"); vs_reach("known"); } else { MUST_THROW(p.InitWithGroup(items, dep), "a dependency on something that is not an item must raise"); vs_reach("unknown"); } }
struct Foo { int v; };
VS_ENTRY(pointers) { Graph g; g.n = 3; Ptr<Foo> f[3]; SortedList<Ptr<Foo>> items; for (auto& x : f) { x = Ptr(new Foo{0}); items.Add(x); } int at[3]; for (int i = 0; i < 3; i++) { at[i] = -1; for (int j = 0; j < 3; j++) if (items[j].Obj() == f[i].Obj()) at[i] = j; } Group<Ptr<Foo>, Ptr<Foo>> dep; int m[Graph::CAP][Graph::CAP] = {}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && vs_choice("edge", 2)) { g.e[i][j] = true; m[i][j] = 1; dep.Add(f[i], f[j]); } PartialOrderingProcessor p; p.InitWithGroup(items, dep); p.Sort(); sorted(p, g, at); neighbours(p, g, at, m); vs_reach("pointers"); } // shards=2
// larger graphs of fixed families, with one more dependency between any two of five places
typedef GraphN<66> Big;
VS_ENTRY(tallGraphs) { // shards=8 steps=30000000
  static const int ns[] = {17, 66, 24, 33, 48}; static Big g; static int at[66], m[66][66]; g = Big(); g.n = ns[vs_choice("n", BOUND(2, 5))]; int n = g.n, kind = (int)vs_choice("kind", 5); for (int i = 0; i < n; i++) { at[i] = i; for (int j = 0; j < n; j++) m[i][j] = 0; switch (kind) { case 0: if (i) g.e[i][i - 1] = true; break; case 1: if (i + 1 < n) g.e[i][i + 1] = true; if (i + 5 < n) g.e[i][i + 5] = true; break; case 2: if (i % 3) g.e[i][i - i % 3] = g.e[i - i % 3][i] = true; else if (i) g.e[i][i - 1] = true; break; case 3: if (i) g.e[i][(i - 1) / 2] = true; break; case 4: if (i) g.e[0][i] = true; if (i % 7 == 3) g.e[i][0] = true; break; } }
  int a = spotIn(n), b = spotIn(n); g.e[a][b] = true; List<vint> items; for (int i = 0; i < n; i++) items.Add(i); PartialOrderingProcessor p; if (vs_choice("group", 2)) { Group<vint, vint> dep; for (int i = n - 1; i >= 0; i--) for (int j = 0; j < n; j++) if (g.e[i][j]) dep.Add(i, j); p.InitWithGroup(items, dep); } else p.InitWithFunc(items, [&](vint x, vint y) { return g.e[x][y]; }); p.Sort(); sorted(p, g, at); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = g.e[i][j]; neighbours(p, g, at, m); vs_reach("tall");
}
