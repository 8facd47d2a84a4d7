// Dependency graphs and what sorting them must give.
#pragma once
#include "coll.h"
#include "Collections/PartialOrdering.h"
template<int C> struct GraphN {
  static const int CAP = C; int n = 0; bool e[CAP][CAP] = {}, r[CAP][CAP]; static bool any() { return vs_u8("edge") & 1; } // e[a][b]: a depends on b
  void close() { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = e[i][j] || i == j; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) if (r[k][j]) r[i][j] = true; }
};
typedef GraphN<12> Graph;
// node[i] is the number of the processor's node that stands for vertex i of the graph
template<int C> static void sorted(const PartialOrderingProcessor& p, GraphN<C>& g, const int* node) {
  g.close(); A(p.nodes.Count() == g.n, "one node per vertex"); int comp[C]; int total = 0;
  for (int c = 0; c < p.components.Count(); c++) { auto& k = p.components[c]; A(k.nodeCount > 0, "no empty component"); A(k.firstNode == p.components[0].firstNode + total, "components tile the node list"); total += (int)k.nodeCount; }
  A(total == g.n, "every node in a component"); if (total != g.n) return; int seen[C] = {};
  for (int c = 0; c < p.components.Count(); c++) for (int t = 0; t < p.components[c].nodeCount; t++) { vint x = p.components[c].firstNode[t]; A((x >= 0) & (x < g.n), "components list nodes"); if (x < 0 || x >= g.n) return; seen[x]++; A(p.nodes[x].component == c, "the node knows its component"); }
  for (int i = 0; i < g.n; i++) A(seen[i] == 1, "every node in exactly one component");
  for (int i = 0; i < g.n; i++) comp[i] = (int)p.nodes[node[i]].component;
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) { A((comp[i] == comp[j]) == (g.r[i][j] && g.r[j][i]), "same component exactly when mutually dependent"); if (g.r[i][j]) A(comp[j] <= comp[i], "after what it depends on"); }
}
// neighbours, each listed exactly mult[a][b] times
template<int C> static void neighbours(const PartialOrderingProcessor& p, const GraphN<C>& g, const int* node, const int (*mult)[C]) {
  for (int i = 0; i < g.n; i++) { int in = 0, out = 0; for (int j = 0; j < g.n; j++) { in += mult[i][j]; out += mult[j][i]; int x = 0, y = 0; for (vint v : *p.nodes[node[i]].ins) x += v == node[j]; for (vint v : *p.nodes[node[i]].outs) y += v == node[j]; A(x == mult[i][j], "recorded dependencies"); A(y == mult[j][i], "recorded dependents"); } A(p.nodes[node[i]].ins->Count() == in, "no other dependencies"); A(p.nodes[node[i]].outs->Count() == out, "no other dependents"); }
}
