// Hash-consed bit-vector expressions (width 1..64) with construction-time simplification,
// concrete evaluation under an assignment, and conversion to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <string>
#include <memory>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t { OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor,
  OShl, OLShr, OAShr, OEq, OUlt, OUle, OSlt, OSle, OIte, OZExt, OSExt, OExtract, OConcat };

typedef std::vector<uint64_t> Bits;

struct Expr {
  Op op; uint8_t w; bool uninit; uint32_t id; uint64_t k;
  const Expr *a, *b, *c; size_t h; const Bits* vs;
  mutable Z3_ast z; mutable uint64_t stamp, val;
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct Assign { std::vector<uint64_t> v; uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
  void set(uint32_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };
typedef std::shared_ptr<const Assign> AssignP;

E mkConst(uint64_t v, unsigned w);
E mkVar(uint32_t ord, unsigned w, bool uninit);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
static inline bool isC(E e) { return e->op == OConst; }
E mkNot(E a);
static inline E mkEq(E a, E b) { return mkBin(OEq, a, b); }
uint64_t evalE(E e, const Assign& m);       // uses a fresh memo stamp
uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
bool bitsIntersect(const Bits& a, const Bits& b);
std::string exprStr(E e, int depth = 6);
size_t exprCount();

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, coreHits = 0, modelHits = 0, rangeHits = 0, orderHits = 0, crossChecked = 0, unknownCross = 0, disagree = 0, liaHits = 0, liaMiss = 0; double time = 0, maxTime = 0; };
extern SolverStats SS;
extern unsigned liaTimeout; extern bool liaAlways; extern double queryTimeout;  // seconds
// returns 1 sat, 0 unsat, -1 unknown. On sat, out holds values for all vars in the constraints, other values copied from base.
int solve(const std::vector<E>& path, E extra, const AssignP& base, AssignP& out);
