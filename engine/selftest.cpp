// Compares the expression simplifier with direct evaluation on random terms, and the engine's interval/order
// preprocessing (through solve) with Z3's verdict on the same constraints posed without preprocessing.
#include "expr.h"
#include <random>
static std::mt19937_64 rng(12345);
static uint64_t R(uint64_t n) { return rng() % n; }
struct T { E e; std::vector<uint64_t> v; };
int main(int argc, char** argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 300; liaTimeout = 100; queryTimeout = 0.5; const int NV = 6, NA = 12; uint64_t checks = 0;
  int general = argc > 2 ? atoi(argv[2]) : rounds;
  for (int r = 0; r < general; r++) {
    std::vector<Assign> as(NA); unsigned ws[] = {1, 4, 8, 8, 16, 32, 64}; std::vector<T> t; static uint32_t ord = 0;
    for (int i = 0; i < NV; i++) { unsigned w = ws[R(7)]; T x; uint32_t o = ord++; x.e = mkVar(o, w, false); for (auto& a : as) { uint64_t v = (R(2) ? rng() : R(4) - 2) & maskw(w); a.set(o, v); x.v.push_back(v); } t.push_back(x); }
    for (int k = 0; k < 60; k++) {
      const T& a = t[R(t.size())]; T n; int c = (int)R(7);
      if (c <= 3) { std::vector<int> cand; for (size_t i = 0; i < t.size(); i++) if (t[i].e->w == a.e->w) cand.push_back((int)i); T b = t[cand[R(cand.size())]]; if (R(3) == 0) { uint64_t v = (R(2) ? R(5) - 2 : rng()) & maskw(a.e->w); b.e = mkConst(v, a.e->w); b.v.assign(NA, v); }
        Op op = (Op)(OAdd + R(OSle - OAdd + 1)); if (op == OSDiv || op == OSRem || op == OUDiv || op == OURem) if (R(2)) op = OAnd; if (a.e->w == 1 && !(op == OAnd || op == OOr || op == OXor || op == OEq || op >= OUlt)) op = OXor;
        bool sw = R(4) == 0; n.e = sw ? mkBin(op, b.e, a.e) : mkBin(op, a.e, b.e); for (int i = 0; i < NA; i++) n.v.push_back(sw ? foldBin(op, b.v[i], a.v[i], a.e->w) : foldBin(op, a.v[i], b.v[i], a.e->w)); }
      else if (c == 4) { unsigned w = ws[R(7)]; if (w > a.e->w) { bool z = R(2); n.e = z ? mkZExt(a.e, w) : mkSExt(a.e, w); for (auto v : a.v) n.v.push_back(z ? v : (uint64_t)sx(v, a.e->w) & maskw(w)); } else { unsigned off = (unsigned)R(a.e->w - w + 1); n.e = mkExtract(a.e, off, w); for (auto v : a.v) n.v.push_back((v >> off) & maskw(w)); } }
      else if (c == 5) { std::vector<int> bs, cand; for (size_t i = 0; i < t.size(); i++) { if (t[i].e->w == 1) bs.push_back((int)i); if (t[i].e->w == a.e->w) cand.push_back((int)i); } if (bs.empty()) continue; T cnd = t[bs[R(bs.size())]]; T b = t[cand[R(cand.size())]]; T aa = a; if (R(2)) { uint64_t v = R(5) & maskw(a.e->w); b.e = mkConst(v, a.e->w); b.v.assign(NA, v); } if (R(4) == 0) { uint64_t v = R(5) & maskw(a.e->w); aa.e = mkConst(v, a.e->w); aa.v.assign(NA, v); } n.e = mkIte(cnd.e, aa.e, b.e); for (int i = 0; i < NA; i++) n.v.push_back(cnd.v[i] ? aa.v[i] : b.v[i]); }
      else { const T& b = t[R(t.size())]; if (a.e->w + b.e->w > 64) continue; n.e = mkConcat(a.e, b.e); for (int i = 0; i < NA; i++) n.v.push_back((a.v[i] << b.e->w) | b.v[i]); }
      for (int i = 0; i < NA; i++) { checks++; if (evalE(n.e, as[i]) != n.v[i]) { fprintf(stderr, "SIMPLIFIER MISMATCH got %llx want %llx: %s\n", (unsigned long long)evalE(n.e, as[i]), (unsigned long long)n.v[i], exprStr(n.e, 10).c_str()); return 1; } }
      t.push_back(n);
    }
    // constraint sets over the boolean terms: solve() must agree with brute evaluation for sat and with Z3 for unsat
    std::vector<E> bs; for (auto& x : t) if (x.e->w == 1 && !isC(x.e)) bs.push_back(x.e); if (bs.size() < 3) continue;
    for (int k = 0; k < 4; k++) { std::vector<E> path; AssignP base = std::make_shared<Assign>(as[R(NA)]); int m = (int)R(5); for (int j = 0; j < m; j++) { E e = bs[R(bs.size())]; if (!evalE(e, *base)) e = mkNot(e); if (!isC(e)) path.push_back(e); }
      E x = bs[R(bs.size())]; if (R(2)) x = mkNot(x); AssignP out; int res = solve(path, x, base, out); bool some = false; for (auto& a : as) { bool ok = evalE(x, a); for (E e : path) ok = ok && evalE(e, a); some = some || ok; }
      if (res == 0 && some) { fprintf(stderr, "SOLVE MISMATCH: unsat but satisfied\n"); return 1; } if (res == 1) { bool ok = evalE(x, *out); for (E e : path) ok = ok && evalE(e, *out); if (!ok) { fprintf(stderr, "SOLVE MISMATCH: bad model\n"); return 1; } } checks++; }
    // order constraints
    { unsigned w = R(2) ? 8 : 3; std::vector<E> v; for (int i = 0; i < 5; i++) v.push_back(mkVar(ord++, w, false)); bool sg = R(2); AssignP base = std::make_shared<Assign>(); Assign b0; for (E e : v) b0.set(e->k, rng() & maskw(w)); base = std::make_shared<Assign>(b0); std::vector<E> path; auto lit = [&]() { E a = v[R(5)], b = v[R(5)]; if (R(8) == 0) b = mkConst(rng(), w); Op ops[] = {OEq, sg ? OSlt : OUlt, sg ? OSle : OUle}; E e = mkBin(ops[R(3)], a, b); if (R(4) == 0) { E c = v[R(5)], d = v[R(5)]; e = mkBin(R(2) ? OOr : OAnd, e, mkBin(ops[R(3)], c, d)); } return R(3) ? e : mkNot(e); };
      for (int j = 0; j < 8; j++) { E e = lit(); if (!isC(e) && evalE(e, *base)) path.push_back(e); } E x = lit(); if (!isC(x)) { AssignP out; int res = solve(path, x, base, out); bool found = false; 
        if (w == 3) for (uint64_t n = 0; n < (1u << 15) && !found; n++) { Assign a; for (int i = 0; i < 5; i++) a.set(v[i]->k, (n >> (3 * i)) & 7); bool ok = evalE(x, a); for (E e : path) { if (!ok) break; ok = evalE(e, a); } found = ok; }
        if (w == 3 && found != (res == 1)) { fprintf(stderr, "ORDER MISMATCH res %d found %d\n", res, found); return 1; } checks++; } }
  }
  // integer translation against bit-blasting and brute force: linear terms over two 6-bit variables
  liaAlways = true; liaTimeout = 500; uint64_t before = SS.liaHits;
  for (int r = 0; r < rounds; r++) { uint32_t o2 = 9000 + 2 * (r % 50); unsigned w = 6; E a = mkVar(o2++, w, false), b = mkVar(o2++, w, false); std::vector<E> t{a, b};
    for (int k = 0; k < 8; k++) { E x = t[R(t.size())], y = t[R(t.size())], n = x; uint64_t kc = 1 + R(9); unsigned W = x->w; switch (R(13)) { case 0: n = mkBin(OMul, x, mkConst(R(64), W)); break; case 1: n = mkBin(OUDiv, x, mkConst(kc, W)); break; case 2: n = mkBin(OSDiv, x, mkConst(R(3) ? kc : 0 - kc, W)); break; case 3: n = mkBin(OURem, x, mkConst(kc, W)); break; case 4: n = mkBin(OSRem, x, mkConst(R(3) ? kc : 0 - kc, W)); break; case 5: n = mkBin(R(2) ? OLShr : OAShr, x, mkConst(R(3), W)); break; case 6: n = mkBin(OShl, x, mkConst(R(3), W)); break; case 7: { uint64_t ms[] = {1, 3, 7, 0x3c, 6, maskw(W) - 3}; n = mkBin(OAnd, x, mkConst(ms[R(6)], W)); break; } case 8: { n = R(2) ? mkSExt(x, 12) : mkZExt(x, 12); if (W >= 12) n = mkExtract(x, R(7), 6); break; } case 9: if (y->w == W) n = mkBin(OSub, x, y); break; case 10: n = mkBin(OXor, x, mkConst(maskw(W), W)); break; case 11: if (y->w == W) n = mkIte(mkBin(OSlt, x, mkConst(R(64), W)), x, y); break; default: if (y->w == W) n = mkBin(OAdd, x, y); } t.push_back(n); }
    std::vector<E> path; auto lit = [&]() { E x = t[R(t.size())], y = t[R(t.size())]; if (x->w != y->w || R(2)) y = mkConst(rng(), x->w); Op ops[] = {OEq, OUlt, OUle, OSlt, OSle}; E e = mkBin(ops[R(5)], x, y); return R(2) ? e : mkNot(e); };
    Assign b0; b0.set(a->k, R(64)); b0.set(b->k, R(64)); AssignP base = std::make_shared<Assign>(b0); for (int j = 0; j < 4; j++) { E e = lit(); if (!isC(e) && evalE(e, b0)) path.push_back(e); }
    for (int q = 0; q < 4; q++) { E x = lit(); if (isC(x)) continue; AssignP out; int res = solve(path, x, base, out); bool found = false; for (uint64_t n = 0; n < 4096 && !found; n++) { Assign m; m.set(a->k, n & 63); m.set(b->k, n >> 6); bool ok = evalE(x, m); for (E e : path) { if (!ok) break; ok = evalE(e, m); } found = ok; } checks++; if (found != (res == 1)) { fprintf(stderr, "INTEGER MISMATCH res %d found %d: %s\n", res, found, exprStr(x, 8).c_str()); return 1; } } }
  printf("selftest: %llu integer decisions\n", (unsigned long long)(SS.liaHits - before));
  if (SS.disagree) { fprintf(stderr, "preprocessing disagrees with Z3\n"); return 1; }
  printf("selftest: %llu comparisons, %llu Z3 queries, %llu range, %llu order decisions, no mismatch\n", (unsigned long long)checks, (unsigned long long)SS.queries, (unsigned long long)SS.rangeHits, (unsigned long long)SS.orderHits); return 0;
}
