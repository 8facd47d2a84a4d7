#include "expr.h"
#include <chrono>
#include <deque>
#include <functional>

static std::deque<Expr> pool;
struct HH { size_t operator()(const Expr* e) const { return e->h; } };
struct EE { bool operator()(const Expr* x, const Expr* y) const { return x->op == y->op && x->w == y->w && x->k == y->k && x->a == y->a && x->b == y->b && x->c == y->c && x->uninit == y->uninit; } };
static std::unordered_set<const Expr*, HH, EE> table;
static std::map<Bits, const Bits*> bitsTab;
static const Bits* emptyBits;
static std::map<std::pair<const Bits*, const Bits*>, const Bits*> unionTab;

static const Bits* internBits(const Bits& b) {
  auto it = bitsTab.find(b); if (it != bitsTab.end()) return it->second;
  const Bits* p = new Bits(b); bitsTab[b] = p; return p;
}
static const Bits* uni(const Bits* a, const Bits* b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  auto it = unionTab.find({a, b}); if (it != unionTab.end()) return it->second;
  Bits r = *a; if (b->size() > r.size()) r.resize(b->size(), 0);
  for (size_t i = 0; i < b->size(); i++) r[i] |= (*b)[i];
  return unionTab[{a, b}] = internBits(r);
}
bool bitsIntersect(const Bits& a, const Bits& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true; return false; }
size_t exprCount() { return pool.size(); }

static E intern(Expr t) {
  size_t h = (size_t)t.op * 0x9E3779B97F4A7C15ull ^ t.w * 0x85EBCA6Bull;
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(t.k); mix(t.a ? t.a->id : 0); mix(t.b ? t.b->id : 0); mix(t.c ? t.c->id : 0);
  t.h = h;
  if (t.a) t.uninit = t.a->uninit || (t.b && t.b->uninit) || (t.c && t.c->uninit);
  auto it = table.find(&t); if (it != table.end()) return *it;
  if (!emptyBits) emptyBits = internBits(Bits());
  t.id = (uint32_t)pool.size() + 1; t.z = nullptr; t.stamp = 0; t.val = 0;
  if (t.op == OVar) { Bits b(t.k / 64 + 1, 0); b[t.k / 64] |= 1ull << (t.k % 64); t.vs = internBits(b); }
  else { t.vs = emptyBits; if (t.a) t.vs = t.a->vs; if (t.b) t.vs = uni(t.vs, t.b->vs); if (t.c) t.vs = uni(t.vs, t.c->vs); }
  pool.push_back(t); E e = &pool.back(); table.insert(e); return e;
}
static E raw(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint64_t k = 0) {
  Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.k = k; return intern(t);
}
E mkConst(uint64_t v, unsigned w) { return raw(OConst, w, nullptr, nullptr, nullptr, v & maskw(w)); }
static std::map<std::pair<uint32_t, unsigned>, int> varWidths;
E mkVar(uint32_t ord, unsigned w, bool uninit) { Expr t; memset(&t, 0, sizeof t); t.op = OVar; t.w = w; t.k = ord; t.uninit = uninit; return intern(t); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
  case OAdd: return (a + b) & m; case OSub: return (a - b) & m; case OMul: return (a * b) & m;
  case OUDiv: return b ? (a / b) & m : m; case OURem: return b ? (a % b) & m : a;
  case OSDiv: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case OSRem: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case OAnd: return a & b; case OOr: return a | b; case OXor: return (a ^ b) & m;
  case OShl: return b >= w ? 0 : (a << b) & m; case OLShr: return b >= w ? 0 : a >> b;
  case OAShr: return (uint64_t)(sx(a, w) >> (b >= w ? (w > 63 ? 63 : w - 1) : b)) & m;
  case OEq: return a == b; case OUlt: return a < b; case OUle: return a <= b;
  case OSlt: return sx(a, w) < sx(b, w); case OSle: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
// structural upper bound of the unsigned value (cheap, bounded depth)
static uint64_t umax(E e, int d = 6) {
  uint64_t m = maskw(e->w); if (e->op == OConst) return e->k; if (!d) return m;
  switch (e->op) {
  case OZExt: return umax(e->a, d - 1);
  case OAdd: { uint64_t x = umax(e->a, d - 1), y = umax(e->b, d - 1); return x <= m - y ? x + y : m; }
  case OAnd: { uint64_t x = umax(e->a, d - 1), y = umax(e->b, d - 1); return x < y ? x : y; }
  case OIte: { uint64_t x = umax(e->b, d - 1), y = umax(e->c, d - 1); return x > y ? x : y; }
  case OMul: if (isC(e->b) && e->b->k) { uint64_t x = umax(e->a, d - 1); if (x <= m / e->b->k) return x * e->b->k; } return m;
  default: return m;
  }
}
static bool isCmp(Op op) { return op >= OEq && op <= OSle; }
E mkNot(E a) { return mkBin(OXor, a, mkConst(1, 1)); }
static bool samePair(E x, E y) { return (x->a == y->a && x->b == y->b) || (x->a == y->b && x->b == y->a); }
static bool isNot(E e) { return e->op == OXor && e->w == 1 && isC(e->b) && e->b->k == 1; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->w; unsigned rw = isCmp(op) ? 1 : w;
  if (a->w != b->w) { fprintf(stderr, "internal: width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->k, b->k, w), rw);
  // push into ite of constants
  if (isC(b) && a->op == OIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(foldBin(op, a->b->k, b->k, w), rw), mkConst(foldBin(op, a->c->k, b->k, w), rw));
  if (isC(a) && b->op == OIte && isC(b->b) && isC(b->c)) return mkIte(b->a, mkConst(foldBin(op, a->k, b->b->k, w), rw), mkConst(foldBin(op, a->k, b->c->k, w), rw));
  // chains of ite with constant leaves (depth 2)
  if (isC(b) && isCmp(op) && a->op == OIte && (isC(a->b) || isC(a->c)) ) {
    E x = isC(a->b) ? a->c : a->b;
    if (x->op == OIte && (isC(x->b) || isC(x->c))) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  }
  if (isC(a) && isCmp(op) && b->op == OIte && (isC(b->b) || isC(b->c))) {
    E x = isC(b->b) ? b->c : b->b;
    if (x->op == OIte && (isC(x->b) || isC(x->c))) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  }
  if ((op == OAnd || op == OOr || op == OXor) && w > 1 && a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkZExt(mkBin(op, a->a, b->a), w);
  bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq;
  if (comm) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  uint64_t m = maskw(w);
  switch (op) {
  case OAdd:
    if (isC(b)) { if (!b->k) return a; if (a->op == OAdd && isC(a->b)) return mkBin(OAdd, a->a, mkConst(a->b->k + b->k, w)); }
    if (w == 1) return mkBin(OXor, a, b);
    break;
  case OSub:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(OAdd, a, mkConst(0 - b->k, w));
    if (isC(a) && a->k == 0 && b->op == OSub && isC(b->a) && b->a->k == 0) return b->b;
    if (a->op == OAdd) { if (a->a == b) return a->b; if (a->b == b) return a->a; 
      if (b->op == OAdd && a->a == b->a) return mkBin(OSub, a->b, b->b); }
    if (b->op == OAdd && b->a == a && isC(b->b)) return mkConst(0 - b->b->k, w);
    break;
  case OMul: if (isC(b)) { if (!b->k) return b; if (b->k == 1) return a; } if (w == 1) return mkBin(OAnd, a, b);
    for (int t = 0; t < 2; t++) { E x = t ? b : a, y = t ? a : b; if (x->op == OZExt && x->a->w == 1) return mkIte(x->a, y, mkConst(0, w)); }
    break;
  case OUDiv: case OSDiv: if (isC(b) && b->k == 1 && w > 1) return a; break;
  case OAnd: if (w == 1) for (int t = 0; t < 2; t++) { E x = t ? b : a, y = t ? a : b; if (isNot(y) && y->a->op == OEq && (x->op == OUlt || x->op == OSlt || x->op == OUle || x->op == OSle) && samePair(x, y->a)) return x->op == OUle ? mkBin(OUlt, x->a, x->b) : x->op == OSle ? mkBin(OSlt, x->a, x->b) : x;
        if (y->op == OEq && samePair(x, y)) { if (x->op == OUlt || x->op == OSlt) return mkConst(0, 1); if (x->op == OUle || x->op == OSle) return y; } }
    if (a == b) return a; if (isC(b)) { if (!b->k) return b; if (b->k == m) return a;
      if (a->op == OZExt && (b->k & maskw(a->a->w)) == maskw(a->a->w)) return a; 
      if (a->op == OAnd && isC(a->b)) return mkBin(OAnd, a->a, mkConst(a->b->k & b->k, w)); }
    if (w == 1 && (isNot(a) ? a->a == b : isNot(b) && b->a == a)) return mkConst(0, 1);
    break;
  case OOr: if (w == 1) for (int t = 0; t < 2; t++) { E x = t ? b : a, y = t ? a : b; if (y->op == OEq && samePair(x, y) && (x->op == OUlt || x->op == OSlt || x->op == OUle || x->op == OSle)) return x->op == OUlt ? mkBin(OUle, x->a, x->b) : x->op == OSlt ? mkBin(OSle, x->a, x->b) : x; }
    if (a == b) return a; if (isC(b)) { if (!b->k) return a; if (b->k == m) return b; }
    if (w == 1 && (isNot(a) ? a->a == b : isNot(b) && b->a == a)) return mkConst(1, 1);
    break;
  case OXor: if (a == b) return mkConst(0, w); if (isC(b)) { if (!b->k) return a; if (a->op == OXor && isC(a->b)) return mkBin(OXor, a->a, mkConst(a->b->k ^ b->k, w));
      if (w == 1) { // negate comparisons
        if (a->op == OUlt) return mkBin(OUle, a->b, a->a); if (a->op == OUle) return mkBin(OUlt, a->b, a->a);
        if (a->op == OSlt) return mkBin(OSle, a->b, a->a); if (a->op == OSle) return mkBin(OSlt, a->b, a->a);
        if (a->op == OIte && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
      } }
    break;
  case OShl: case OLShr: case OAShr: if (isC(b) && !b->k) return a; if (isC(b) && op != OAShr && b->k >= w) return mkConst(0, w);
    if (isC(b) && op == OLShr) { unsigned s = b->k; return mkZExt(mkExtract(a, s, w - s), w); }
    break;
  case OEq:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && isC(b)) return b->k ? a : mkNot(a);
    if (isC(b)) {
      if (a->op == OZExt) { unsigned iw = a->a->w; if (b->k & ~maskw(iw)) return mkConst(0, 1); return mkEq(a->a, mkConst(b->k, iw)); }
      if (a->op == OSExt) { unsigned iw = a->a->w; if ((uint64_t)(sx(b->k, iw)) != (uint64_t)sx(b->k, w)) return mkConst(0, 1); return mkEq(a->a, mkConst(b->k, iw)); }
      if (a->op == OAdd && isC(a->b)) return mkEq(a->a, mkConst(b->k - a->b->k, w));
      if (a->op == OXor && isC(a->b)) return mkEq(a->a, mkConst(b->k ^ a->b->k, w));
      if (a->op == OSub) { if (!b->k) return mkEq(a->a, a->b); }
      if (a->op == OIte) { // one const leaf
        if (isC(a->b) && a->b->k != b->k) return mkBin(OAnd, mkNot(a->a), mkEq(a->c, b));
        if (isC(a->c) && a->c->k != b->k) return mkBin(OAnd, a->a, mkEq(a->b, b));
      }
      if (a->op == OConcat) { unsigned lw = a->b->w; return mkBin(OAnd, mkEq(a->a, mkConst(b->k >> lw, a->a->w)), mkEq(a->b, mkConst(b->k, lw))); }
    } else {
      if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == OAdd && b->op == OAdd) { if (a->a == b->a) return mkEq(a->b, b->b); if (a->b == b->b) return mkEq(a->a, b->a); }
      if (a->op == OAdd && a->a == b) return mkEq(a->b, mkConst(0, w));
      if (a->op == OAdd && a->b == b) return mkEq(a->a, mkConst(0, w));
      if (b->op == OAdd && b->a == a) return mkEq(b->b, mkConst(0, w));
      if (b->op == OAdd && b->b == a) return mkEq(b->a, mkConst(0, w));
      if (a->op == OConcat && b->op == OConcat && a->a->w == b->a->w) return mkBin(OAnd, mkEq(a->a, b->a), mkEq(a->b, b->b));
    }
    break;
  case OUlt: case OUle:
    if (a == b) return mkConst(op == OUle, 1);
    if (op == OUlt && isC(b) && b->k == 0) return mkConst(0, 1);
    if (op == OUle && isC(b) && b->k == m) return mkConst(1, 1);
    if (op == OUle && isC(a) && a->k == 0) return mkConst(1, 1);
    if (op == OUlt && isC(a) && a->k == m) return mkConst(0, 1);
    if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    if (a->op == OZExt && isC(b)) { unsigned iw = a->a->w; if (b->k > maskw(iw)) return mkConst(1, 1); return mkBin(op, a->a, mkConst(b->k, iw)); }
    if (b->op == OZExt && isC(a)) { unsigned iw = b->a->w; if (a->k > maskw(iw)) return mkConst(0, 1); return mkBin(op, mkConst(a->k, iw), b->a); }
    break;
  case OSlt: case OSle:
    if (a == b) return mkConst(op == OSle, 1);
    if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(op == OSlt ? OUlt : OUle, a->a, b->a);
    if (a->op == OZExt && isC(b)) { if (sx(b->k, w) < 0) return mkConst(0, 1); return mkBin(op == OSlt ? OUlt : OUle, a, b); }
    if (b->op == OZExt && isC(a)) { if (sx(a->k, w) < 0) return mkConst(1, 1); return mkBin(op == OSlt ? OUlt : OUle, a, b); }
    if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    if (a->op == OSExt && isC(b)) { unsigned iw = a->a->w; int64_t k = sx(b->k, w), lo = sx(1ull << (iw - 1), iw), hi = (int64_t)(maskw(iw) >> 1);
      if (k > hi) return mkConst(1, 1); if (k < lo) return mkConst(0, 1); return mkBin(op, a->a, mkConst(b->k, iw)); }
    if (b->op == OSExt && isC(a)) { unsigned iw = b->a->w; int64_t k = sx(a->k, w), lo = sx(1ull << (iw - 1), iw), hi = (int64_t)(maskw(iw) >> 1);
      if (k > hi) return mkConst(0, 1); if (k < lo) return mkConst(1, 1); return mkBin(op, mkConst(a->k, iw), b->a); }
    break;
  default: break;
  }
  return raw(op, rw, a, b);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
    if (isC(a)) return a->k ? mkBin(OOr, c, b) : mkBin(OAnd, mkNot(c), b);
    if (isC(b)) return b->k ? mkBin(OOr, mkNot(c), a) : mkBin(OAnd, c, a);
  }
  if (b->op == OIte && b->a == c) b = b->c;
  if (a->op == OIte && a->a == c) a = a->b;
  if (a == b) return a;
  return raw(OIte, a->w, c, a, b);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->k, w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->k, w), mkConst(a->c->k, w));
  if (a->op == OAdd && isC(a->b) && a->a->op == OZExt && umax(a->a) <= maskw(a->w) - a->b->k) return mkBin(OAdd, mkZExt(a->a, w), mkConst(a->b->k, w));
  return raw(OZExt, w, a);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sx(a->k, a->w), w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OSExt) return mkSExt(a->a, w);
  if (umax(a) <= (maskw(a->w) >> 1)) return mkZExt(a, w);
  if (a->op == OIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst((uint64_t)sx(a->b->k, a->w), w), mkConst((uint64_t)sx(a->c->k, a->w), w));
  return raw(OSExt, w, a);
}
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && a->w == w) return a;
  if (isC(a)) return mkConst(a->k >> off, w);
  switch (a->op) {
  case OExtract: return mkExtract(a->a, off + a->k, w);
  case OConcat: { unsigned lw = a->b->w; if (off >= lw) return mkExtract(a->a, off - lw, w); if (off + w <= lw) return mkExtract(a->b, off, w); break; }
  case OZExt: { unsigned iw = a->a->w; if (off >= iw) return mkConst(0, w); if (off + w <= iw) return mkExtract(a->a, off, w); return mkZExt(mkExtract(a->a, off, iw - off), w); }
  case OSExt: { unsigned iw = a->a->w; if (off + w <= iw) return mkExtract(a->a, off, w); if (off == 0) return mkSExt(a->a, w); break; }
  case OIte: if (isC(a->b) && isC(a->c)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
  case OAnd: case OOr: case OXor: if (isC(a->b)) return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w)); break;
  case OAdd: case OSub: case OMul: if (off == 0 && (a->a->op == OZExt || a->a->op == OSExt || isC(a->b) || a->b->op == OZExt)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case OShl: if (isC(a->b)) { unsigned s = a->b->k; if (off >= s) return mkExtract(a->a, off - s, w); if (off + w <= s) return mkConst(0, w); } break;
  default: break;
  }
  return raw(OExtract, w, a, nullptr, nullptr, off);
}
E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkConst((hi->k << lo->w) | lo->k, hi->w + lo->w);
  if (isC(hi) && hi->k == 0) return mkZExt(lo, hi->w + lo->w);
  if (hi->op == OExtract && lo->op == OExtract && hi->a == lo->a && hi->k == lo->k + lo->w) return mkExtract(hi->a, lo->k, hi->w + lo->w);
  if (hi->op == OExtract && hi->a == lo && hi->k == lo->w) return mkExtract(hi->a, 0, hi->w + lo->w);
  return raw(OConcat, hi->w + lo->w, hi, lo);
}

static uint64_t curStamp = 0;
static uint64_t ev(E e, const Assign& m) {
  if (e->op == OConst) return e->k;
  if (e->op == OVar) return m.get(e->k) & maskw(e->w);
  if (e->stamp == curStamp) return e->val;
  uint64_t r;
  switch (e->op) {
  case OIte: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
  case OZExt: r = ev(e->a, m); break;
  case OSExt: r = (uint64_t)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
  case OExtract: r = (ev(e->a, m) >> e->k) & maskw(e->w); break;
  case OConcat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
  default: { uint64_t x = ev(e->a, m), y = ev(e->b, m); r = foldBin(e->op, x, y, e->a->w); }
  }
  e->stamp = curStamp; e->val = r; return r;
}
uint64_t evalE(E e, const Assign& m) { curStamp++; return ev(e, m); }

std::string exprStr(E e, int d) {
  static const char* nm[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","zx","sx","ex","cat"};
  char b[64];
  if (e->op == OConst) { snprintf(b, 64, "%lld", (long long)sx(e->k, e->w)); return b; }
  if (e->op == OVar) { snprintf(b, 64, "v%llu:%d", (unsigned long long)e->k, e->w); return b; }
  if (!d) return "...";
  std::string s = std::string("(") + nm[e->op]; if (e->op == OExtract) s += std::to_string(e->k) + ":" + std::to_string(e->w);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}

// ---------------------------------------------------------------- solver
SolverStats SS;
double queryTimeout = 30; unsigned liaTimeout = 3000; bool liaAlways = false;
static Z3_context ctx;
static Z3_solver s1, s2;
static Z3_sort bvs[65], boolS;
static bool zerr = false;
static void onErr(Z3_context c, Z3_error_code e) { zerr = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
}
static void initZ3() {
  if (ctx) return;
  if (getenv("VS_Z3P")) { std::string t = getenv("VS_Z3P"); size_t i = 0; while (i < t.size()) { size_t j = t.find(',', i); if (j == std::string::npos) j = t.size(); std::string kv = t.substr(i, j - i); size_t e = kv.find('='); Z3_global_param_set(kv.substr(0, e).c_str(), kv.substr(e + 1).c_str()); i = j + 1; } }
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context_rc(cfg); Z3_set_error_handler(ctx, onErr);
  boolS = Z3_mk_bool_sort(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, boolS));
  for (int i = 1; i <= 64; i++) { bvs[i] = Z3_mk_bv_sort(ctx, i); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvs[i])); }
  { const char* lg = getenv("VS_LOGIC"); s1 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, lg ? lg : "QF_UFBV")); } Z3_solver_inc_ref(ctx, s1); setTimeout(s1, 300);
  s2 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s2); setTimeout(s2, (unsigned)(queryTimeout * 1000));
}
static Z3_ast knum(uint64_t v, int w) { Z3_ast r = Z3_mk_unsigned_int64(ctx, v, bvs[w]); Z3_inc_ref(ctx, r); return r; }
static Z3_ast tz(E e) {
  if (e->z) return e->z;
  Z3_ast r; Z3_context c = ctx;
  auto sortOf = [&](E x) { return x->w == 1 ? boolS : bvs[x->w]; };
  switch (e->op) {
  case OConst: r = e->w == 1 ? (e->k ? Z3_mk_true(c) : Z3_mk_false(c)) : knum(e->k, e->w); break;
  case OVar: { char b[48]; snprintf(b, 48, "v%llu_%d%s", (unsigned long long)e->k, e->w, e->uninit ? "u" : ""); r = Z3_mk_const(c, Z3_mk_string_symbol(c, b), sortOf(e)); break; }
  case OIte: r = Z3_mk_ite(c, tz(e->a), tz(e->b), tz(e->c)); break;
  case OZExt: if (e->a->w == 1) r = Z3_mk_ite(c, tz(e->a), knum(1, e->w), knum(0, e->w)); else r = Z3_mk_zero_ext(c, e->w - e->a->w, tz(e->a)); break;
  case OSExt: if (e->a->w == 1) r = Z3_mk_ite(c, tz(e->a), knum(maskw(e->w), e->w), knum(0, e->w)); else r = Z3_mk_sign_ext(c, e->w - e->a->w, tz(e->a)); break;
  case OExtract: r = Z3_mk_extract(c, e->k + e->w - 1, e->k, tz(e->a)); if (e->w == 1) { Z3_inc_ref(c, r); r = Z3_mk_eq(c, r, knum(1, 1)); } break;
  case OConcat: { auto bv = [&](E x) { Z3_ast t = tz(x); if (x->w == 1) { t = Z3_mk_ite(c, t, knum(1, 1), knum(0, 1)); Z3_inc_ref(c, t); } return t; };
      r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break; }
  default: {
    Z3_ast a = tz(e->a), b = tz(e->b); Z3_ast ab[2] = {a, b};
    if (e->a->w == 1) {
      switch (e->op) {
      case OAnd: case OMul: r = Z3_mk_and(c, 2, ab); break; case OOr: r = Z3_mk_or(c, 2, ab); break;
      case OXor: case OAdd: case OSub: r = isC(e->b) && e->b->k ? Z3_mk_not(c, a) : Z3_mk_xor(c, a, b); break;
      case OEq: r = Z3_mk_iff(c, a, b); break;
      case OUlt: ab[0] = Z3_mk_not(c, a); r = Z3_mk_and(c, 2, ab); break;
      case OUle: ab[0] = Z3_mk_not(c, a); r = Z3_mk_or(c, 2, ab); break;
      case OSlt: ab[1] = Z3_mk_not(c, b); r = Z3_mk_and(c, 2, ab); break;
      case OSle: ab[1] = Z3_mk_not(c, b); r = Z3_mk_or(c, 2, ab); break;
      default: fprintf(stderr, "internal: i1 op %d\n", e->op); abort();
      }
    } else switch (e->op) {
    case OAdd: r = Z3_mk_bvadd(c, a, b); break; case OSub: r = Z3_mk_bvsub(c, a, b); break; case OMul: r = Z3_mk_bvmul(c, a, b); break;
    case OUDiv: r = Z3_mk_bvudiv(c, a, b); break; case OSDiv: r = Z3_mk_bvsdiv(c, a, b); break;
    case OURem: r = Z3_mk_bvurem(c, a, b); break; case OSRem: r = Z3_mk_bvsrem(c, a, b); break;
    case OAnd: r = Z3_mk_bvand(c, a, b); break; case OOr: r = Z3_mk_bvor(c, a, b); break; case OXor: r = Z3_mk_bvxor(c, a, b); break;
    case OShl: r = Z3_mk_bvshl(c, a, b); break; case OLShr: r = Z3_mk_bvlshr(c, a, b); break; case OAShr: r = Z3_mk_bvashr(c, a, b); break;
    case OEq: r = Z3_mk_eq(c, a, b); break; case OUlt: r = Z3_mk_bvult(c, a, b); break; case OUle: r = Z3_mk_bvule(c, a, b); break;
    case OSlt: r = Z3_mk_bvslt(c, a, b); break; case OSle: r = Z3_mk_bvsle(c, a, b); break;
    default: abort();
    }
  } }
  Z3_inc_ref(c, r); e->z = r; return r;
}

static std::unordered_map<Z3_ast, uint32_t> litId;
static std::unordered_map<E, Z3_ast> lits;
static Z3_ast litOf(E e) {
  auto it = lits.find(e); if (it != lits.end()) return it->second;
  char b[32]; snprintf(b, 32, "p%u", e->id); Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), boolS); Z3_inc_ref(ctx, l);
  Z3_solver_assert(ctx, s1, Z3_mk_implies(ctx, l, tz(e))); litId[l] = e->id; return lits[e] = l;
}
static std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> cores; static size_t ncores = 0;
static bool coreHit(const std::vector<uint32_t>& key) {
  for (uint32_t id : key) { auto it = cores.find(id); if (it == cores.end()) continue; for (auto& c : it->second) if (std::includes(key.begin(), key.end(), c.begin(), c.end())) return true; }
  return false;
}
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
struct QR { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>, QR, VH> qcache;
static std::deque<AssignP> recent;

static void collectVars(E e, std::vector<E>& out, std::unordered_set<E>& seen) {
  if (e->op == OConst || !seen.insert(e).second) return;
  if (e->op == OVar) { out.push_back(e); return; }
  if (e->a) collectVars(e->a, out, seen); if (e->b) collectVars(e->b, out, seen); if (e->c) collectVars(e->c, out, seen);
}

// cheap witness search: change one variable of the new condition and evaluate (only ever used to find satisfying assignments)
static bool localSearch(const std::vector<E>& sl, E extra, const std::vector<E>& vars, const AssignP& base, Assign& out) {
  if (sl.size() > 80 || vars.size() > 24) return false;
  std::vector<E> ev_; for (E v : vars) if (bitsIntersect(*v->vs, *extra->vs)) ev_.push_back(v); if (ev_.size() > 4) return false;
  std::vector<uint64_t> cand; for (E v : vars) cand.push_back(base->get(v->k) & maskw(v->w));
  auto consts = [&](E e) { if (e->op >= OEq && e->op <= OSle) { if (isC(e->a)) cand.push_back(e->a->k); if (isC(e->b)) cand.push_back(e->b->k); } };
  consts(extra); if (extra->op == OXor && extra->a) consts(extra->a); for (E e : sl) { consts(e); if (e->op == OXor && e->w == 1) consts(e->a); }
  cand.push_back(0); std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end()); if (cand.size() > 40) cand.resize(40);
  std::vector<uint64_t> all; for (size_t i = 0; i < cand.size(); i++) { uint64_t c = cand[i]; all.push_back(c); all.push_back(c + 1); all.push_back(c - 1); all.push_back(c + 4096); all.push_back(c - 4096); if (i + 1 < cand.size()) all.push_back(c + (cand[i + 1] - c) / 2); }
  out = *base;
  for (E v : ev_) { uint64_t old = base->get(v->k);
    for (uint64_t x : all) { out.set(v->k, x & maskw(v->w)); curStamp++; if (!ev(extra, out)) continue; bool ok = true; for (E e : sl) if (!ev(e, out)) { ok = false; break; } if (ok) return true; }
    out.set(v->k, old); }
  return false;
}

// ---------------------------------------------------------------- unsigned interval reasoning, used as a preprocessing step in front of Z3:
// from "x <= c"-like constraints it derives bounds and refutes a query when some constraint cannot hold within them.
namespace {
struct IV { uint64_t lo, hi; };
struct Ranges {
  std::unordered_map<E, IV> bnd, memo; bool empty = false, changed = false;
  void cut(E x, uint64_t lo, uint64_t hi) { IV o = bnd.count(x) ? bnd[x] : IV{0, maskw(x->w)}; IV n{std::max(o.lo, lo), std::min(o.hi, hi)}; if (n.lo > n.hi) { empty = true; return; } if (n.lo != o.lo || n.hi != o.hi) { bnd[x] = n; changed = true;
      if (x->op == OZExt) cut(x->a, std::min(n.lo, maskw(x->a->w)), std::min(n.hi, maskw(x->a->w))); 
      if (x->op == OAdd && isC(x->b)) { uint64_t k = x->b->k, m = maskw(x->w); IV a = iv(x->a); if (a.hi <= m - k && n.hi >= k) cut(x->a, n.lo > k ? n.lo - k : 0, n.hi - k); } } }
  IV iv(E e) { auto it = memo.find(e); if (it != memo.end()) return it->second; IV r = calc(e); auto b = bnd.find(e); if (b != bnd.end()) { r.lo = std::max(r.lo, b->second.lo); r.hi = std::min(r.hi, b->second.hi); if (r.lo > r.hi) { empty = true; r = b->second; } } return memo[e] = r; }
  static int sgn(IV a, unsigned w) { uint64_t m = 1ull << (w - 1); if (a.hi < m) return 0; if (a.lo >= m) return 1; return -1; }
  IV calc(E e) {
    uint64_t m = maskw(e->w); IV full{0, m};
    switch (e->op) {
    case OConst: return {e->k, e->k};
    case OVar: return full;
    case OZExt: return iv(e->a);
    case OSExt: { IV a = iv(e->a); int g = sgn(a, e->a->w); if (g == 0) return a; if (g == 1) return {(uint64_t)sx(a.lo, e->a->w) & m, (uint64_t)sx(a.hi, e->a->w) & m}; return full; }
    case OAdd: { IV a = iv(e->a), b = iv(e->b); if (a.hi <= m - b.hi) return {a.lo + b.lo, a.hi + b.hi}; // both ends wrap
        if (a.lo > m - b.lo) return {(a.lo + b.lo) & m, (a.hi + b.hi) & m}; return full; }
    case OSub: { IV a = iv(e->a), b = iv(e->b); if (a.lo >= b.hi) return {a.lo - b.hi, a.hi - b.lo}; if (a.hi < b.lo) return {(a.lo - b.hi) & m, (a.hi - b.lo) & m}; return full; }
    case OMul: { IV a = iv(e->a), b = iv(e->b); if (b.lo == m && b.hi == m) { if (a.lo >= 1) return {(0 - a.hi) & m, (0 - a.lo) & m}; return a.hi == 0 ? a : full; } unsigned __int128 p = (unsigned __int128)a.hi * b.hi; if (p <= m) return {a.lo * b.lo, (uint64_t)p}; return full; }
    case OUDiv: { IV a = iv(e->a), b = iv(e->b); if (b.lo > 0) return {a.lo / b.hi, a.hi / b.lo}; return full; }
    case OURem: { IV a = iv(e->a), b = iv(e->b); if (b.lo > 0) { if (a.hi < b.lo) return a; return {0, std::min(a.hi, b.hi - 1)}; } return full; }
    case OAnd: { IV a = iv(e->a), b = iv(e->b); if (e->w == 1) return {a.lo & b.lo, a.hi & b.hi}; return {0, std::min(a.hi, b.hi)}; }
    case OOr: { IV a = iv(e->a), b = iv(e->b); if (e->w == 1) return {a.lo | b.lo, a.hi | b.hi}; uint64_t t = a.hi | b.hi; for (int s = 1; s < 64; s <<= 1) t |= t >> s; return {std::max(a.lo, b.lo), t & m}; }
    case OXor: { if (e->w == 1) { IV a = iv(e->a), b = iv(e->b); if (a.lo == a.hi && b.lo == b.hi) return {a.lo ^ b.lo, a.lo ^ b.lo}; return full; } IV a = iv(e->a), b = iv(e->b); uint64_t t = a.hi | b.hi; for (int s = 1; s < 64; s <<= 1) t |= t >> s; return {0, t & m}; }
    case OShl: { if (!isC(e->b) || e->b->k >= e->w) return full; IV a = iv(e->a); if (a.hi <= (m >> e->b->k)) return {a.lo << e->b->k, a.hi << e->b->k}; return full; }
    case OLShr: { if (!isC(e->b) || e->b->k >= e->w) return full; IV a = iv(e->a); return {a.lo >> e->b->k, a.hi >> e->b->k}; }
    case OIte: { IV c = iv(e->a); if (c.lo == 1) return iv(e->b); if (c.hi == 0) return iv(e->c); IV a = iv(e->b), b = iv(e->c); return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    case OConcat: { IV a = iv(e->a), b = iv(e->b); return {(a.lo << e->b->w) | b.lo, (a.hi << e->b->w) | b.hi}; }
    case OExtract: { IV a = iv(e->a); if (e->k) { a.lo >>= e->k; a.hi >>= e->k; } if (a.hi <= m) return a; if ((a.lo >> e->w) == (a.hi >> e->w) && e->w < 64) return {a.lo & m, a.hi & m}; return full; }
    case OEq: { IV a = iv(e->a), b = iv(e->b); if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return {1, 1}; if (a.hi < b.lo || b.hi < a.lo) return {0, 0}; return full; }
    case OUlt: { IV a = iv(e->a), b = iv(e->b); if (a.hi < b.lo) return {1, 1}; if (a.lo >= b.hi) return {0, 0}; return full; }
    case OUle: { IV a = iv(e->a), b = iv(e->b); if (a.hi <= b.lo) return {1, 1}; if (a.lo > b.hi) return {0, 0}; return full; }
    case OSlt: case OSle: { IV a = iv(e->a), b = iv(e->b); unsigned w = e->a->w; int x = sgn(a, w), y = sgn(b, w); if (x < 0 || y < 0) return full; if (x != y) { uint64_t r = x > y; return {r, r}; } if (e->op == OSlt) { if (a.hi < b.lo) return {1, 1}; if (a.lo >= b.hi) return {0, 0}; } else { if (a.hi <= b.lo) return {1, 1}; if (a.lo > b.hi) return {0, 0}; } return full; }
    default: return full;
    }
  }
  void learn(E e, bool pos) {
    if (e->op == OXor && e->w == 1 && isC(e->b)) { learn(e->a, pos != (e->b->k == 1)); return; }
    if (e->w == 1 && e->op == OAnd && pos) { learn(e->a, true); learn(e->b, true); return; }
    if (e->w == 1 && e->op == OOr && !pos) { learn(e->a, false); learn(e->b, false); return; }
    if (e->op < OEq || e->op > OSle) return; E a = e->a, b = e->b; unsigned w = a->w; if (w == 1) { if (e->op == OEq && isC(b)) cut(a, pos ? b->k : !b->k, pos ? b->k : !b->k); return; }
    uint64_t m = maskw(w), sm = w >= 64 ? 1ull << 63 : 1ull << (w - 1); IV x = iv(a), y = iv(b);
    if (e->op == OEq) { if (pos) { cut(a, y.lo, y.hi); cut(b, x.lo, x.hi); } else { if (y.lo == y.hi) { if (x.lo == y.lo && x.lo < m) cut(a, x.lo + 1, m); if (x.hi == y.lo && x.hi > 0) cut(a, 0, x.hi - 1); } if (x.lo == x.hi) { if (y.lo == x.lo && y.lo < m) cut(b, y.lo + 1, m); if (y.hi == x.lo && y.hi > 0) cut(b, 0, y.hi - 1); } } return; }
    bool isS = e->op == OSlt || e->op == OSle, strict = e->op == OUlt || e->op == OSlt; if (!pos) { std::swap(a, b); std::swap(x, y); strict = !strict; } // now a < b or a <= b
    if (!isS) { if (strict && y.hi == 0) { empty = true; return; } cut(a, 0, y.hi - (strict ? 1 : 0)); if (strict && x.lo == m) { empty = true; return; } cut(b, x.lo + (strict ? 1 : 0), m); return; }
    int p = sgn(x, w), q = sgn(y, w);
    if (p == 0) { cut(b, std::min(m >> 1, x.lo + (strict && x.lo < (m >> 1) ? 1 : 0)), m >> 1); } // 0 <= a <= b
    if (q == 1) { cut(a, sm, y.hi - (strict && y.hi > sm ? 1 : 0)); } // a <= b < 0
    if (p == 0 && q == 0) { if (strict && y.hi == 0) { empty = true; return; } cut(a, 0, y.hi - (strict ? 1 : 0)); }
    if (p == 1 && q == 1) { cut(b, x.lo + (strict && x.lo < m ? 1 : 0), m); }
  }
  bool refutes(const std::vector<E>& sl, E extra) {
    for (int r = 0; r < 4; r++) { changed = false; memo.clear(); for (E e : sl) { learn(e, true); if (empty) return true; } learn(extra, true); if (empty) return true; if (!changed) break; memo.clear(); }
    memo.clear(); if (iv(extra).hi == 0 || empty) return true; for (E e : sl) { if (iv(e).hi == 0 || empty) return true; } return false;
  }
};
}
// ---- order reasoning: comparisons between terms are decided by transitivity (a complete procedure when every constraint
// is a comparison between plain variables of one width and signedness, a sound refutation otherwise).
struct Orders {
  struct Lit { E a, b; int k; };                     // k: 0 a==b, 1 a!=b, 2 a<b, 3 a<=b
  struct Ctx { std::vector<Lit> u, s, eq; std::vector<E> ors; bool pure = true; };
  static bool negE(E e) { return e->op == OXor && e->w == 1 && isC(e->b) && e->b->k == 1; }
  static void add(Ctx& c, E e, bool pos) {
    if (negE(e)) { add(c, e->a, !pos); return; }
    if (e->w == 1 && e->op == OAnd && pos) { add(c, e->a, true); add(c, e->b, true); return; }
    if (e->w == 1 && e->op == OOr && !pos) { add(c, e->a, false); add(c, e->b, false); return; }
    if (e->w == 1 && e->op == OOr && pos) { c.ors.push_back(e); c.pure = false; return; }
    if (e->w == 1 && e->op == OAnd && !pos) { c.ors.push_back(e); c.pure = false; return; }
    if (e->op < OEq || e->op > OSle || e->a->w == 1) { c.pure = false; return; }
    E a = e->a, b = e->b; if (a->op != OVar || b->op != OVar) c.pure = false;
    if (e->op == OEq) { c.eq.push_back({a, b, pos ? 0 : 1}); return; }
    bool strict = e->op == OUlt || e->op == OSlt, uns = e->op == OUlt || e->op == OUle; auto& v = uns ? c.u : c.s;
    if (pos) v.push_back({a, b, strict ? 2 : 3}); else v.push_back({b, a, strict ? 3 : 2});
  }
  // -1 unsat, 0 don't know / consistent; fills comp order when consistent
  static int check(const std::vector<Lit>& ord, const std::vector<Lit>& eq, bool sgn, std::vector<std::pair<E, int>>* rank) {
    std::unordered_map<E, int> ix; std::vector<E> nodes; auto id = [&](E e) { auto it = ix.find(e); if (it != ix.end()) return it->second; int n = (int)nodes.size(); ix[e] = n; nodes.push_back(e); return n; };
    for (auto& l : ord) { id(l.a); id(l.b); } for (auto& l : eq) { id(l.a); id(l.b); }
    int n = (int)nodes.size(); if (n > 200) return 0; std::vector<std::vector<std::pair<int, bool>>> g(n);
    for (auto& l : ord) g[id(l.a)].push_back({id(l.b), l.k == 2}); for (auto& l : eq) if (l.k == 0) { g[id(l.a)].push_back({id(l.b), false}); g[id(l.b)].push_back({id(l.a), false}); }
    std::vector<int> ks; for (int i = 0; i < n; i++) if (isC(nodes[i])) ks.push_back(i);
    if (sgn) std::sort(ks.begin(), ks.end(), [&](int x, int y) { return sx(nodes[x]->k, nodes[x]->w) < sx(nodes[y]->k, nodes[y]->w); }); else std::sort(ks.begin(), ks.end(), [&](int x, int y) { return nodes[x]->k < nodes[y]->k; });
    for (size_t i = 0; i + 1 < ks.size(); i++) if (nodes[ks[i]]->w == nodes[ks[i + 1]]->w) g[ks[i]].push_back({ks[i + 1], true});
    // Tarjan
    std::vector<int> num(n, -1), low(n, 0), comp(n, -1), st; int cnt = 0, nc = 0; 
    std::function<void(int)> dfs = [&](int v) { num[v] = low[v] = cnt++; st.push_back(v); for (auto& p : g[v]) { int w = p.first; if (num[w] < 0) { dfs(w); low[v] = std::min(low[v], low[w]); } else if (comp[w] < 0) low[v] = std::min(low[v], num[w]); }
      if (low[v] == num[v]) { for (;;) { int w = st.back(); st.pop_back(); comp[w] = nc; if (w == v) break; } nc++; } };
    for (int i = 0; i < n; i++) if (num[i] < 0) dfs(i);
    for (int i = 0; i < n; i++) for (auto& p : g[i]) if (p.second && comp[i] == comp[p.first]) return -1;
    for (auto& l : eq) if (l.k == 1 && comp[id(l.a)] == comp[id(l.b)]) return -1;
    if (rank) { rank->clear(); for (int i = 0; i < n; i++) rank->push_back({nodes[i], nc - 1 - comp[i]}); }
    return 0;
  }
  static bool refuted(const Ctx& c, int depth) {
    if (check(c.u, c.eq, false, nullptr) < 0) return true; if (!c.s.empty() && check(c.s, c.eq, true, nullptr) < 0) return true;
    if (depth <= 0) return false;
    for (E o : c.ors) { // every branch of one disjunction refuted
      Ctx x = c; Ctx y = c; bool isOr = o->op == OOr; auto drop = [&](Ctx& z) { for (size_t i = 0; i < z.ors.size(); i++) if (z.ors[i] == o) { z.ors.erase(z.ors.begin() + i); break; } }; drop(x); drop(y);
      add(x, o->a, isOr); if (!refuted(x, depth - 1)) continue; add(y, o->b, isOr); if (refuted(y, depth - 1)) return true; }
    return false;
  }
  // 1 sat (values in out), 0 unsat, -1 undecided
  static int decide(const std::vector<E>& sl, E extra, std::vector<std::pair<uint32_t, uint64_t>>& out) {
    Ctx c; for (E e : sl) add(c, e, true); size_t base = c.ors.size(); add(c, extra, true);
    if (base > 0) { std::vector<E> mine(c.ors.begin() + base, c.ors.end()); if (mine.size() > 3) mine.resize(3); c.ors = mine; }
    int d = 0; if (c.ors.size()) { d = 40; } if (c.ors.size() > 1) d = 3;
    if (refuted(c, d)) return 0;
    if (!c.pure) return -1; if (!c.u.empty() && !c.s.empty()) return -1; bool sgn = !c.s.empty(); std::vector<std::pair<E, int>> rank; if (check(sgn ? c.s : c.u, c.eq, sgn, &rank) < 0) return 0;
    if (rank.empty()) return -1; unsigned w = rank[0].first->w; int mx = 0; for (auto& r : rank) { if (r.first->w != w) return -1; mx = std::max(mx, r.second); } if (w < 64 && (uint64_t)mx > maskw(w)) return -1;
    // spread around the middle so that later values fit in between
    uint64_t span = maskw(w) / (uint64_t)(mx + 2); if (span == 0) span = 1; if (span * (uint64_t)mx > maskw(w)) return -1;
    for (auto& r : rank) { uint64_t v = span == 1 ? (uint64_t)r.second : span * (uint64_t)(r.second + 1); if (sgn) v ^= 1ull << (w - 1); out.push_back({(uint32_t)r.first->k, v & maskw(w)}); } return 1;
  }
};
#include "lia.h"
int solve(const std::vector<E>& path, E extra, const AssignP& base, AssignP& out) {
  if (isC(extra)) { if (!extra->k) return 0; out = base; return 1; }
  // independent slice
  std::vector<E> sl; std::vector<char> in(path.size(), 0); Bits vs = *extra->vs; bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < path.size(); i++) if (!in[i] && bitsIntersect(*path[i]->vs, vs)) {
      in[i] = 1; ch = true; const Bits& b = *path[i]->vs; if (b.size() > vs.size()) vs.resize(b.size(), 0); for (size_t j = 0; j < b.size(); j++) vs[j] |= b[j]; } }
  for (size_t i = 0; i < path.size(); i++) if (in[i]) sl.push_back(path[i]);
  std::vector<uint32_t> key; for (E e : sl) key.push_back(e->id); key.push_back(extra->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    QR q; q.r = -1; bool done = false, fromPre = false;
    if (coreHit(key)) { q.r = 0; done = true; SS.coreHits++; }
    std::vector<E> vars; std::unordered_set<E> seen; for (E e : sl) collectVars(e, vars, seen); collectVars(extra, vars, seen);
    if (!done) for (auto& r : recent) { curStamp++; if (!ev(extra, *r)) continue; bool ok = true; for (E e : sl) if (!ev(e, *r)) { ok = false; break; }
      if (ok) { q.r = 1; for (E v : vars) q.m.push_back({(uint32_t)v->k, r->get(v->k) & maskw(v->w)}); done = true; SS.modelHits++; break; } }
    if (!done) { Assign ls; if (localSearch(sl, extra, vars, base, ls)) { q.r = 1; for (E v : vars) q.m.push_back({(uint32_t)v->k, ls.get(v->k) & maskw(v->w)}); done = true; SS.modelHits++; } }
    if (!done) { Ranges rg; if (rg.refutes(sl, extra)) { q.r = 0; done = fromPre = true; SS.rangeHits++; } }
    if (!done) { std::vector<std::pair<uint32_t, uint64_t>> om; int r = Orders::decide(sl, extra, om); if (r == 0) { q.r = 0; done = fromPre = true; SS.orderHits++; }
      else if (r == 1) { Assign a; for (auto& p : om) a.set(p.first, p.second); curStamp++; bool ok = ev(extra, a); for (E e : sl) ok = ok && ev(e, a); if (ok) { q.r = 1; for (E v : vars) q.m.push_back({(uint32_t)v->k, a.get(v->k) & maskw(v->w)}); done = true; SS.orderHits++; } } }
    if (done && q.r == 0 && fromPre) { // the engine's own interval/order refutations: the first ones and then a sample are confirmed by Z3
      static uint64_t cnt = 0; if (++cnt <= 24 || cnt % 256 == 0) { initZ3(); auto t0 = std::chrono::steady_clock::now(); Z3_solver_reset(ctx, s2); for (E e : sl) Z3_solver_assert(ctx, s2, tz(e)); Z3_solver_assert(ctx, s2, tz(extra)); setTimeout(s2, 2000); Z3_lbool res = Z3_solver_check(ctx, s2); setTimeout(s2, (unsigned)(queryTimeout * 1000)); SS.queries++; SS.crossChecked++; SS.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (res == Z3_L_TRUE) { fprintf(stderr, "internal: Z3 disagrees with a preprocessing refutation: %s\n", exprStr(extra, 8).c_str()); SS.disagree++; q.r = -1; } else if (res == Z3_L_FALSE) SS.unsat++; else SS.unknownCross++; } }
    if (!done) {
      initZ3(); auto t0 = std::chrono::steady_clock::now(); SS.queries++;
      Z3_lbool res = Z3_L_UNDEF; static const bool noLia = getenv("VS_NOLIA");
      { std::unordered_set<E> sn; bool want = !noLia && (liaAlways || Lia::wants(extra, sn)); if (!noLia) for (E e : sl) want = want || Lia::wants(e, sn);
        if (want) { int r = liaSolve(sl, extra, vars, liaTimeout, q.m); if (r >= 0) { res = r ? Z3_L_TRUE : Z3_L_FALSE; SS.liaHits++;
          static uint64_t nl = 0; if (r == 0 && (liaAlways || ++nl <= 3 || nl % 256 == 0)) { Z3_solver_reset(ctx, s2); for (E e : sl) Z3_solver_assert(ctx, s2, tz(e)); Z3_solver_assert(ctx, s2, tz(extra)); setTimeout(s2, 300); Z3_lbool x = Z3_solver_check(ctx, s2); setTimeout(s2, (unsigned)(queryTimeout * 1000)); zerr = false; SS.crossChecked++;
            if (x == Z3_L_TRUE) { fprintf(stderr, "internal: the bit-vector and integer encodings disagree: %s\n", exprStr(extra, 8).c_str()); SS.disagree++; res = Z3_L_UNDEF; } else if (x == Z3_L_UNDEF) SS.unknownCross++; } } else SS.liaMiss++; } }
      for (int k = 0; k < 2 && res == Z3_L_UNDEF; k++) {
        Z3_solver s = k ? s2 : s1;
        if (k == 0) { // persistent solver: every constraint is attached once to a literal, a query is a set of assumptions
          if (lits.size() > 1000) { Z3_solver_reset(ctx, s); lits.clear(); }
          std::vector<Z3_ast> as; for (E e : sl) as.push_back(litOf(e)); as.push_back(litOf(extra));
          res = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
          if (res == Z3_L_FALSE && !zerr) { Z3_ast_vector uc = Z3_solver_get_unsat_core(ctx, s); Z3_ast_vector_inc_ref(ctx, uc); std::vector<uint32_t> c; unsigned n = Z3_ast_vector_size(ctx, uc); bool okc = true;
            for (unsigned i = 0; i < n; i++) { auto f = litId.find(Z3_ast_vector_get(ctx, uc, i)); if (f == litId.end()) { okc = false; break; } c.push_back(f->second); } Z3_ast_vector_dec_ref(ctx, uc);
            std::sort(c.begin(), c.end()); if (okc && !c.empty()) { if (ncores > 20000) { cores.clear(); ncores = 0; } cores[c.back()].push_back(c); ncores++; } }
        } else { Z3_solver_reset(ctx, s);
        for (E e : sl) Z3_solver_assert(ctx, s, tz(e)); Z3_solver_assert(ctx, s, tz(extra));
        res = Z3_solver_check(ctx, s); }
        if (zerr) { zerr = false; res = Z3_L_UNDEF; continue; }
        if (res == Z3_L_TRUE) {
          Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
          for (E v : vars) { Z3_ast r; if (Z3_model_eval(ctx, m, tz(v), true, &r)) { uint64_t x = 0; if (v->w == 1) x = Z3_get_bool_value(ctx, r) == Z3_L_TRUE; else Z3_get_numeral_uint64(ctx, r, &x); q.m.push_back({(uint32_t)v->k, x}); } }
          Z3_model_dec_ref(ctx, m);
        }
      }
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); SS.time += dt; if (dt > SS.maxTime) SS.maxTime = dt;
      static const char* slowE = getenv("VS_SLOW"); if (slowE && dt > atof(slowE)) { fprintf(stderr, "slow %.1f s res %d extra %s\n", dt, (int)res, exprStr(extra, 8).c_str()); for (E e : sl) fprintf(stderr, "    %s\n", exprStr(e, 5).c_str()); }
      q.r = res == Z3_L_TRUE ? 1 : res == Z3_L_FALSE ? 0 : -1;
      if (q.r == 1) SS.sat++; else if (q.r == 0) SS.unsat++; else SS.unknown++;
      if (q.r == 1) { // validate the model by evaluation: a wrong translation or a solver slip must not go unnoticed
        Assign a; for (auto& p : q.m) a.set(p.first, p.second); curStamp++;
        bool ok = ev(extra, a); for (E e : sl) ok = ok && ev(e, a);
        if (!ok) { fprintf(stderr, "internal: model does not satisfy query\n"); q.r = -1; SS.sat--; SS.unknown++; }
      }
    }
    it = qcache.emplace(std::move(key), std::move(q)).first;
  } else SS.cacheHits++;
  if (it->second.r == 1) {
    auto a = std::make_shared<Assign>(*base); for (auto& p : it->second.m) a->set(p.first, p.second);
    out = a; recent.push_front(out); if (recent.size() > 12) recent.pop_back();
  }
  return it->second.r;
}
