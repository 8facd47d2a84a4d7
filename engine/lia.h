// Exact translation of a query into linear integer arithmetic, used in front of bit-blasting when the query contains
// multiplications or divisions by constants (calendar and number arithmetic, which bit-blasts badly).
// Every term e of width w > 1 becomes an integer term v with v = e (mod 2^w) and a known interval; wrap-around is made
// explicit (mod 2^w) wherever the interval does not exclude it, so the translation is exact, not an approximation.
// A term without a linear translation makes the whole query go to the bit-vector solver instead.
typedef __int128 I128;
// An integer term is kept as a linear form over atoms (variables, quotients, conditionals); a division by K takes out the
// part of the form that is divisible by K, so positional arithmetic (days*86400 + hours*3600 + ...) cancels exactly.
struct Lia {
  struct Atom { Z3_ast z; I128 lo, hi; };
  struct V { std::vector<std::pair<int, I128>> t; I128 k, lo, hi; };
  Z3_context c; bool fail = false; std::vector<Atom> atoms; std::unordered_map<E, V> memo; std::unordered_map<E, Z3_ast> bools; std::unordered_map<E, std::pair<I128, I128>> bnd; std::vector<Z3_ast> side, facts; Z3_sort IS; int fresh = 0;
  std::map<std::pair<std::vector<std::pair<int, I128>>, std::pair<I128, I128>>, int> quot; std::map<std::pair<Z3_ast, std::pair<I128, I128>>, int> sel;
  explicit Lia(Z3_context c) : c(c) { IS = Z3_mk_int_sort(c); Z3_inc_ref(c, Z3_sort_to_ast(c, IS)); }
  static I128 p2(unsigned n) { return (I128)1 << n; }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); side.push_back(a); return a; }
  ~Lia() { for (auto a : side) Z3_dec_ref(c, a); Z3_dec_ref(c, Z3_sort_to_ast(c, IS)); }
  Z3_ast num(I128 x) { char b[64]; int i = 63; b[i] = 0; bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128)x : (unsigned __int128)x; do { b[--i] = '0' + (int)(u % 10); u /= 10; } while (u); if (n) b[--i] = '-'; return keep(Z3_mk_numeral(c, b + i, IS)); }
  Z3_ast zof(const V& v) { std::vector<Z3_ast> xs; for (auto& p : v.t) { if (p.second == 1) xs.push_back(atoms[p.first].z); else { Z3_ast m[2] = {num(p.second), atoms[p.first].z}; xs.push_back(keep(Z3_mk_mul(c, 2, m))); } } if (v.k || xs.empty()) xs.push_back(num(v.k)); return xs.size() == 1 ? xs[0] : keep(Z3_mk_add(c, xs.size(), xs.data())); }
  V cst(I128 k) { return {{}, k, k, k}; }
  V atom(Z3_ast z, I128 lo, I128 hi) { atoms.push_back({z, lo, hi}); return {{{(int)atoms.size() - 1, (I128)1}}, 0, lo, hi}; }
  V freshVar(I128 lo, I128 hi) { char b[32]; snprintf(b, 32, "q!%d", fresh++); return atom(keep(Z3_mk_const(c, Z3_mk_string_symbol(c, b), IS)), lo, hi); }
  static const I128 BIG() { return (I128)1 << 120; }
  void tighten(V& r) { I128 lo = r.k, hi = r.k; for (auto& p : r.t) { const Atom& a = atoms[p.first]; I128 m = std::max(a.hi < 0 ? -a.hi : a.hi, a.lo < 0 ? -a.lo : a.lo), k = p.second < 0 ? -p.second : p.second; if (k && m > BIG() / k) { fail = true; return; } I128 x = a.lo * p.second, y = a.hi * p.second; lo += std::min(x, y); hi += std::max(x, y); if (lo < -BIG() || hi > BIG()) { fail = true; return; } } r.lo = std::max(r.lo, lo); r.hi = std::min(r.hi, hi); if (r.lo > r.hi) { r.lo = lo; r.hi = hi; } }
  V lin(const V& a, I128 x, const V& b, I128 y) { V r; size_t i = 0, j = 0; while (i < a.t.size() || j < b.t.size()) { if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { r.t.push_back({a.t[i].first, a.t[i].second * x}); i++; } else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, b.t[j].second * y}); j++; } else { I128 s = a.t[i].second * x + b.t[j].second * y; if (s) r.t.push_back({a.t[i].first, s}); i++; j++; } }
    r.k = a.k * x + b.k * y; I128 p = a.lo * x, q = a.hi * x, u = b.lo * y, w = b.hi * y; r.lo = std::min(p, q) + std::min(u, w); r.hi = std::max(p, q) + std::max(u, w); if (!x) r.t.clear(); r.t.erase(std::remove_if(r.t.begin(), r.t.end(), [](auto& z) { return z.second == 0; }), r.t.end()); for (auto& z : r.t) if (z.second > p2(90) || z.second < -p2(90)) fail = true; tighten(r); return r; }
  V addk(const V& a, I128 k) { V r = a; r.k += k; r.lo += k; r.hi += k; return r; }
  V scale(const V& a, I128 k) { return lin(a, k, cst(0), 0); }
  V add(const V& a, const V& b) { return lin(a, 1, b, 1); }
  V sub(const V& a, const V& b) { return lin(a, 1, b, -1); }
  V ite(Z3_ast k, const V& a, const V& b) { V d = sub(a, b); if (d.t.empty()) { if (!d.k) return a; auto key = std::make_pair(k, std::make_pair((I128)0, (I128)1)); auto it = sel.find(key); int id; if (it == sel.end()) { V s = atom(keep(Z3_mk_ite(c, k, num(1), num(0))), 0, 1); id = s.t[0].first; sel[key] = id; } else id = it->second; V s{{{id, (I128)1}}, 0, 0, 1}; V r = lin(b, 1, s, d.k); r.lo = std::max(r.lo, std::min(a.lo, b.lo)); r.hi = std::min(r.hi, std::max(a.hi, b.hi)); return r; }
    return atom(keep(Z3_mk_ite(c, k, zof(a), zof(b))), std::min(a.lo, b.lo), std::max(a.hi, b.hi)); }
  Z3_ast leK(const V& a, I128 k) { return keep(Z3_mk_le(c, zof(a), num(k))); }   // a <= k
  static I128 fdiv(I128 a, I128 k) { I128 q = a / k; return a % k < 0 ? q - 1 : q; }
  // floor division by k > 0: quotient and remainder
  void split(const V& a, I128 k, V& q, V& r) {
    if (fdiv(a.lo, k) == fdiv(a.hi, k)) { I128 f = fdiv(a.lo, k); q = cst(f); r = addk(a, -f * k); return; }
    V Q = cst(0), R = cst(a.k); for (auto& p : a.t) { I128 d = p.second / k, m = p.second % k; V x{{{p.first, (I128)1}}, 0, atoms[p.first].lo, atoms[p.first].hi}; if (m == 0) Q = lin(Q, 1, x, d); else R = lin(R, 1, x, p.second); } if (fail) return;
    I128 f = fdiv(R.lo, k);
    if (f != fdiv(R.hi, k)) { I128 kk = fdiv(R.k, k); R = addk(R, -kk * k); Q = addk(Q, kk); // quotient of the rest as a new integer
      auto key = std::make_pair(R.t, std::make_pair(R.k, k)); auto it = quot.find(key); V x; if (it == quot.end()) { x = freshVar(fdiv(R.lo, k), fdiv(R.hi, k)); quot[key] = x.t[0].first; V rem = lin(R, 1, x, -k); facts.push_back(keep(Z3_mk_ge(c, zof(rem), num(0)))); facts.push_back(leK(rem, k - 1)); } else x = V{{{it->second, (I128)1}}, 0, atoms[it->second].lo, atoms[it->second].hi};
      q = add(Q, x); r = lin(R, 1, x, -k); }
    else { q = addk(Q, f); r = addk(R, -f * k); }
    r.lo = std::max(r.lo, (I128)0); r.hi = std::min(r.hi, k - 1); q.lo = std::max(q.lo, fdiv(a.lo, k)); q.hi = std::min(q.hi, fdiv(a.hi, k));
  }
  V divc(const V& a, I128 k) { if (k == 1) return a; V q, r; split(a, k, q, r); return fail ? cst(0) : q; }
  V modc(const V& a, I128 k) { if (k == 1) return cst(0); V q, r; split(a, k, q, r); return fail ? cst(0) : r; }
  V sgnd(const V& a, unsigned w) { I128 h = p2(w - 1), m = p2(w); if (a.lo >= -h && a.hi < h) return a; if (a.lo >= h && a.hi < m + h) return addk(a, -m); V t = modc(addk(a, h), m); return addk(t, -h); }
  V unsd(const V& a, unsigned w) { I128 m = p2(w); if (a.lo >= 0 && a.hi < m) return a; return modc(a, m); }
  void tdivrem(const V& s, I128 k, V& q, V& r) { // truncating, k != 0
    bool neg = k < 0; if (neg) k = -k; V fq, fr; split(s, k, fq, fr); if (fail) { q = r = cst(0); return; }
    if (s.lo >= 0 || (fr.lo == 0 && fr.hi == 0)) { q = fq; r = fr; } else { Z3_ast exact[2] = {keep(Z3_mk_ge(c, zof(s), num(0))), leK(fr, 0)}; Z3_ast ok = s.hi < 0 ? exact[1] : keep(Z3_mk_or(c, 2, exact)); q = ite(ok, fq, addk(fq, 1)); r = ite(ok, fr, addk(fr, -k)); r.lo = std::max(r.lo, std::max(s.lo, -(k - 1))); r.hi = std::min(r.hi, s.hi > 0 ? k - 1 : (I128)0); }
    if (neg) q = scale(q, -1); }
  V bad() { fail = true; return cst(0); }
  V tv(E e) { auto it = memo.find(e); if (it != memo.end()) return it->second; V r = calc(e); if (fail) return cst(0);
    if (r.lo < -p2(80) || r.hi > p2(80)) r = sgnd(r, e->w); if (fail) return cst(0);
    auto b = bnd.find(e); I128 h = p2(e->w - 1); if (b != bnd.end() && r.lo >= -h && r.hi < h) { I128 lo = std::max(r.lo, b->second.first), hi = std::min(r.hi, b->second.second); if (lo <= hi) { if (lo > r.lo) facts.push_back(keep(Z3_mk_ge(c, zof(r), num(lo)))); if (hi < r.hi) facts.push_back(leK(r, hi)); r.lo = lo; r.hi = hi; if (r.t.size() == 1 && r.t[0].second == 1) { Atom& a = atoms[r.t[0].first]; a.lo = std::max(a.lo, lo - r.k); a.hi = std::min(a.hi, hi - r.k); } } }
    return memo[e] = r; }
  V tbit(E e) { return ite(tb(e), cst(1), cst(0)); }
  V calc(E e) {
    unsigned w = e->w; if (fail) return bad();
    switch (e->op) {
    case OConst: return cst(sx(e->k, w));
    case OVar: { char b[48]; snprintf(b, 48, "i%llu_%d", (unsigned long long)e->k, e->w); return atom(keep(Z3_mk_const(c, Z3_mk_string_symbol(c, b), IS)), -p2(w - 1), p2(w - 1) - 1); }
    case OAdd: { V a = tv(e->a), b = tv(e->b); return add(a, b); }
    case OSub: { V a = tv(e->a), b = tv(e->b); return sub(a, b); }
    case OMul: { E x = e->a, y = e->b; if (isC(x)) std::swap(x, y); if (!isC(y)) return bad(); I128 k = sx(y->k, w); if (k > p2(40) || k < -p2(40)) return bad(); V a = tv(x); return scale(a, k); }
    case OUDiv: { if (!isC(e->b) || !e->b->k) return bad(); V a = unsd(tv(e->a), w); return fail ? bad() : divc(a, e->b->k); }
    case OURem: { if (!isC(e->b) || !e->b->k) return bad(); V a = unsd(tv(e->a), w); return fail ? bad() : modc(a, e->b->k); }
    case OSDiv: case OSRem: { if (!isC(e->b) || !e->b->k) return bad(); V s = sgnd(tv(e->a), w), q, r; if (fail) return bad(); tdivrem(s, sx(e->b->k, w), q, r); return e->op == OSDiv ? q : r; }
    case OAnd: { if (!isC(e->b)) return bad(); uint64_t m = e->b->k, inv = ~m & maskw(w); V a = tv(e->a); if (fail) return bad();
        if (m && !(m & (m + 1))) return modc(a, (I128)m + 1);                                     // low bits
        if (inv && !(inv & (inv + 1))) { V l = modc(a, (I128)inv + 1); return fail ? bad() : sub(a, l); } // all but the low bits
        unsigned s = __builtin_ctzll(m); uint64_t t = m >> s; if (!(t & (t + 1))) { V x = divc(a, p2(s)); if (fail) return bad(); x = modc(x, (I128)t + 1); return fail ? bad() : scale(x, p2(s)); } return bad(); }
    case OXor: { if (isC(e->b) && e->b->k == maskw(w)) { V a = tv(e->a); return addk(scale(a, -1), -1); } return bad(); }
    case OShl: { if (!isC(e->b) || e->b->k >= w || e->b->k > 30) return bad(); V a = tv(e->a); return scale(a, p2(e->b->k)); }
    case OLShr: { if (!isC(e->b) || e->b->k >= w) return bad(); V a = unsd(tv(e->a), w); return fail ? bad() : divc(a, p2(e->b->k)); }
    case OAShr: { if (!isC(e->b) || e->b->k >= w) return bad(); V a = sgnd(tv(e->a), w); return fail ? bad() : divc(a, p2(e->b->k)); }
    case OIte: { Z3_ast k = tb(e->a); V a = tv(e->b), b = tv(e->c); if (fail) return bad(); return ite(k, a, b); }
    case OZExt: if (e->a->w == 1) return tbit(e->a); return unsd(tv(e->a), e->a->w);
    case OSExt: if (e->a->w == 1) return scale(tbit(e->a), -1); return sgnd(tv(e->a), e->a->w);
    case OExtract: { V a = tv(e->a); if (e->k == 0 || fail) return a; return divc(a, p2(e->k)); }
    case OConcat: { V hi = e->a->w == 1 ? tbit(e->a) : tv(e->a), lo = e->b->w == 1 ? tbit(e->b) : unsd(tv(e->b), e->b->w); if (fail || e->b->w > 32) return bad(); return lin(hi, p2(e->b->w), lo, 1); }
    default: return bad();
    }
  }
  Z3_ast tb(E e) { auto it = bools.find(e); if (it != bools.end()) return it->second; Z3_ast r = keep(calcB(e)); return bools[e] = r; }
  Z3_ast cmp(const V& d, int k) { // the sign of a linear form: 0 d == 0, 1 d < 0, 2 d <= 0
    bool t, f; if (k == 0) { t = d.lo == 0 && d.hi == 0; f = d.lo > 0 || d.hi < 0; } else if (k == 1) { t = d.hi < 0; f = d.lo >= 0; } else { t = d.hi <= 0; f = d.lo > 0; }
    if (t) return Z3_mk_true(c); if (f) return Z3_mk_false(c); // (the bounds it follows from are asserted)
    Z3_ast z = zof(d), o = num(0); return k == 0 ? Z3_mk_eq(c, z, o) : k == 1 ? Z3_mk_lt(c, z, o) : Z3_mk_le(c, z, o); }
  Z3_ast calcB(E e) {
    if (fail) return Z3_mk_true(c);
    switch (e->op) {
    case OConst: return e->k ? Z3_mk_true(c) : Z3_mk_false(c);
    case OVar: { char b[48]; snprintf(b, 48, "b%llu", (unsigned long long)e->k); return Z3_mk_const(c, Z3_mk_string_symbol(c, b), boolS); }
    case OIte: { Z3_ast x = tb(e->a), y = tb(e->b), z = tb(e->c); return Z3_mk_ite(c, x, y, z); }
    case OExtract: { V a = tv(e->a); if (!fail) a = divc(a, p2(e->k)); if (!fail) a = modc(a, 2); if (fail) return Z3_mk_true(c); return cmp(addk(a, -1), 0); }
    default: break;
    }
    if (!e->a || !e->b) { fail = true; return Z3_mk_true(c); }
    if (e->a->w == 1) { Z3_ast a = tb(e->a), b = tb(e->b), ab[2] = {a, b};
      switch (e->op) {
      case OAnd: case OMul: return Z3_mk_and(c, 2, ab); case OOr: return Z3_mk_or(c, 2, ab); case OXor: case OAdd: case OSub: return isC(e->b) && e->b->k ? Z3_mk_not(c, a) : Z3_mk_xor(c, a, b); case OEq: return Z3_mk_iff(c, a, b);
      default: fail = true; return Z3_mk_true(c); } }
    unsigned w = e->a->w; V a = tv(e->a), b = tv(e->b); if (fail) return Z3_mk_true(c); I128 h = p2(w - 1), m = p2(w);
    auto inS = [&](const V& v) { return v.lo >= -h && v.hi < h; }; auto inU = [&](const V& v) { return v.lo >= 0 && v.hi < m; };
    bool sg = e->op == OSlt || e->op == OSle; if (e->op == OEq) { if (!((inS(a) && inS(b)) || (inU(a) && inU(b)))) { if (inU(a) || inU(b)) { a = unsd(a, w); b = unsd(b, w); } else { a = sgnd(a, w); b = sgnd(b, w); } } } else if (sg) { a = sgnd(a, w); b = sgnd(b, w); } else { a = unsd(a, w); b = unsd(b, w); }
    if (fail) return Z3_mk_true(c); V d = sub(a, b); if (fail) return Z3_mk_true(c);
    switch (e->op) {
    case OEq: return cmp(d, 0); case OUlt: case OSlt: return cmp(d, 1); case OUle: case OSle: return cmp(d, 2);
    default: fail = true; return Z3_mk_true(c); }
  }
  // signed bounds of terms that follow from constraints of the form term <= constant
  void cut(E x, I128 lo, I128 hi) { I128 h = p2(x->w - 1); auto it = bnd.find(x); std::pair<I128, I128> o = it == bnd.end() ? std::make_pair(-h, h - 1) : it->second; bnd[x] = {std::max(o.first, lo), std::min(o.second, hi)}; }
  void learn(E e, bool pos) {
    if (e->op == OXor && e->w == 1 && isC(e->b)) { learn(e->a, pos != (e->b->k == 1)); return; }
    if (e->w == 1 && e->op == OAnd && pos) { learn(e->a, true); learn(e->b, true); return; }
    if (e->w == 1 && e->op == OOr && !pos) { learn(e->a, false); learn(e->b, false); return; }
    if (e->op < OEq || e->op > OSle || e->a->w == 1) return; E a = e->a, b = e->b; unsigned w = a->w; I128 h = p2(w - 1);
    if (e->op == OEq) { if (pos && isC(b)) cut(a, sx(b->k, w), sx(b->k, w)); return; }
    bool isS = e->op == OSlt || e->op == OSle, strict = e->op == OUlt || e->op == OSlt; if (!pos) { std::swap(a, b); strict = !strict; } // a < b or a <= b
    if (isS) { if (isC(b)) cut(a, -h, (I128)sx(b->k, w) - strict); else if (isC(a)) cut(b, (I128)sx(a->k, w) + strict, h - 1); }
    else if (isC(b) && (I128)b->k < h) cut(a, 0, (I128)b->k - strict);
  }
  static bool wants(E e, std::unordered_set<E>& seen) { if (!e || e->op <= OVar || !seen.insert(e).second) return false;
    if ((e->op >= OUDiv && e->op <= OSRem && e->w > 8) || (e->op == OMul && e->w > 8)) return true; return wants(e->a, seen) || wants(e->b, seen) || wants(e->c, seen); }
};
static Z3_solver s3;
// 1 sat (values in m), 0 unsat, -1 not translatable or not decided in time
static int liaSolve(const std::vector<E>& sl, E extra, const std::vector<E>& vars, unsigned ms, std::vector<std::pair<uint32_t, uint64_t>>& m) {
  if (!s3) { s3 = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s3); }
  Lia l(ctx); for (E e : sl) l.learn(e, true); l.learn(extra, true);
  std::vector<Z3_ast> as; for (E e : sl) { as.push_back(l.tb(e)); if (l.fail) return -1; } as.push_back(l.tb(extra)); if (l.fail) return -1;
  Z3_solver_reset(ctx, s3); setTimeout(s3, ms); for (auto a : as) Z3_solver_assert(ctx, s3, a); for (auto a : l.facts) Z3_solver_assert(ctx, s3, a); // (the bounds used by the translation are part of the query)
  for (E v : vars) if (v->w > 1) { auto x = l.memo.find(v); if (x == l.memo.end()) continue; Z3_solver_assert(ctx, s3, l.keep(Z3_mk_ge(ctx, l.zof(x->second), l.num(-Lia::p2(v->w - 1))))); Z3_solver_assert(ctx, s3, l.leK(x->second, Lia::p2(v->w - 1) - 1)); }
  Z3_lbool r = Z3_solver_check(ctx, s3); if (zerr) { zerr = false; return -1; } if (r == Z3_L_FALSE) return 0; if (r != Z3_L_TRUE) return -1;
  Z3_model md = Z3_solver_get_model(ctx, s3); Z3_model_inc_ref(ctx, md); bool ok = true;
  for (E v : vars) { Z3_ast z = nullptr, o; uint64_t x = 0; if (v->w == 1) { auto i = l.bools.find(v); if (i != l.bools.end()) z = i->second; } else { auto i = l.memo.find(v); if (i != l.memo.end()) z = l.zof(i->second); }
    if (z && Z3_model_eval(ctx, md, z, true, &o)) { if (v->w == 1) x = Z3_get_bool_value(ctx, o) == Z3_L_TRUE; else { int64_t s; if (!Z3_get_numeral_int64(ctx, o, &s)) ok = false; else x = (uint64_t)s & maskw(v->w); } } m.push_back({(uint32_t)v->k, x}); }
  Z3_model_dec_ref(ctx, md); if (!ok) { m.clear(); return -1; }
  Assign a; for (auto& p : m) a.set(p.first, p.second); curStamp++; bool good = ev(extra, a); for (E e : sl) good = good && ev(e, a);
  if (!good) { fprintf(stderr, "internal: integer model does not satisfy the query: %s\n", exprStr(extra, 8).c_str()); if (getenv("VS_LIADBG")) { for (E e : sl) fprintf(stderr, "   %d %s\n", (int)ev(e, a), exprStr(e, 12).c_str()); for (auto& p : m) fprintf(stderr, "   v%u=%llu\n", p.first, (unsigned long long)p.second); fprintf(stderr, "%s\n", Z3_solver_to_string(ctx, s3)); exit(3); } SS.disagree++; m.clear(); return -1; }
  return 1;
}
