// Models of the C library functions the code under check calls, by their documented contract ("C" locale).
// Only used by the symbolic executor; the native replay uses the real C library.
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
extern "C" {
  uint64_t vs_digit(uint64_t); int64_t vs_same(uint64_t, uint64_t); void vs_assume(int); void vs_print(const wchar_t*, uint64_t); int64_t vs_is_symbolic(uint64_t); uint64_t vs_ite64(int, uint64_t, uint64_t); uint64_t vs_fresh64();
}
typedef unsigned long long u64; typedef long long i64;

// ---- decimal expansions. A symbolic value is printed as k symbolic digits whose Horner sum equals the value; since a
// decimal expansion is unique this constrains nothing else. Expansions are remembered per path so that printing a parsed
// value, or parsing a printed one, reuses the same digits.
struct Exp { uint64_t value; uint64_t d[20]; int n; };
static Exp exps[16]; static int nexps;
static const uint64_t P10[20] = {1ull,10ull,100ull,1000ull,10000ull,100000ull,1000000ull,10000000ull,100000000ull,1000000000ull,10000000000ull,100000000000ull,1000000000000ull,10000000000000ull,100000000000000ull,1000000000000000ull,10000000000000000ull,100000000000000000ull,1000000000000000000ull,10000000000000000000ull};
static void remember(uint64_t v, const uint64_t* d, int n) { if (nexps < 16) { Exp& e = exps[nexps++]; e.value = v; e.n = n; for (int i = 0; i < n; i++) e.d[i] = d[i]; } }
static uint64_t horner(const uint64_t* d, int n) { uint64_t a = 0; for (int i = 0; i < n; i++) a = a * 10 + d[i]; return a; }
static int digits(uint64_t v, uint64_t* d) { // most significant first
  if (!vs_is_symbolic(v)) { uint64_t t[20]; int n = 0; do { t[n++] = v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) d[i] = t[n - 1 - i]; return n; }
  for (int i = 0; i < nexps; i++) if (vs_same(exps[i].value, v)) { for (int k = 0; k < exps[i].n; k++) d[k] = exps[i].d[k]; return exps[i].n; }
  int n = 1; while (n < 20 && v >= P10[n]) n++;
  for (int i = 0; i < n; i++) { d[i] = vs_digit((v / P10[n - 1 - i]) % 10); vs_assume(d[i] <= 9); }
  vs_assume(d[0] >= (n > 1 ? 1u : 0u));
  if (n == 20) { vs_assume(d[0] == 1); uint64_t r = horner(d + 1, 19); vs_assume(r == v - P10[19]); }
  else vs_assume(horner(d, n) == v);
  remember(v, d, n); return n;
}
template<typename T> struct Out { T* p; size_t cap; size_t n; bool over; void put(uint32_t c) { if (p && n + 1 < cap) p[n] = (T)c; else over = true; n++; } };
template<typename T> static void putNum(Out<T>& o, bool neg, uint64_t mag) { uint64_t d[20]; int n = digits(mag, d); if (neg) o.put('-'); for (int i = 0; i < n; i++) o.put((uint32_t)('0' + d[i])); }
// ---- doubles known by their six-decimal form: a harness registers the digits, the double itself is an opaque token of the
// right sign. "%f" of it prints those digits, and reading a text with the same digits (up to leading and trailing zeros)
// gives it back; nothing else is known about it.
struct Dec { uint64_t bits; bool neg; int n; uint8_t d[320]; }; static Dec decs[4]; static int ndecs;
extern "C" double vs_decimal(int neg, const uint8_t* d, int n, uint64_t known) { Dec& e = decs[ndecs]; e.bits = ((uint64_t)(neg != 0) << 63) | (known ? known : 0x4059000000000000ull + 8 * (unsigned)ndecs); ndecs++; e.neg = neg; e.n = n; for (int i = 0; i < n + 6; i++) e.d[i] = d[i]; double r; __builtin_memcpy(&r, &e.bits, 8); return r; }
template<typename T> static void putF(Out<T>& o, double v, int prec) { // registered or concrete doubles, the latter exact for the magnitudes used
  uint64_t bits; __builtin_memcpy(&bits, &v, 8); if (!vs_is_symbolic(bits)) for (int k = 0; k < ndecs; k++) if (decs[k].bits == bits) { Dec& e = decs[k]; int m = prec < 6 ? e.n + prec : e.n + 6; uint8_t d[330]; uint64_t carry = prec < 6 ? vs_ite64(e.d[m] >= 5, 1, 0) : 0; // ties away from zero: close enough to tell
      for (int i = m - 1; i >= 0; i--) { uint64_t x = e.d[i] + carry; d[i] = (uint8_t)vs_ite64(x == 10, 0, x); carry = vs_ite64(x == 10, 1, 0); } if (e.neg) o.put('-'); if (prec < 6 && carry) o.put('1');
      for (int i = 0; i < m; i++) { if (i == e.n) o.put('.'); o.put((uint32_t)'0' + d[i]); } for (int i = 6; i < prec; i++) o.put('0'); return; }
  if (v < 0) { o.put('-'); v = -v; } uint64_t ip = (uint64_t)v; double fr = v - (double)ip; uint64_t sc = P10[prec]; uint64_t fp = (uint64_t)(fr * (double)sc + 0.5); if (fp >= sc) { ip++; fp -= sc; }
  putNum(o, false, ip); o.put('.'); for (int i = prec - 1; i >= 0; i--) o.put((uint32_t)('0' + (fp / P10[i]) % 10)); }
template<typename T> static int fmtv(Out<T>& o, const T* f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { o.put((uint32_t)*f); continue; }
    f++; if (*f == '%') { o.put('%'); continue; }
    int prec = 6; if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (int)(*f++ - '0'); } }
    int lng = 0; while (*f == 'l') { lng++; f++; }
    if (*f == 'd' || *f == 'i') { i64 v = lng ? va_arg(ap, i64) : (i64)va_arg(ap, int); if (v < 0) putNum(o, true, 0 - (uint64_t)v); else putNum(o, false, (uint64_t)v); }
    else if (*f == 'u') { uint64_t v = lng ? va_arg(ap, u64) : (u64)va_arg(ap, unsigned); putNum(o, false, v); }
    else if (*f == 'f') { putF(o, *(double*)&(const u64&)(u64){va_arg(ap, u64)}, prec); }
    else __builtin_trap();
  }
  return (int)o.n;
}
extern "C" int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); Out<char> o{b, (size_t)1 << 40, 0, false}; int r = fmtv(o, f, ap); va_end(ap); b[r] = 0; return r; }
extern "C" int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); Out<char> o{b, n, 0, false}; int r = fmtv(o, f, ap); va_end(ap); if (n) b[(size_t)r < n ? r : n - 1] = 0; return r; }
extern "C" int swprintf(wchar_t* b, size_t n, const wchar_t* f, ...) { va_list ap; va_start(ap, f); Out<wchar_t> o{b, n, 0, false}; int r = fmtv(o, f, ap); va_end(ap); if (!n) return -1; if (o.over) { b[n - 1] = 0; return -1; } b[r] = 0; return r; }
extern "C" int vsnprintf(char* b, size_t n, const char* f, va_list ap) { Out<char> o{b, n, 0, false}; int r = fmtv(o, f, ap); if (n) b[(size_t)r < n ? r : n - 1] = 0; return r; }
extern "C" int vswprintf(wchar_t* b, size_t n, const wchar_t* f, va_list ap) { Out<wchar_t> o{b, n, 0, false}; int r = fmtv(o, f, ap); if (!n) return -1; if (o.over) { b[n - 1] = 0; return -1; } b[r] = 0; return r; }
extern "C" int wprintf(const wchar_t*, ...) { return 0; }
extern "C" int printf(const char*, ...) { return 0; }

// ---- strtol family, base 10
template<typename T> static bool isSp(T c) { return c == ' ' || (c >= 9 && c <= 13); }
template<typename T> static bool isDg(T c) { return c >= '0' && c <= '9'; }
static int errno_; extern "C" int* __errno_location() { return &errno_; }
// compares n digits with the decimal expansion of lim (also n digits): returns true when greater
static bool above(const uint64_t* d, int n, uint64_t lim) { for (int i = 0; i < n; i++) { uint64_t q = (lim / P10[n - 1 - i]) % 10; if (d[i] > q) return true; if (d[i] < q) return false; } return false; }
template<typename T> static uint64_t parse(const T* s, T** end, bool sgn) {
  const T* p = s; while (isSp(*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if (!isDg(*p)) { if (end) *end = (T*)s; return 0; }
  const T* q = p; while (*q == '0' && isDg(q[1])) q++;           // leading zeros
  uint64_t d[20]; int n = 0; bool many = false; const T* r = q; while (isDg(*r)) { if (n < 20) d[n++] = (uint64_t)(*r - '0'); else many = true; r++; }
  if (end) *end = (T*)r;
  uint64_t lim = sgn ? (neg ? 9223372036854775808ull : 9223372036854775807ull) : 18446744073709551615ull; int ln = sgn ? 19 : 20;
  bool over = many || n > ln || (n == ln && above(d, n, lim));
  if (over) { errno_ = 34; return sgn ? (neg ? 0x8000000000000000ull : 0x7fffffffffffffffull) : ~0ull; }
  uint64_t v; bool hit = false;
  for (int i = 0; i < nexps && !hit; i++) if (exps[i].n == n) { bool same = true; for (int k = 0; k < n && same; k++) same = vs_same(exps[i].d[k], d[k]); if (same) { v = exps[i].value; hit = true; } }
  if (!hit) { v = horner(d, n); if (vs_is_symbolic(v)) remember(v, d, n); }
  return neg ? 0 - v : v;
}
extern "C" long strtol(const char* s, char** e, int) { return (long)parse<char>(s, e, true); }
extern "C" long long strtoll(const char* s, char** e, int) { return (long long)parse<char>(s, e, true); }
extern "C" unsigned long strtoul(const char* s, char** e, int) { return parse<char>(s, e, false); }
extern "C" unsigned long long strtoull(const char* s, char** e, int) { return parse<char>(s, e, false); }
extern "C" long wcstol(const wchar_t* s, wchar_t** e, int) { return (long)parse<wchar_t>(s, e, true); }
extern "C" long long wcstoll(const wchar_t* s, wchar_t** e, int) { return (long long)parse<wchar_t>(s, e, true); }
extern "C" unsigned long wcstoul(const wchar_t* s, wchar_t** e, int) { return parse<wchar_t>(s, e, false); }
extern "C" unsigned long long wcstoull(const wchar_t* s, wchar_t** e, int) { return parse<wchar_t>(s, e, false); }
// glibc headers redirect to these names in newer language modes
extern "C" long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
extern "C" long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
extern "C" unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
extern "C" unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
extern "C" long __isoc23_wcstol(const wchar_t* s, wchar_t** e, int b) { return wcstol(s, e, b); }
extern "C" long long __isoc23_wcstoll(const wchar_t* s, wchar_t** e, int b) { return wcstoll(s, e, b); }
extern "C" unsigned long __isoc23_wcstoul(const wchar_t* s, wchar_t** e, int b) { return wcstoul(s, e, b); }
extern "C" unsigned long long __isoc23_wcstoull(const wchar_t* s, wchar_t** e, int b) { return wcstoull(s, e, b); }
template<typename T> static bool isAl(T c, char lower) { return c == lower || c == lower - 32; }
template<typename T> static bool word(const T* p, const char* w) { for (; *w; w++, p++) if (!isAl(*p, *w)) return false; return true; }
template<typename T> static bool isHx(T c) { return isDg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static double asDouble(uint64_t b) { double r; __builtin_memcpy(&r, &b, 8); return r; }
template<typename T> static double parseF(const T* s, T** e) {
  const T* p = s; while (isSp(*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++; uint64_t sign = (uint64_t)neg << 63;
  if (word(p, "inf")) { p += word(p + 3, "inity") ? 8 : 3; if (e) *e = (T*)p; return asDouble(sign | 0x7FF0000000000000ull); }
  if (word(p, "nan")) { p += 3; if (*p == '(') { const T* q = p + 1; while (isDg(*q) || *q == '_' || (*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z')) q++; if (*q == ')') p = q + 1; } if (e) *e = (T*)p; return asDouble(sign | 0x7FF8000000000000ull); }
  if (*p == '0' && isAl(p[1], 'x') && (isHx(p[2]) || (p[2] == '.' && isHx(p[3])))) { p += 2; while (isHx(*p)) p++; if (*p == '.') { p++; while (isHx(*p)) p++; } if (isAl(*p, 'p')) { const T* q = p + 1; if (*q == '-' || *q == '+') q++; if (isDg(*q)) { while (isDg(*q)) q++; p = q; } } if (e) *e = (T*)p; return asDouble(vs_fresh64()); }
  const T* i0 = p; while (isDg(*p)) p++; const T* i1 = p; const T* f0 = p; if (*p == '.' && (i1 != i0 || isDg(p[1]))) { p++; f0 = p; while (isDg(*p)) p++; } const T* f1 = p;
  if (i0 == i1 && f0 == f1) { if (e) *e = (T*)s; return 0; }
  bool ex = false; if (isAl(*p, 'e')) { const T* q = p + 1; if (*q == '-' || *q == '+') q++; if (isDg(*q)) { while (isDg(*q)) q++; p = q; ex = true; } } if (e) *e = (T*)p;
  bool sym = false; for (const T* q = i0; q < f1; q++) sym |= vs_is_symbolic((uint64_t)*q) != 0;
  if (!sym && !ex && !ndecs) { double v = 0; for (const T* q = i0; q < i1; q++) v = v * 10 + (double)(*q - '0'); double sc = 0, k = 1; for (const T* q = f0; q < f1; q++) { sc = sc * 10 + (double)(*q - '0'); k *= 10; } v += sc / k; return neg ? -v : v; }
  uint64_t r = vs_fresh64(); bool some = false; for (const T* q = i0; q < f1; q++) some = some | (isDg(*q) & (*q != '0')); vs_assume(((r << 1) != 0) == some); vs_assume((r >> 63) == (uint64_t)neg); // exponents that underflow to 0 are not used
  if (!ex) for (int k = 0; k < ndecs; k++) { Dec& g = decs[k]; bool eq = g.neg == neg; int n = (int)(i1 - i0), m = n > g.n ? n : g.n; // integer digits right aligned, fraction digits left aligned
    for (int i = 0; i < m; i++) { int a = i - (m - n), b = i - (m - g.n); eq = eq & ((a < 0 ? 0 : (uint32_t)i0[a] - '0') == (b < 0 ? 0u : g.d[b])); } int nf = (int)(f1 - f0); for (int i = 0; i < nf || i < 6; i++) eq = eq & ((i < nf ? (uint32_t)f0[i] - '0' : 0u) == (i < 6 ? g.d[g.n + i] : 0u)); r = vs_ite64(eq, g.bits, r); }
  return asDouble(r); }
extern "C" double strtod(const char* s, char** e) { return parseF<char>(s, e); }
extern "C" double wcstod(const wchar_t* s, wchar_t** e) { return parseF<wchar_t>(s, e); }

// ---- character classification in the "C" locale (no branching: the results stay symbolic)
static inline int between(int c, int lo, int hi) { return (c >= lo) & (c <= hi); }
extern "C" int tolower(int c) { return c + 32 * between(c, 'A', 'Z'); }
extern "C" int toupper(int c) { return c - 32 * between(c, 'a', 'z'); }
extern "C" unsigned towlower(unsigned c) { return c + 32u * (unsigned)between((int)c, 'A', 'Z'); }
extern "C" unsigned towupper(unsigned c) { return c - 32u * (unsigned)between((int)c, 'a', 'z'); }
extern "C" size_t mbstowcs(wchar_t* w, const char* a, size_t n) { size_t i = 0; for (; w == nullptr || i < n; i++) { unsigned char c = (unsigned char)a[i]; if (c >= 128) return (size_t)-1; if (w) w[i] = (wchar_t)c; if (!c) return i; } return i; }
extern "C" size_t wcstombs(char* a, const wchar_t* w, size_t n) { size_t i = 0; for (; a == nullptr || i < n; i++) { uint32_t c = (uint32_t)w[i]; if (c >= 128) return (size_t)-1; if (a) a[i] = (char)c; if (!c) return i; } return i; }
extern "C" wchar_t* wcscpy(wchar_t* d, const wchar_t* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
extern "C" char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
extern "C" char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
