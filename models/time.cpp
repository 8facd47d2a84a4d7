// Model of the C time functions: proleptic Gregorian calendar, a constant UTC offset (vs_tz_offset seconds) for local time.
#include <stdint.h>
#include <time.h>
#include <sys/time.h>
extern "C" { uint64_t vs_hint64(uint64_t); void vs_assume(int); int64_t vs_concretize(int64_t); int64_t vs_is_symbolic(uint64_t);
  int64_t vs_tz_offset = 0; int64_t vs_now_sec = 1000000000, vs_now_usec = 123456; }
static bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int64_t daysBeforeYear(int64_t y) { y--; int64_t f = (y >= 0 ? y / 4 : -((-y + 3) / 4)), c = (y >= 0 ? y / 100 : -((-y + 99) / 100)), q = (y >= 0 ? y / 400 : -((-y + 399) / 400)); return y * 365 + f - c + q; } // since 0001-01-01 for y>=1
static const int64_t EPOCH = 719162;  // days before 1970 counted from 0001-01-01
static int64_t daysInMonth(int64_t y, int64_t m) { static const int n[12] = {31,28,31,30,31,30,31,31,30,31,30,31}; return n[m] + (m == 1 && leap(y) ? 1 : 0); }
static int64_t daysBefore(int64_t y, int64_t m) { int64_t r = daysBeforeYear(y) - EPOCH; for (int64_t i = 0; i < m; i++) r += daysInMonth(y, i); return r; }
static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return (a % b != 0 && (a < 0)) ? q - 1 : q; }
// floor division with remainder by a positive constant (a shifted dividend, so that truncation is floor)
static void divmod(int64_t a, int64_t b, int64_t& q, int64_t& r) {
  if (!vs_is_symbolic((uint64_t)a)) { q = fdiv(a, b); r = a - q * b; return; }
  const int64_t B = 1ll << 24; vs_assume(a >= -b * B); vs_assume(a <= b * B); q = (a + b * B) / b - B; r = (a + b * B) % b;
}
static void fill(int64_t t, struct tm* o) {
  int64_t d, s, h, mi, se; divmod(t, 86400, d, s); divmod(s, 3600, h, s); divmod(s, 60, mi, se);
  int64_t y; if (!vs_is_symbolic((uint64_t)d)) { y = 1970 + fdiv(d, 366); while (daysBefore(y + 1, 0) <= d) y++; while (daysBefore(y, 0) > d) y--; }
  else { // pick the year by its day range (bisection: a branch per step, decided by the solver when the range allows only one side)
    int64_t lo = 1, hi = 9000; vs_assume(d >= daysBefore(lo, 0)); vs_assume(d < daysBefore(hi, 0)); while (hi - lo > 1) { int64_t mid = lo + 1 < 1900 || hi > 2501 ? (lo < 1900 ? (hi > 1900 ? 1900 : (lo + hi) / 2) : 2500) : (lo + hi) / 2; if (mid <= lo || mid >= hi) mid = (lo + hi) / 2; if (d >= daysBefore(mid, 0)) lo = mid; else hi = mid; } y = lo; }
  int64_t m = 0, mh = 12; while (mh - m > 1) { int64_t mid = (m + mh) / 2; if (d >= daysBefore(y, mid)) m = mid; else mh = mid; }
  int64_t wd, wq; divmod(d + 4, 7, wq, wd);
  o->tm_sec = (int)se; o->tm_min = (int)mi; o->tm_hour = (int)h; o->tm_mday = (int)(d - daysBefore(y, m) + 1); o->tm_mon = (int)m; o->tm_year = (int)(y - 1900); o->tm_wday = (int)wd; o->tm_yday = (int)(d - daysBefore(y, 0)); o->tm_isdst = 0; o->tm_gmtoff = vs_tz_offset;
}
static struct tm shared;
extern "C" struct tm* gmtime(const time_t* t) { fill(*t, &shared); shared.tm_gmtoff = 0; return &shared; }
extern "C" struct tm* localtime(const time_t* t) { fill(*t + vs_tz_offset, &shared); return &shared; }
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* o) { fill(*t, o); return o; }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* o) { fill(*t + vs_tz_offset, o); return o; }
extern "C" time_t mktime(struct tm* i) {
  int64_t y = vs_concretize(i->tm_year) + 1900, m = vs_concretize(i->tm_mon); int64_t k = fdiv(m, 12); y += k; m -= k * 12;
  int64_t d = daysBefore(y, m) + (int64_t)i->tm_mday - 1; int64_t s = (int64_t)i->tm_hour * 3600 + (int64_t)i->tm_min * 60 + (int64_t)i->tm_sec;
  int64_t t = d * 86400 + s;
  bool norm = ((i->tm_sec >= 0) & (i->tm_sec < 60) & (i->tm_min >= 0) & (i->tm_min < 60) & (i->tm_hour >= 0) & (i->tm_hour < 24) & (i->tm_mday >= 1) & ((int64_t)i->tm_mday <= daysInMonth(y, m)));
  if (norm) { i->tm_mon = (int)m; i->tm_year = (int)(y - 1900); i->tm_yday = (int)(d - daysBefore(y, 0)); int64_t wd, wq; divmod(d + 4, 7, wq, wd); i->tm_wday = (int)wd; i->tm_isdst = 0; i->tm_gmtoff = vs_tz_offset; }
  else fill(t, i);
  return t - vs_tz_offset;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = vs_now_sec; tv->tv_usec = vs_now_usec; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { t->tv_sec = vs_now_sec; t->tv_nsec = vs_now_usec * 1000; return 0; }
extern "C" void tzset() noexcept {}
extern "C" time_t timegm(struct tm* i) noexcept { int64_t o = vs_tz_offset; vs_tz_offset = 0; time_t t = mktime(i); vs_tz_offset = o; return t; }
extern "C" time_t timelocal(struct tm* i) noexcept { return mktime(i); }
extern "C" void vs_set_tz(int64_t off) { vs_tz_offset = off; }
extern "C" void vs_set_now(int64_t s, int64_t us) { vs_now_sec = s; vs_now_usec = us; }
extern "C" time_t time(time_t* t) { if (t) *t = vs_now_sec; return vs_now_sec; }
