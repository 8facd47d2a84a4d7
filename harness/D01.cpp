// sources: Basic.cpp Exception.cpp Primitives/DateTime.cpp Primitives/DateTime.Linux.cpp
// models: libc time
// native: time
// bounds: fields: every day, hour, minute, second and millisecond of every month of 14 years between 1900 and 2400 (thorough: of every year 1890 to 2110, and 2400); back from the serial number: the same of the first 4 months of 3 years (thorough: all 14); ordering: every pair of moments among 3 months of 4 years and 2 of 4 (thorough: 8); moving by up to 33 days in milliseconds from January 1970 (thorough: 400 days, every month of 4 years), there and back by up to 31 days from January of 3 years (thorough: 400 days, 6 years); by 0 to 36525 days (thorough 14 distances to 146097) and any fraction of a day from 4 moments (thorough 12); universal and local time of January 1970 (thorough: 4 years); the current time within 40000 s of 1970 (thorough: of five moments); every time zone with a fixed offset of up to 15 hours in seconds
// outside: time zones with changing offsets (daylight saving); seconds of 60; moments beyond those years; the raw numbers of moments before 1970 (they only compare as signed numbers); Windows
// assume: the C library's localtime, gmtime, mktime, timegm, gettimeofday and clock_gettime follow the proleptic Gregorian calendar (models/time.cpp)
#include "vs.h"
#include "Primitives/DateTime.h"
using namespace vl;
extern "C" { void vs_set_tz(int64_t); void vs_set_now(int64_t, int64_t); }
// days since 1970-01-01 by the era method: independent of the model's year-by-year counting
static int64_t days(int64_t y, int64_t m, int64_t d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int64_t length(int64_t y, int64_t m) { return m == 2 ? (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
struct Moment { int64_t y, m, d, h, mi, s, ms; int64_t serial() const { return (((days(y, m, d) * 24 + h) * 60 + mi) * 60 + s) * 1000 + ms; } };
static int64_t serial(const DateTime& t) { return (((days(vs_concretize(t.year), vs_concretize(t.month), t.day) * 24 + t.hour) * 60 + t.minute) * 60 + t.second) * 1000 + t.milliseconds; }
static void valid(const DateTime& t) { int64_t y = vs_concretize(t.year), m = vs_concretize(t.month); A((m >= 1) & (m <= 12), "month"); A(t.day >= 1, "day"); A(t.day <= length(y, m), "day"); A((t.hour >= 0) & (t.hour <= 23), "hour"); A((t.minute >= 0) & (t.minute <= 59), "minute"); A((t.second >= 0) & (t.second <= 59), "second"); A((t.milliseconds >= 0) & (t.milliseconds <= 999), "millisecond"); }
static void weekday(const DateTime& t, int64_t dayNumber) { int64_t w = t.dayOfWeek; A((w >= 0) & (w <= 6), "day of the week"); A((dayNumber + 4 - w) % 7 == 0, "day of the week"); } // 1970-01-01 was a Thursday
static void same(const DateTime& a, const DateTime& b, const char* id) { A(a.year == b.year, id); A(a.month == b.month, id); A(a.day == b.day, id); A(a.hour == b.hour, id); A(a.minute == b.minute, id); A(a.second == b.second, id); A(a.milliseconds == b.milliseconds, id); A(a.dayOfWeek == b.dayOfWeek, id); A(a.osInternal == b.osInternal, id); A(a.osMilliseconds == b.osMilliseconds, id); A(a == b, id); }
static const int YEARS[] = {1970, 2000, 1969, 2100, 2004, 1999, 1971, 1972, 1968, 1900, 1904, 2038, 2399, 2400};
static int64_t year(int n) { if (TIER && n == 14) { int64_t i = vs_choice("year", 222); return i == 221 ? 2400 : 1890 + i; } return YEARS[vs_choice("year", n)]; }
static Moment moment(int years, int months) { Moment x; x.y = year(years); x.m = months == 12 ? 1 + vs_choice("month", 12) : 1 + vs_choice("month", months) * 1; x.d = vs_range("day", 1, length(x.y, x.m)); x.h = vs_range("hour", 0, 23); x.mi = vs_range("minute", 0, 59); x.s = vs_range("second", 0, 59); x.ms = vs_range("ms", 0, 999); return x; }
static int64_t zone() { int64_t z = vs_range("zone", -54000, 54000); vs_set_tz(z); return z; }
static DateTime make(const Moment& x) { return DateTime::FromDateTime(x.y, x.m, x.d, x.h, x.mi, x.s, x.ms); }
VS_ENTRY(fields) { // shards=8 tshards=24
  zone(); Moment x = moment(14, 12); DateTime t = make(x); A(t.year == x.y, "year"); A(t.month == x.m, "month"); A(t.day == x.d, "day"); A(t.hour == x.h, "hour"); A(t.minute == x.mi, "minute"); A(t.second == x.s, "second"); A(t.milliseconds == x.ms, "millisecond"); weekday(t, days(x.y, x.m, x.d)); vs_reach("fields");
}
VS_ENTRY(serials) { // shards=8 tshards=24
  zone(); Moment x = moment(BOUND(3, 14), BOUND(4, 12)); DateTime t = make(x); DateTime u = DateTime::FromOSInternal(t.osInternal); same(t, u, "back from the serial number"); vs_reach("serials");
}
VS_ENTRY(ordering) { // shards=8 tshards=16
  zone(); Moment x = moment(BOUND(4, 8), BOUND(3, 3)), y = moment(BOUND(4, 8), 2); DateTime a = make(x), b = make(y); int64_t d = x.serial() - y.serial(); A((a < b) == (d < 0), "earlier"); A((a > b) == (d > 0), "later"); A((a == b) == (d == 0), "same moment"); A((a <=> b) == (d <=> (int64_t)0), "order"); A((int64_t)(a.osMilliseconds - b.osMilliseconds) == d, "milliseconds between two moments"); vs_reach("ordering");
}
VS_ENTRY(moving) { // shards=1 tshards=16 weight=9
  zone(); Moment x = moment(BOUND(1, 4), BOUND(1, 12)); DateTime a = make(x); uint64_t by = (uint64_t)vs_range("by", 0, BOUND(33ll, 400ll) * 86400000); bool fwd = vs_choice("forward", 2); DateTime b = fwd ? a.Forward(by) : a.Backward(by); valid(b); A(serial(b) == x.serial() + (fwd ? (int64_t)by : -(int64_t)by), "moved by exactly that much"); weekday(b, days(vs_concretize(b.year), vs_concretize(b.month), b.day)); vs_reach("moving");
}
VS_ENTRY(andBack) { // shards=8 tshards=24
  zone(); Moment x = moment(BOUND(3, 6), BOUND(1, 12)); DateTime a = make(x); uint64_t by = (uint64_t)vs_range("by", 0, BOUND(31ll, 400ll) * 86400000); bool fwd = vs_choice("forward", 2); same(fwd ? a.Forward(by).Backward(by) : a.Backward(by).Forward(by), a, "there and back"); vs_reach("andBack");
}
// far away: the distance is a whole number of days of each listed size and every fraction of a day
VS_ENTRY(far) { // shards=8 tshards=16
  static const int64_t DAYS[] = {1000, 36525, 0, 31, 366, 1461, 10000, 100, 4383, 24855, 49710, 60000, 25569, 146097}; zone(); Moment x{YEARS[vs_choice("year", BOUND(2, 6))], 1 + 11 * (int64_t)vs_choice("month", 2), 28, 13, 46, 40, 987}; DateTime a = make(x); int64_t k = DAYS[vs_choice("days", BOUND(4, 14))]; uint64_t by = (uint64_t)(k * 86400000 + vs_range("rest", 0, 86399999)); bool fwd = vs_choice("forward", 2); DateTime b = fwd ? a.Forward(by) : a.Backward(by); valid(b); A(serial(b) == x.serial() + (fwd ? (int64_t)by : -(int64_t)by), "moved by exactly that much"); same(fwd ? b.Backward(by) : b.Forward(by), a, "there and back"); vs_reach("far");
}
VS_ENTRY(zones) { // shards=1 tshards=16 weight=9
  int64_t z = zone(); Moment x = moment(BOUND(1, 4), BOUND(1, 12)); DateTime a = make(x); DateTime u = a.ToUtcTime(); valid(u); A(serial(u) == x.serial() - z * 1000, "universal time"); DateTime l = u.ToLocalTime(); same(l, a, "back to local time"); vs_reach("zones");
}
VS_ENTRY(current) { // shards=1 tshards=16 weight=9
  static const int64_t at[] = {0, 951782400, 1000000000, 4102444800, 2147483647}; int64_t z = zone(), s = at[vs_choice("at", BOUND(1, 5))] + vs_range("offset", -40000, 40000), ms = vs_range("ms", 0, 999), us = ms * 1000 + vs_range("us", 0, 999); vs_set_now(s, us); DateTime u = DateTime::UtcTime(), l = DateTime::LocalTime(); valid(u); valid(l); A(serial(u) == s * 1000 + ms, "current universal time"); A(serial(l) == (s + z) * 1000 + ms, "current local time"); same(u.ToLocalTime(), l, "the same moment in both"); vs_reach("current");
}
// an implementation injected by the user is used instead, and removed again
struct Impl : public virtual IDateTimeImpl { int calls = 0; DateTime FromDateTime(vint y, vint m, vint d, vint h, vint mi, vint s, vint ms) override { calls++; DateTime t; t.year = y; t.month = m; t.day = d; t.hour = h; t.minute = mi; t.second = s; t.milliseconds = ms; return t; } DateTime FromOSInternal(vuint64_t i) override { calls++; DateTime t; t.osInternal = i; return t; } vuint64_t LocalTime() override { return 5; } vuint64_t UtcTime() override { return 6; } vuint64_t LocalToUtcTime(vuint64_t i) override { return i ^ 1; } vuint64_t UtcToLocalTime(vuint64_t i) override { return i ^ 2; } vuint64_t Forward(vuint64_t i, vuint64_t m) override { return i + 3 * m; } vuint64_t Backward(vuint64_t i, vuint64_t m) override { return i - 3 * m; } };
VS_ENTRY(injected) {
  Impl impl; uint64_t x = vs_u64("x"), m = vs_u64("m"); int64_t v[7]; for (auto& i : v) i = (int64_t)vs_u64("v"); InjectDateTimeImpl(&impl); DateTime t = DateTime::FromDateTime(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); A(t.year == v[0], "given field"); A(t.month == v[1], "given field"); A(t.day == v[2], "given field"); A(t.hour == v[3], "given field"); A(t.minute == v[4], "given field"); A(t.second == v[5], "given field"); A(t.milliseconds == v[6], "given field"); DateTime u = DateTime::FromOSInternal(x); A(u.osInternal == x, "given serial"); A(u.Forward(m).osInternal == x + 3 * m, "forward"); A(u.Backward(m).osInternal == x - 3 * m, "backward"); A(u.ToUtcTime().osInternal == (x ^ 1), "to universal time"); A(u.ToLocalTime().osInternal == (x ^ 2), "to local time"); A(DateTime::LocalTime().osInternal == 5, "local time"); A(DateTime::UtcTime().osInternal == 6, "universal time"); A(impl.calls == 8, "every call reaches it"); InjectDateTimeImpl(nullptr); vs_set_tz(0); DateTime w = DateTime::FromDateTime(2000, 1, 2); A(w.day == 2, "the default is back"); A(w.dayOfWeek == 0, "the default is back"); A(impl.calls == 8, "the removed one is not called"); vs_reach("injected");
}
