// Replay support for the clock: the time zone goes through TZ to the real C library, the current time is the recorded one.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
static int64_t nowSec = 1000000000, nowUsec = 123456;
extern "C" void vs_set_tz(int64_t off) { char b[64]; int64_t a = off < 0 ? -off : off; snprintf(b, sizeof b, "VST%c%02d:%02d:%02d", off > 0 ? '-' : '+', (int)(a / 3600), (int)(a / 60 % 60), (int)(a % 60)); setenv("TZ", b, 1); tzset(); }
extern "C" void vs_set_now(int64_t s, int64_t us) { nowSec = s; nowUsec = us; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = nowSec; tv->tv_usec = nowUsec; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { t->tv_sec = nowSec; t->tv_nsec = nowUsec * 1000; return 0; }
extern "C" time_t time(time_t* t) noexcept { if (t) *t = nowSec; return nowSec; }
