// C30: timelib under a virtual clock
#include "pbt.hpp"
#include <cerrno>
#include <climits>
#include <ctime>
#include <poll.h>
#include <sys/select.h>
#include <sys/time.h>
#include <unistd.h>
typedef __int128 i128; typedef std::string S;
extern "C" { int msleep(long); int microsleep(long); size_t timestamp(char *, size_t); long mspassed(struct timeval *); void gettimestamp(struct timeval *); long long getutime(void); long long timespec_diff(struct timespec *, struct timespec *);
int __real_nanosleep(const struct timespec *, struct timespec *); int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *); int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *); time_t __real_time(time_t *); int __real_usleep(useconds_t); unsigned __real_sleep(unsigned); int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_poll(struct pollfd *, nfds_t, int); }
static struct { bool on; i128 now; i128 slept; int eintr; long calls; } V; static const i128 G = 1000000000;
// the virtual kernel: sleeps advance the clock; an interruption ends the sleep early and reports the rest
static bool nap(i128 ns, i128 &rest) { if (++V.calls > 100000) { V.on = false; FAIL("the sleep does not end after 100000 calls"); } if (V.eintr > 0) { V.eintr--; i128 part; switch (draw(3)) { case 0: part = 0; break; case 1: part = ns; break; case 2: part = (i128)draw(2000000000); break; default: part = ns / 1000 * (i128)draw(999); } if (part > ns) part = ns; V.now += part; V.slept += part; rest = ns - part; return false; } V.now += ns; V.slept += ns; rest = 0; return true; }
static bool valid(const struct timespec *t) { return t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }
extern "C" int __wrap_nanosleep(const struct timespec *q, struct timespec *m) { if (!V.on) return __real_nanosleep(q, m); if (!valid(q)) { errno = EINVAL; return -1; } i128 r; if (nap((i128)q->tv_sec * G + q->tv_nsec, r)) return 0; if (m) m->tv_sec = (time_t)(r / G), m->tv_nsec = (long)(r % G); errno = EINTR; return -1; }
extern "C" int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *m) { if (!V.on) return __real_clock_nanosleep(c, fl, q, m); if (!valid(q)) return EINVAL; i128 t = (i128)q->tv_sec * G + q->tv_nsec, r; if (fl & TIMER_ABSTIME) { t -= V.now; if (t <= 0) return 0; return nap(t, r) ? 0 : EINTR; } if (nap(t, r)) return 0; if (m) m->tv_sec = (time_t)(r / G), m->tv_nsec = (long)(r % G); return EINTR; }
extern "C" int __wrap_usleep(useconds_t u) { if (!V.on) return __real_usleep(u); i128 r; if (nap((i128)u * 1000, r)) return 0; errno = EINTR; return -1; }
extern "C" unsigned __wrap_sleep(unsigned s) { if (!V.on) return __real_sleep(s); i128 r; return nap((i128)s * G, r) ? 0 : (unsigned)((r + G - 1) / G); }
extern "C" int __wrap_select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *t) { if (!V.on) return __real_select(n, a, b, c, t); i128 r; if (nap(t ? (i128)t->tv_sec * G + (i128)t->tv_usec * 1000 : 0, r)) { if (t) t->tv_sec = t->tv_usec = 0; return 0; } if (t) t->tv_sec = (time_t)(r / G), t->tv_usec = (long)(r % G / 1000); errno = EINTR; return -1; }
extern "C" int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { if (!V.on) return __real_poll(p, n, ms); i128 r; if (nap((i128)ms * 1000000, r)) return 0; errno = EINTR; return -1; }
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; return a % b < 0 ? q - 1 : q; }
extern "C" int __wrap_gettimeofday(struct timeval *t, void *z) { if (!V.on) return __real_gettimeofday(t, z); t->tv_sec = (time_t)fdiv(V.now, G); t->tv_usec = (long)((V.now - fdiv(V.now, G) * G) / 1000); return 0; }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!V.on) return __real_clock_gettime(c, t); t->tv_sec = (time_t)fdiv(V.now, G); t->tv_nsec = (long)(V.now - fdiv(V.now, G) * G); return 0; }
extern "C" time_t __wrap_time(time_t *p) { if (!V.on) return __real_time(p); time_t t = (time_t)fdiv(V.now, G); if (p) *p = t; return t; }
static i128 gsub() { switch (draw(4)) { case 0: return 0; case 1: return G - 1; case 2: return (i128)draw(3) * 1000 + (i128)draw(1); case 3: return G - 1000 + (i128)draw(999); default: return (i128)draw(999999999); } }
static i128 gtime() { i64 s; switch (draw(4)) { case 0: s = (i64)draw(4000000000ull); break; case 1: s = (i64)(1ull << 31) + (i64)draw(4) - 2; break; case 2: s = (i64)(1ull << 32) + (i64)draw(4) - 2; break; case 3: s = 1700000000 + (i64)draw(100000000); break; default: s = (i64)draw(253402300799ull - 86400); } return (i128)s * G + gsub(); }
static S str(i128 x) { S s; bool n = x < 0; if (n) x = -x; do s.insert(s.begin(), (char)('0' + (int)(x % 10))), x /= 10; while (x); if (n) s.insert(s.begin(), '-'); return s; }
static void sleeps() {
  V.now = gtime(); V.slept = 0; V.calls = 0; V.eintr = chance(1, 2) ? 0 : chance(1, 8) ? (int)draw(60) : 1 + (int)draw(4); int e0 = V.eintr; bool us = draw(1); long d; switch (draw(5)) { case 0: d = (long)draw(3); break; case 1: d = (long)draw(5000000); break; case 2: d = (us ? 1000000L : 1000L) * (long)(1 + draw(100000)) + (long)draw(2) - 1; break; case 3: d = (long)(anyu64() >> 1); break; case 4: d = chance(1, 2) ? (long)draw(999) : 2147483647L + (long)draw(4000); break; default: d = -(long)draw(5000000) - 1; }
  i128 unit = us ? 1000 : 1000000, want = (i128)d * unit; note("%s(%ld), %d interruptions", us ? "microsleep" : "msleep", d, e0); V.on = true; int r = us ? microsleep(d) : msleep(d); V.on = false; if (d < 0) { LABEL("negative duration"); CHECK(V.slept == 0, "a negative duration slept"); return; } if (d > 0) nontrivial(); if (e0) LABEL("interrupted");
  CHECK(r == 0, "%s(%ld) returned %d", us ? "microsleep" : "msleep", d, r); CHECK(V.slept == want, "%s(%ld) slept %s ns, expected %s", us ? "microsleep" : "msleep", d, str(V.slept).c_str(), str(want).c_str());
}
static void diffs() {
  V.now = gtime(); V.on = true; long long u = getutime(); struct timeval t; gettimestamp(&t); V.on = false; i128 us = V.now / 1000; CHECK((i128)u == us, "getutime = %lld, expected %s", u, str(us).c_str()); CHECK(t.tv_sec == (time_t)(us / 1000000) && t.tv_usec == (long)(us % 1000000), "gettimestamp = %ld.%06ld", (long)t.tv_sec, (long)t.tv_usec);
  i128 then = chance(1, 2) ? gtime() : V.now - (i128)draw(chance(1, 2) ? 5000000000ull : 100000000000000ull) ; if (chance(1, 8)) then = V.now + (i128)draw(3000000000ull); then = fdiv(then, 1000); struct timeval b = {(time_t)fdiv(then, 1000000), (suseconds_t)(then - fdiv(then, 1000000) * 1000000)}, keep = b; V.on = true; long ms = mspassed(&b); V.on = false; i128 d = us - then, lo = fdiv(d, 1000), tz = d / 1000; note("mspassed: now %s us, since %s us", str(us).c_str(), str(then).c_str()); CHECK((i128)ms == lo || (i128)ms == tz, "mspassed = %ld, expected %s", ms, str(lo).c_str()); CHECK(!memcmp(&b, &keep, sizeof b), "argument modified"); if (d < 0) LABEL("time in the future"); if (us % 1000000 < then % 1000000) LABEL("borrow"); if (d != 0) nontrivial();
  i64 s1 = (i64)(chance(1, 2) ? draw(5) : draw(1ull << 62)), ds = chance(1, 2) ? (i64)draw(5) - 2 : (i64)draw(9223372035ull * 2) - 9223372035ll; struct timespec x = {s1, (long)gsub()}, y = {s1 - ds, (long)gsub()}; if (chance(1, 8)) x.tv_sec = -x.tv_sec, y.tv_sec = x.tv_sec - ds; i128 w = (i128)ds * G + x.tv_nsec - y.tv_nsec; long long g = timespec_diff(&x, &y); note("timespec_diff %ld.%09ld - %ld.%09ld", (long)x.tv_sec, x.tv_nsec, (long)y.tv_sec, y.tv_nsec); CHECK((i128)g == w, "timespec_diff = %lld, expected %s", g, str(w).c_str()); CHECK(timespec_diff(&y, &x) == -g, "timespec_diff is not antisymmetric");
}
static void stamps() {
  static const char *Z[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:30", "AAA+11:59:59", "NZST-12NZDT,M9.5.0,M4.1.0/3", "BBB-14", "CCC3DDD,J60/0,J300/0"}; const char *z = Z[draw(6)]; setenv("TZ", z, 1); tzset(); V.now = gtime(); if (chance(1, 12)) { V.now = (i128)(253402300799ll - 90000 + (i64)draw(chance(1, 2) ? 200000 : 2000000000000ull)) * G + gsub(); LABEL("year 10000"); } else if (chance(1, 4)) { struct tm m = {}; m.tm_year = (int)draw(199); m.tm_mon = (int)draw(11); m.tm_mday = chance(1, 2) ? 1 : 28 + (int)draw(3); m.tm_hour = chance(1, 2) ? 0 : 23; m.tm_min = chance(1, 2) ? 0 : 59; m.tm_sec = chance(1, 2) ? 0 : 59; V.now = (i128)mktime(&m) * G; } time_t t = (time_t)fdiv(V.now, G); struct tm m; localtime_r(&t, &m); char w[64]; snprintf(w, sizeof w, "%04d-%02d-%02d %02d:%02d:%02d", 1900 + m.tm_year, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec);
  size_t bs = chance(2, 3) ? 20 + sizeish(40) : draw(24); Buf b(bs); note("%s in zone %s, buffer %zu", w, z, bs); V.on = true; size_t r = timestamp(b.p, bs); V.on = false; nontrivial(); size_t n = strlen(w); if (bs > n) { CHECK(r == n, "timestamp returned %zu", r); CHECK(!strcmp(b.p, w), "timestamp is %s, expected %s", show(b.p, strnlen(b.p, bs)).c_str(), w); } else { LABEL("buffer too small"); if (bs) { CHECK(b.p[bs - 1] == 0 && !memcmp(b.p, w, bs - 1), "cut timestamp is %s", show(b.p, bs).c_str()); } }
}
Check the_check = {"C30", "sleeps of every magnitude (incl. huge and negative) under a virtual kernel clock with generated interruptions (immediate, partial, complete, many); clock readings around second and 32-bit boundaries, times in the past and future with borrow; timestamps in several zones incl. DST rules and month/day ends, exact-size buffers; non-trivial: positive duration / unequal times / every timestamp",
  {{"sleep", sleeps, 1500000, 20000000, 0}, {"diff", diffs, 1500000, 20000000, 0}, {"stamp", stamps, 250000, 3000000, 0}}};
