/* Simulated time: while switched on, every look at a clock moves it on as the style says, and sleeping takes no time.
 *   1  a microsecond per look     2  a second     3  an hour     4  ten years
 *   5  a microsecond, and a jump of an hour at every seventh look, by which the wall clock goes backwards
 * Where a range of code is given, only calls from there are served so: the interpreter keeps real time.
 * Today no code of the repository looks at a clock; what it computes must not come to depend on one. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int style;
static long looks;
long *sim_clock_looks = &looks;
static int64_t mono = 5000000000ll, wall = 1700000000000000000ll;

static uintptr_t from, to;
void sim_clock_for(uintptr_t a, uintptr_t b) { from = a; to = b; }
static int simulated(void *caller) { return style && (!to || ((uintptr_t)caller >= from && (uintptr_t)caller < to)); }
#define HERE __builtin_return_address(0)

void sim_clock(int s) { style = s; *sim_clock_looks = 0; }

static void advance(int64_t d) { mono += d; wall += d; }
static void look(void) {
  static const int64_t step[] = { 0, 1000, 1000000000ll, 3600000000000ll, 315360000000000000ll, 1000 };
  ++*sim_clock_looks;
  int64_t d = step[style];
  /* ten years at a time do not fit for ever */
  if (mono > 5000000000000000000ll) d = 1000;
  advance(d);
  if (style == 5 && *sim_clock_looks % 7 == 0) { mono += 3600000000000ll; wall -= 3600000000000ll; }
}
static void put(struct timespec *t, int64_t v) { t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll; }
static int get(void *caller, clockid_t c, struct timespec *t) {
  if (!simulated(caller)) return syscall(SYS_clock_gettime, c, t);
  look();
  put(t, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall : mono);
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) { return get(HERE, c, t); }
int gettimeofday(struct timeval *t, void *z) {
  struct timespec s;
  (void)z;
  get(HERE, CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *p) {
  struct timespec s;
  get(HERE, CLOCK_REALTIME, &s);
  if (p) *p = s.tv_sec;
  return s.tv_sec;
}
static int pass(const struct timespec *d) { ++*sim_clock_looks; advance(d->tv_sec * 1000000000ll + d->tv_nsec); return 0; }
int nanosleep(const struct timespec *d, struct timespec *r) {
  if (!simulated(HERE)) return syscall(SYS_nanosleep, d, r);
  return pass(d);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *d, struct timespec *r) {
  if (!simulated(HERE)) return syscall(SYS_clock_nanosleep, c, flags, d, r) ? errno : 0;
  if (flags & TIMER_ABSTIME) {
    int64_t at = d->tv_sec * 1000000000ll + d->tv_nsec;
    int64_t now = c == CLOCK_REALTIME ? wall : mono;
    if (at > now) advance(at - now);
    ++*sim_clock_looks;
    return 0;
  }
  return pass(d);
}
