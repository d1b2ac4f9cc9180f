/* Preloaded into the command-line tool: every read of standard input, write to standard output and allocation
 * goes through the plan in SIM_PLAN, so the simulated operating system decides how they end.
 *
 * SIM_PLAN is a list of words:
 *   r<n>      the next read delivers at most n bytes            rE<errno>  the next read fails
 *   r0        the next read says end of input (and so do all later ones)
 *   w<n>      the next write accepts at most n bytes            wE<errno>  the next write fails
 *   W<n>      from now on the disk holds n more bytes of standard output, then ENOSPC
 *   m<k>      the k-th allocation of the process fails          M<b>  every allocation of b bytes or more fails
 *   g<seed>   randomness of the process                      t<style>   what its clocks show (clock.c)
 * Reads and writes beyond the plan are passed on as they are.  The counts of what happened are kept
 * in the file open as fd SIM_REPORT, however the process may end.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { MAXOPS = 4096 };
struct op { int err; long n; };
static struct op rops[MAXOPS], wops[MAXOPS];
static int nr, nw, ir, iw, ready, at_eof;
static long disk = -1, mfail = -1, mbig = -1;
static uint64_t rng = 88172645463325252ull;
enum { LOADED, READS, WRITES, RFAULT, WFAULT, RSHORT, WSHORT, MFAULT, MCOUNT, BYTES, LOOKS, COUNTERS };
static long unseen[COUNTERS], *counter = unseen;
static long count(int k, long n) { return __atomic_add_fetch(&counter[k], n, __ATOMIC_SEQ_CST); }
extern void sim_clock(int);
extern long *sim_clock_looks;

static void parse(void) {
  ready = 1;
  const char *p = getenv("SIM_PLAN");
  const char *q = getenv("SIM_REPORT");
  if (q && !ftruncate(atoi(q), sizeof unseen)) {
    void *m = mmap(0, sizeof unseen, PROT_READ | PROT_WRITE, MAP_SHARED, atoi(q), 0);
    if (m != MAP_FAILED) counter = m;
  }
  count(LOADED, 1);
  sim_clock_looks = &counter[LOOKS];
  while (p && *p) {
    while (*p == ' ') p++;
    char k = *p;
    if (!k) break;
    p++;
    int e = 0;
    if (*p == 'E') { e = 1; p++; }
    char *end;
    long v = strtol(p, &end, 10);
    p = end;
    struct op o = { e ? (int)v : 0, v };
    if (k == 'r' && nr < MAXOPS) rops[nr++] = o;
    else if (k == 'w' && nw < MAXOPS) wops[nw++] = o;
    else if (k == 'W') disk = v;
    else if (k == 'm') mfail = v;
    else if (k == 'M') mbig = v;
    else if (k == 'g') rng ^= (uint64_t)v * 0x9E3779B97F4A7C15ull;
    else if (k == 't' && v > 0 && v < 6) sim_clock((int)v);
    while (*p && *p != ' ') p++;
  }
}
__attribute__((constructor)) static void start(void) { parse(); }

ssize_t read(int fd, void *buf, size_t n) {
  if (fd != 0 || !ready) return syscall(SYS_read, fd, buf, n);
  count(READS, 1);
  if (at_eof) return 0;
  if (ir < nr) {
    struct op o = rops[ir++];
    if (o.err) { count(RFAULT, 1); errno = o.err; return -1; }
    if (o.n == 0) { at_eof = 1; count(RFAULT, 1); return 0; }
    if ((size_t)o.n < n) { n = o.n; count(RSHORT, 1); }
  }
  long got = syscall(SYS_read, fd, buf, n);
  if (got > 0) count(BYTES, got);
  return got;
}
ssize_t readv(int fd, const struct iovec *v, int k) {
  if (fd != 0 || !ready) return syscall(SYS_readv, fd, v, k);
  for (int i = 0; i < k; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return read(fd, 0, 0);
}
static ssize_t out(const void *buf, size_t n) {
  count(WRITES, 1);
  if (iw < nw) {
    struct op o = wops[iw++];
    if (o.err) { count(WFAULT, 1); errno = o.err; return -1; }
    if ((size_t)o.n < n) { n = o.n; count(WSHORT, 1); }
  }
  if (disk >= 0) {
    if (disk == 0 && n) { count(WFAULT, 1); errno = ENOSPC; return -1; }
    if ((long)n > disk) { n = disk; count(WSHORT, 1); }
    disk -= n;
  }
  return syscall(SYS_write, 1, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (fd != 1 || !ready) return syscall(SYS_write, fd, buf, n);
  return out(buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (fd != 1 || !ready) return syscall(SYS_writev, fd, v, k);
  /* gather: a vectored write is one write */
  static char tmp[1 << 20];
  size_t t = 0;
  for (int i = 0; i < k; i++) {
    size_t m = v[i].iov_len;
    if (m > sizeof tmp - t) m = sizeof tmp - t;
    memcpy(tmp + t, v[i].iov_base, m);
    t += m;
  }
  return out(tmp, t);
}
ssize_t getrandom(void *buf, size_t n, unsigned f) {
  (void)f;
  unsigned char *b = buf;
  for (size_t i = 0; i < n; i++) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    b[i] = rng >> 24;
  }
  return n;
}

/* allocations */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int refuse(size_t n) {
  if (!ready) return 0;
  long k = count(MCOUNT, 1);
  if ((mfail > 0 && k == mfail) || (mbig > 0 && n >= (size_t)mbig)) {
    count(MFAULT, 1);
    errno = ENOMEM;
    return 1;
  }
  return 0;
}
void *malloc(size_t n) { return refuse(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse(b && a > SIZE_MAX / b ? SIZE_MAX : a * b) ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return n && refuse(n) ? 0 : __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) {
  if (refuse(n)) return ENOMEM;
  void *q = __libc_memalign(a, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
