/* Fault injection at the C library boundary (preloaded into a worker): files below `prefix` behave like storage that
   runs full, tears or interrupts calls, has an unreadable sector, or reports a lost write only when closed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile int on;
static char prefix[4096];
static size_t plen;
static long wfree, wchunk, wonce, weintr, closeerr, rbad, rchunk, reintr;
static long refused, calls, tick;

void gsmc_set(const char *p, long wf, long wc, long once, long wi, long ce, long rb, long rc, long ri) {
  strncpy(prefix, p, sizeof prefix - 1);
  plen = strlen(prefix);
  wfree = wf; wchunk = wc; wonce = once; weintr = wi; closeerr = ce; rbad = rb; rchunk = rc; reintr = ri;
  refused = calls = tick = 0;
  on = 1;
}
void gsmc_off(void) { on = 0; }
long gsmc_refused(void) { return refused; }
long gsmc_calls(void) { return calls; }

static int scope(int fd) {
  char a[64], b[4096];
  if (!on || fd < 0) return 0;
  snprintf(a, sizeof a, "/proc/self/fd/%d", fd);
  int e = errno;
  long n = syscall(SYS_readlink, a, b, sizeof b);
  errno = e;
  return n >= (long)plen && memcmp(b, prefix, plen) == 0 && (n == (long)plen || b[plen] == '/');
}

/* How many of n bytes are accepted; -1: fail now. */
static long wgrant(long n) {
  calls++;
  if (weintr && (++tick & 1)) { errno = EINTR; return -1; }
  if (wchunk > 0 && n > wchunk) n = wchunk;
  if (wfree >= 0 && n > wfree) {
    refused++;
    if (wfree == 0) {
      if (wonce) wfree = -1;
      errno = ENOSPC;
      return -1;
    }
    n = wfree;
  }
  return n;
}
static long wdone(long r) {
  if (r > 0 && wfree >= 0) wfree -= r;
  return r;
}
static long rgrant(long off, long n) {
  calls++;
  if (reintr && (++tick & 1)) { errno = EINTR; return -1; }
  if (rchunk > 0 && n > rchunk) n = rchunk;
  if (rbad >= 0 && off >= 0 && off + n > rbad) {
    refused++;
    if (off >= rbad) { errno = EIO; return -1; }
    n = rbad - off;
  }
  return n;
}

ssize_t write(int fd, const void *b, size_t n) {
  if (!scope(fd) || n == 0) return syscall(SYS_write, fd, b, n);
  long g = wgrant(n);
  return g < 0 ? -1 : wdone(syscall(SYS_write, fd, b, g));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (!scope(fd) || n == 0) return syscall(SYS_pwrite64, fd, b, n, o);
  long g = wgrant(n);
  return g < 0 ? -1 : wdone(syscall(SYS_pwrite64, fd, b, g, o));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static ssize_t vec(int fd, const struct iovec *v, int c, off64_t o, int wr) {
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = wr ? o < 0 ? write(fd, v[i].iov_base, v[i].iov_len) : pwrite64(fd, v[i].iov_base, v[i].iov_len, o + t)
                   : o < 0 ? read(fd, v[i].iov_base, v[i].iov_len) : pread64(fd, v[i].iov_base, v[i].iov_len, o + t);
    if (r < 0) return t ? t : -1;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec *v, int c) { return scope(fd) ? vec(fd, v, c, -1, 1) : syscall(SYS_writev, fd, v, c); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { return vec(fd, v, c, o, 1); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return vec(fd, v, c, o, 1); }
ssize_t pwritev64v2(int fd, const struct iovec *v, int c, off64_t o, int f) { (void)f; return vec(fd, v, c, o, 1); }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  if (!scope(out)) return syscall(SYS_sendfile, out, in, o, n);
  long g = wgrant(n);
  return g < 0 ? -1 : wdone(syscall(SYS_sendfile, out, in, o, g));
}
ssize_t copy_file_range(int in, off64_t *a, int out, off64_t *b, size_t n, unsigned f) {
  if (!scope(out)) return syscall(SYS_copy_file_range, in, a, out, b, n, f);
  long g = wgrant(n);
  return g < 0 ? -1 : wdone(syscall(SYS_copy_file_range, in, a, out, b, g, f));
}
int posix_fallocate64(int fd, off64_t o, off64_t n) {
  if (scope(fd)) {
    if (wfree >= 0 && o + n > wfree) { refused++; return ENOSPC; }
    wfree = -1;
  }
  return syscall(SYS_fallocate, fd, 0, o, n) ? errno : 0;
}
int posix_fallocate(int fd, off_t o, off_t n) { return posix_fallocate64(fd, o, n); }
int close(int fd) {
  int bad = 0;
  if (on && closeerr && scope(fd)) bad = (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY;
  int r = syscall(SYS_close, fd);
  if (bad && r == 0) { refused++; errno = closeerr; return -1; }
  return r;
}
int fsync(int fd) {
  if (on && closeerr && scope(fd)) { refused++; errno = closeerr; return -1; }
  return syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
  if (on && closeerr && scope(fd)) { refused++; errno = closeerr; return -1; }
  return syscall(SYS_fdatasync, fd);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!scope(fd) || n == 0) return syscall(SYS_read, fd, b, n);
  long g = rgrant(syscall(SYS_lseek, fd, 0, SEEK_CUR), n);
  return g < 0 ? -1 : syscall(SYS_read, fd, b, g);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (!scope(fd) || n == 0) return syscall(SYS_pread64, fd, b, n, o);
  long g = rgrant(o, n);
  return g < 0 ? -1 : syscall(SYS_pread64, fd, b, g, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) { return scope(fd) ? vec(fd, v, c, -1, 0) : syscall(SYS_readv, fd, v, c); }

/* Streams: their own calls to the kernel are not visible here, so a fault is applied to the whole request. */
size_t fread(void *b, size_t s, size_t n, FILE *f) {
  static size_t (*real)(void *, size_t, size_t, FILE *);
  if (!real) real = dlsym(RTLD_NEXT, "fread");
  if (!on || !s || !n || rbad < 0 || !scope(fileno(f))) return real(b, s, n, f);
  calls++;
  long o = ftello64(f);
  if (o >= 0 && o + (long)(s * n) > rbad) {
    refused++;
    n = o >= rbad ? 0 : (rbad - o) / s;
    n = n ? real(b, s, n, f) : 0;
    errno = EIO;
    return n;
  }
  return real(b, s, n, f);
}
static FILE *late;
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  static size_t (*real)(const void *, size_t, size_t, FILE *);
  if (!real) real = dlsym(RTLD_NEXT, "fwrite");
  if (!on || !s || !n || wfree < 0 || !scope(fileno(f))) return real(b, s, n, f);
  calls++;
  long t = s * n;
  if (t <= wfree) { wfree -= t; return real(b, s, n, f); }
  refused++;
  real(b, 1, wfree, f);
  size_t done = wfree / s;
  int small = t - wfree < 4096;
  wfree = wonce ? -1 : 0;
  if (small) { late = f; return n; }      /* still buffered: the failure shows when the stream is flushed */
  errno = ENOSPC;
  return done;
}
int fflush(FILE *f) {
  static int (*real)(FILE *);
  if (!real) real = dlsym(RTLD_NEXT, "fflush");
  int r = real(f);
  if (on && f && f == late) { late = 0; errno = ENOSPC; return EOF; }
  return r;
}
int fclose(FILE *f) {
  static int (*real)(FILE *);
  if (!real) real = dlsym(RTLD_NEXT, "fclose");
  int bad = on && f == late, ce = 0;
  if (on && closeerr && scope(fileno(f))) ce = (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY;
  if (f == late) late = 0;
  int r = real(f);
  if (bad || ce) { refused += ce; errno = bad ? ENOSPC : closeerr; return EOF; }
  return r;
}
