// Preloaded into a command under test: makes the k-th call of one kind fail.
//   MC_FAULT=<kind>:<k>:<errno or s (short write of one byte)>   kind: w (write), r (read), o (open)
//   MC_DIR=<directory whose files count>; descriptor 1 counts as well for writes.
//   MC_COUNT=<file that gets the number of calls of each kind at exit>
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static char kind, shortw;
static long at = -1, err;
static const char *dir;
static long n_w, n_r, n_o;
static char tracked[1024];

__attribute__((constructor)) static void init(void) {
  const char *f = getenv("MC_FAULT");
  dir = getenv("MC_DIR");
  if (f && f[0] && f[1] == ':') {
    char *e;
    kind = f[0];
    at = strtol(f + 2, &e, 10);
    if (*e == ':') {
      if (e[1] == 's') shortw = 1;
      else err = strtol(e + 1, 0, 10);
    }
  }
}
__attribute__((destructor)) static void fini(void) {
  const char *c = getenv("MC_COUNT");
  if (!c) return;
  char b[100];
  int n = snprintf(b, sizeof b, "%ld %ld %ld\n", n_w, n_r, n_o);
  int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  int fd = o(c, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0 && w(fd, b, n) != n) _exit(99);
}
static int mine(const char *p) { return dir && p && (p[0] != '/' || strncmp(p, dir, strlen(dir)) == 0); }
static int hit(char k, long *n) { return __atomic_fetch_add(n, 1, __ATOMIC_SEQ_CST) == at && kind == k; }
static int is_tracked(int fd) { return fd >= 0 && fd < 1024 && tracked[fd]; }

ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if ((fd == 1 || is_tracked(fd)) && hit('w', &n_w)) {
    if (shortw) return real(fd, b, n > 1 ? 1 : n);
    errno = err;
    return -1;
  }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static ssize_t (*real)(int, const struct iovec *, int);
  if (!real) real = dlsym(RTLD_NEXT, "writev");
  if ((fd == 1 || is_tracked(fd)) && hit('w', &n_w)) {
    if (shortw && c > 0) return write(fd, v[0].iov_base, v[0].iov_len > 1 ? 1 : v[0].iov_len);
    errno = err;
    return -1;
  }
  return real(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*real)(int, void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "read");
  if (is_tracked(fd) && hit('r', &n_r)) {
    if (shortw) return real(fd, b, n > 1 ? 1 : n);
    errno = err;
    return -1;
  }
  return real(fd, b, n);
}
static int opened(const char *p, int fd) {
  if (fd >= 0 && fd < 1024) tracked[fd] = mine(p);
  return fd;
}
#define OPEN(name)                                            \
  int name(const char *p, int fl, ...) {                      \
    static int (*real)(const char *, int, ...);               \
    if (!real) real = dlsym(RTLD_NEXT, #name);                \
    va_list a;                                                \
    va_start(a, fl);                                          \
    int m = va_arg(a, int);                                   \
    va_end(a);                                                \
    if (mine(p) && hit('o', &n_o)) {                          \
      errno = err ? err : EIO;                                \
      return -1;                                              \
    }                                                         \
    return opened(p, real(p, fl, m));                         \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                          \
  int name(int d, const char *p, int fl, ...) {               \
    static int (*real)(int, const char *, int, ...);          \
    if (!real) real = dlsym(RTLD_NEXT, #name);                \
    va_list a;                                                \
    va_start(a, fl);                                          \
    int m = va_arg(a, int);                                   \
    va_end(a);                                                \
    if (mine(p) && hit('o', &n_o)) {                          \
      errno = err ? err : EIO;                                \
      return -1;                                              \
    }                                                         \
    return opened(p, real(d, p, fl, m));                      \
  }
OPENAT(openat)
OPENAT(openat64)
