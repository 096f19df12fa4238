// Preloaded into a command under test: reports every access to a file before it happens and waits for leave.
//   Descriptor MC_GATE gets one line "<what> <path>" per access; one byte is then read from descriptor MC_GATE + 1.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static int req = -1;
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static char names[1024][256];

__attribute__((constructor)) static void init(void) {
  const char *f = getenv("MC_GATE");
  if (f) req = atoi(f);
}
static int system_path(const char *p) {
  static const char *const skip[] = {"/proc", "/sys", "/dev", "/etc", "/lib", "/usr", "/bin", "/opt", 0};
  for (int i = 0; skip[i]; i++)
    if (!strncmp(p, skip[i], strlen(skip[i]))) return 1;
  return 0;
}
static void gate(const char *what, const char *p) {
  if (req < 0 || !p || !*p || system_path(p)) return;
  ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  ssize_t (*r)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
  char b[600], c;
  int n = snprintf(b, sizeof b, "%s %.500s\n", what, p);
  pthread_mutex_lock(&mutex);
  // Without a controller there is no point in going on.
  if (w(req, b, n) != n || r(req + 1, &c, 1) != 1) _exit(98);
  pthread_mutex_unlock(&mutex);
}
static void gate_fd(const char *what, int fd) {
  if (fd >= 0 && fd < 1024 && names[fd][0]) gate(what, names[fd]);
}
static int opened(const char *p, int fd) {
  if (fd >= 0 && fd < 1024) {
    names[fd][0] = 0;
    if (req >= 0 && !system_path(p)) snprintf(names[fd], sizeof names[fd], "%s", p);
  }
  return fd;
}
int open(const char *p, int fl, ...) {
  int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  va_list a;
  va_start(a, fl);
  int m = va_arg(a, int);
  va_end(a);
  gate((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? "create" : "open", p);
  return opened(p, real(p, fl, m));
}
int open64(const char *p, int fl, ...) {
  int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
  va_list a;
  va_start(a, fl);
  int m = va_arg(a, int);
  va_end(a);
  gate((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? "create" : "open", p);
  return opened(p, real(p, fl, m));
}
int openat(int d, const char *p, int fl, ...) {
  int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat");
  va_list a;
  va_start(a, fl);
  int m = va_arg(a, int);
  va_end(a);
  gate((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? "create" : "open", p);
  return opened(p, real(d, p, fl, m));
}
int openat64(int d, const char *p, int fl, ...) {
  int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat64");
  va_list a;
  va_start(a, fl);
  int m = va_arg(a, int);
  va_end(a);
  gate((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? "create" : "open", p);
  return opened(p, real(d, p, fl, m));
}
int close(int fd) {
  int (*real)(int fd) = dlsym(RTLD_NEXT, "close");
  if (fd >= 0 && fd < 1024) names[fd][0] = 0;
  return real(fd);
}
ssize_t read(int fd, void *b, size_t n) {
  ssize_t (*real)(int fd, void *b, size_t n) = dlsym(RTLD_NEXT, "read");
  gate_fd("read", fd);
  return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  ssize_t (*real)(int fd, void *b, size_t n, off64_t o) = dlsym(RTLD_NEXT, "pread64");
  gate_fd("read", fd);
  return real(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
  ssize_t (*real)(int fd, const void *b, size_t n) = dlsym(RTLD_NEXT, "write");
  gate_fd("write", fd);
  return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  ssize_t (*real)(int fd, const void *b, size_t n, off64_t o) = dlsym(RTLD_NEXT, "pwrite64");
  gate_fd("write", fd);
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  ssize_t (*real)(int fd, const struct iovec *v, int n) = dlsym(RTLD_NEXT, "writev");
  gate_fd("write", fd);
  return real(fd, v, n);
}
int ftruncate64(int fd, off64_t n) {
  int (*real)(int fd, off64_t n) = dlsym(RTLD_NEXT, "ftruncate64");
  gate_fd("truncate", fd);
  return real(fd, n);
}
int fsync(int fd) {
  int (*real)(int fd) = dlsym(RTLD_NEXT, "fsync");
  gate_fd("sync", fd);
  return real(fd);
}
int rename(const char *p, const char *q) {
  int (*real)(const char *p, const char *q) = dlsym(RTLD_NEXT, "rename");
  gate("rename", p);
  gate("rename-to", q);
  return real(p, q);
}
int renameat(int d, const char *p, int e, const char *q) {
  int (*real)(int d, const char *p, int e, const char *q) = dlsym(RTLD_NEXT, "renameat");
  gate("rename", p);
  gate("rename-to", q);
  return real(d, p, e, q);
}
int link(const char *p, const char *q) {
  int (*real)(const char *p, const char *q) = dlsym(RTLD_NEXT, "link");
  gate("link-to", q);
  return real(p, q);
}
int linkat(int d, const char *p, int e, const char *q, int f) {
  int (*real)(int d, const char *p, int e, const char *q, int f) = dlsym(RTLD_NEXT, "linkat");
  gate("link-to", q);
  return real(d, p, e, q, f);
}
int symlink(const char *p, const char *q) {
  int (*real)(const char *p, const char *q) = dlsym(RTLD_NEXT, "symlink");
  gate("symlink", q);
  return real(p, q);
}
int unlink(const char *p) {
  int (*real)(const char *p) = dlsym(RTLD_NEXT, "unlink");
  gate("unlink", p);
  return real(p);
}
int unlinkat(int d, const char *p, int f) {
  int (*real)(int d, const char *p, int f) = dlsym(RTLD_NEXT, "unlinkat");
  gate("unlink", p);
  return real(d, p, f);
}
int rmdir(const char *p) {
  int (*real)(const char *p) = dlsym(RTLD_NEXT, "rmdir");
  gate("rmdir", p);
  return real(p);
}
int mkdir(const char *p, mode_t m) {
  int (*real)(const char *p, mode_t m) = dlsym(RTLD_NEXT, "mkdir");
  gate("mkdir", p);
  return real(p, m);
}
int chmod(const char *p, mode_t m) {
  int (*real)(const char *p, mode_t m) = dlsym(RTLD_NEXT, "chmod");
  gate("chmod", p);
  return real(p, m);
}
int access(const char *p, int m) {
  int (*real)(const char *p, int m) = dlsym(RTLD_NEXT, "access");
  gate("look", p);
  return real(p, m);
}
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict x) {
  int (*real)(int, const char *, int, unsigned, struct statx *) = dlsym(RTLD_NEXT, "statx");
  gate("look", p);
  return real(d, p, f, m, x);
}
