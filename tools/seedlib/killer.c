// Kills the process (SIGKILL) just before its KILL_AT-th modifying file system
// call below KILL_ROOT; with FAIL_AT that call fails with ENOSPC instead; with
// SHORT_AT that write is cut short.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
static int n;
static int under(const char *p) { char *r = getenv("KILL_ROOT"); return r && p && strncmp(p, r, strlen(r)) == 0; }
static int num(const char *k) { char *v = getenv(k); return v ? atoi(v) : -1; }
static int op(void) {
  n++;
  char *c = getenv("KILL_COUNT");
  if (c) { static int (*o)(const char *, int, ...); if (!o) o = dlsym(RTLD_NEXT, "open64"); int f = o(c, O_WRONLY | O_CREAT | O_TRUNC, 0666); char b[20]; int l = sprintf(b, "%d", n); if (f >= 0) { static ssize_t (*w)(int, const void *, size_t); if (!w) w = dlsym(RTLD_NEXT, "write"); w(f, b, l); close(f); } }
  if (n == num("KILL_AT")) kill(getpid(), SIGKILL);
  if (n == num("FAIL_AT")) { errno = ENOSPC; return -1; }
  return 0;
}
static int fdunder(int fd) { char l[64], b[4096]; sprintf(l, "/proc/self/fd/%d", fd); int k = readlink(l, b, sizeof b - 1); if (k <= 0) return 0; b[k] = 0; return under(b); }
#define OPEN(NAME) int NAME(const char *p, int fl, ...) { static int (*r)(const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, #NAME); mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if ((fl & (O_CREAT | O_TRUNC)) && under(p) && op()) return -1; return r(p, fl, m); }
OPEN(open) OPEN(open64)
ssize_t write(int fd, const void *b, size_t l) { static ssize_t (*r)(int, const void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "write"); if (fd > 2 && fdunder(fd)) { if (op()) return -1; if (n == num("SHORT_AT") && l > 1) l /= 2; } return r(fd, b, l); }
int rename(const char *a, const char *b) { static int (*r)(const char *, const char *); if (!r) r = dlsym(RTLD_NEXT, "rename"); if (under(b) && op()) return -1; return r(a, b); }
int unlink(const char *a) { static int (*r)(const char *); if (!r) r = dlsym(RTLD_NEXT, "unlink"); if (under(a) && op()) return -1; return r(a); }
int rmdir(const char *a) { static int (*r)(const char *); if (!r) r = dlsym(RTLD_NEXT, "rmdir"); if (under(a) && op()) return -1; return r(a); }
int symlink(const char *a, const char *b) { static int (*r)(const char *, const char *); if (!r) r = dlsym(RTLD_NEXT, "symlink"); if (under(b) && op()) return -1; return r(a, b); }
int mkdir(const char *a, mode_t m) { static int (*r)(const char *, mode_t); if (!r) r = dlsym(RTLD_NEXT, "mkdir"); if (under(a) && op()) return -1; return r(a, m); }
int unlinkat(int d, const char *a, int f) { static int (*r)(int, const char *, int); if (!r) r = dlsym(RTLD_NEXT, "unlinkat"); if ((a[0] == '/' ? under(a) : fdunder(d)) && op()) return -1; return r(d, a, f); }
int utimensat(int d, const char *p, const struct timespec *t, int f) { static int (*r)(int, const char *, const struct timespec *, int); if (!r) r = dlsym(RTLD_NEXT, "utimensat"); if (p && under(p) && op()) return -1; return r(d, p, t, f); }
