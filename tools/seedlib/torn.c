// Does half of the TORN_AT-th write to a file below KILL_ROOT and kills the process.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
static int n;
ssize_t write(int fd, const void *b, size_t l) {
  static ssize_t (*r)(int, const void *, size_t);
  if (!r) r = dlsym(RTLD_NEXT, "write");
  char *root = getenv("KILL_ROOT"), *at = getenv("TORN_AT"), p[64], q[4096];
  if (fd > 2 && root && at && l > 1) {
    sprintf(p, "/proc/self/fd/%d", fd);
    int k = readlink(p, q, sizeof q - 1);
    if (k > 0) {
      q[k] = 0;
      if (strncmp(q, root, strlen(root)) == 0 && ++n == atoi(at)) { r(fd, b, l / 2); kill(getpid(), SIGKILL); }
    }
  }
  return r(fd, b, l);
}
