// Stops the process (SIGSTOP, after creating a flag file) before it asks for a
// lock (HOLD_LOCK) or before its first rename below HOLD_ROOT (HOLD_RENAME).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <unistd.h>
static void hold(const char *k) {
  static int done;
  char *f = getenv(k);
  if (!f || done) return;
  done = 1;
  fclose(fopen(f, "w"));
  kill(getpid(), SIGSTOP);
}
int flock(int fd, int op) { static int (*r)(int, int); if (!r) r = dlsym(RTLD_NEXT, "flock"); hold("HOLD_LOCK"); return r(fd, op); }
int rename(const char *a, const char *b) { static int (*r)(const char *, const char *); if (!r) r = dlsym(RTLD_NEXT, "rename"); char *t = getenv("HOLD_ROOT"); if (t && !strncmp(b, t, strlen(t))) hold("HOLD_RENAME"); return r(a, b); }
