// Renaming across the border of the directory FAR fails as between file systems.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
static int in(const char *p) { char *f = getenv("FAR"); return f && strncmp(p, f, strlen(f)) == 0; }
int rename(const char *a, const char *b) {
  static int (*r)(const char *, const char *);
  if (!r) r = dlsym(RTLD_NEXT, "rename");
  if (in(a) != in(b)) { errno = EXDEV; return -1; }
  return r(a, b);
}
