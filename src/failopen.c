/* LD_PRELOAD shim: the FAILOPEN-th opening for reading of a file under FAILOPEN_DIR fails (0: none); the number of such
   openings is written to FAILOPEN_COUNT at the end, the name of the file that failed to FAILOPEN_COUNT.name */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int count;
static int hit(const char *p) {
  const char *d = getenv("FAILOPEN_DIR"), *k = getenv("FAILOPEN"), *c = getenv("FAILOPEN_COUNT");
  int fd;
  char b[256], w[512];
  if (!d || !p || (strncmp(p, d, strlen(d)) != 0 && !(strchr(p, '/') == NULL && strstr(p, "discreteLevels")))) return 0;
  if (access(p, R_OK) != 0) return 0;
  count++;
  if (c) {
    snprintf(b, sizeof b, "%d\n", count);
    fd = syscall(257 /* openat */, AT_FDCWD, c, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { if (write(fd, b, strlen(b)) < 0) {} close(fd); }
  }
  if (!k || atoi(k) != count) return 0;
  if (c) {
    snprintf(w, sizeof w, "%s.name", c);
    fd = syscall(257, AT_FDCWD, w, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { if (write(fd, p, strlen(p)) < 0) {} close(fd); }
  }
  errno = ENOENT;
  return 1;
}
#define F(name) \
  FILE *name(const char *p, const char *m) { \
    static FILE *(*real)(const char *, const char *); \
    if (!real) real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, #name); \
    if (m && m[0] == 'r' && hit(p)) return NULL; \
    return real(p, m); \
  }
F(fopen)
F(fopen64)
#define O(name) \
  int name(const char *p, int fl, ...) { \
    static int (*real)(const char *, int, ...); \
    mode_t mode = 0; \
    if (fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, mode_t); va_end(a); } \
    if (!real) real = (int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, #name); \
    if ((fl & O_ACCMODE) == O_RDONLY && hit(p)) return -1; \
    return real(p, fl, mode); \
  }
O(open)
O(open64)
