/* Fault injector: interposes on the libc calls that change files below one directory. Inactive until armed.
   Every such call is numbered; at the chosen number the process dies before the call (KILL), dies half way
   through a write (TORN), gets one error (FAIL), or gets an error from then on for everything that needs
   space (FULL). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, COUNT = 1, KILL = 2, TORN = 3, FAIL = 4, FULL = 5 };
static int mode = OFF;
static long target = -1;
static long counter = 0;
static char root[PATH_MAX];
static unsigned char tracked[65536];
static char oplog[1 << 16];
static size_t oplen = 0;

void shim_arm(int m, long t, const char *r) { mode = m; target = t; counter = 0; oplen = 0; oplog[0] = 0; strncpy(root, r, sizeof root - 1); memset(tracked, 0, sizeof tracked); }
void shim_disarm(void) { mode = OFF; }
long shim_count(void) { return counter; }
const char *shim_log(void) { return oplog; }

static int under(int dirfd, const char *path)
{
  if (mode == OFF || !path) return 0;
  char full[PATH_MAX * 2];
  if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
  else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else { char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(link, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
    snprintf(full, sizeof full, "%s/%s", base, path);
  }
  return strncmp(full, root, strlen(root)) == 0;
}

/* 0: go on; 1: fail with errno set; 2: torn */
static int point(const char *op, int space)
{
  long n = counter++;
  size_t l = strlen(op);
  if (oplen + l + 2 < sizeof oplog) { memcpy(oplog + oplen, op, l); oplen += l; oplog[oplen++] = ' '; oplog[oplen] = 0; }
  switch (mode) {
    case KILL: if (n == target) _exit(77); return 0;
    case TORN: if (n == target) return 2; return 0;
    case FAIL: if (n == target) { errno = EIO; return 1; } return 0;
    case FULL: if (n >= target && space) { errno = ENOSPC; return 1; } return 0;
  }
  return 0;
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
#define NEEDMODE(flags) ((flags) & (O_CREAT | O_TMPFILE))

static int opened(int fd) { if (fd >= 0 && fd < 65536) tracked[fd] = 1; return fd; }

#define OPEN(name) \
int name(const char *path, int flags, ...) { \
  REAL(name); mode_t m = 0; if (NEEDMODE(flags)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  if ((flags & O_ACCMODE) != O_RDONLY && under(AT_FDCWD, path)) { int p = point("open", 1); if (p == 1) return -1; if (p == 2) _exit(77); return opened(real(path, flags, m)); } \
  int fd = real(path, flags, m); if (fd >= 0 && fd < 65536) tracked[fd] = 0; return fd; }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) { \
  REAL(name); mode_t m = 0; if (NEEDMODE(flags)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  if ((flags & O_ACCMODE) != O_RDONLY && under(d, path)) { int p = point("open", 1); if (p == 1) return -1; if (p == 2) _exit(77); return opened(real(d, path, flags, m)); } \
  int fd = real(d, path, flags, m); if (fd >= 0 && fd < 65536) tracked[fd] = 0; return fd; }
OPENAT(openat)
OPENAT(openat64)

#define IS(fd) (mode != OFF && (fd) >= 0 && (fd) < 65536 && tracked[fd])

ssize_t write(int fd, const void *b, size_t n)
{ REAL(write); if (IS(fd)) { int p = point("write", 1); if (p == 1) return -1; if (p == 2) { real(fd, b, n / 2); _exit(77); } } return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ REAL(pwrite); if (IS(fd)) { int p = point("write", 1); if (p == 1) return -1; if (p == 2) { real(fd, b, n / 2, o); _exit(77); } } return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ REAL(pwrite64); if (IS(fd)) { int p = point("write", 1); if (p == 1) return -1; if (p == 2) { real(fd, b, n / 2, o); _exit(77); } } return real(fd, b, n, o); }
int ftruncate(int fd, off_t o)
{ REAL(ftruncate); if (IS(fd)) { int p = point("truncate", 1); if (p == 1) return -1; if (p == 2) _exit(77); } return real(fd, o); }
int ftruncate64(int fd, off64_t o)
{ REAL(ftruncate64); if (IS(fd)) { int p = point("truncate", 1); if (p == 1) return -1; if (p == 2) _exit(77); } return real(fd, o); }
int close(int fd)
{ REAL(close); if (IS(fd)) { int p = point("close", 0); tracked[fd] = 0; if (p == 2) _exit(77); int r = real(fd); if (p == 1) { errno = EIO; return -1; } return r; } return real(fd); }
int rename(const char *a, const char *b)
{ REAL(rename); if (under(AT_FDCWD, a) || under(AT_FDCWD, b)) { int p = point("rename", 0); if (p == 1) return -1; if (p == 2) _exit(77); } return real(a, b); }
int unlink(const char *a)
{ REAL(unlink); if (under(AT_FDCWD, a)) { int p = point("unlink", 0); if (p == 1) return -1; if (p == 2) _exit(77); } return real(a); }
int unlinkat(int d, const char *a, int f)
{ REAL(unlinkat); if (under(d, a)) { int p = point("unlink", 0); if (p == 1) return -1; if (p == 2) _exit(77); } return real(d, a, f); }
int mkdir(const char *a, mode_t m)
{ REAL(mkdir); if (under(AT_FDCWD, a)) { int p = point("mkdir", 1); if (p == 1) return -1; if (p == 2) _exit(77); } return real(a, m); }
