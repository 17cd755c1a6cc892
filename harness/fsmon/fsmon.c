// Preloaded into a build script: records every call that changes the file
// system, and can make the n-th of them fail, be the last one, or be late.
//   FSMON_LOG=file      one line per call:  <number> <op> <resolved path>\n
//   FSMON_AT=n          the n-th call (from 1) ...
//   FSMON_MODE=kill     the process dies before it
//              torn     half of a write is done, then the process dies
//              after    the process dies after it
//              <number> it fails with this errno (only it; removals do not fail)
//              all:<number>  it and all later ones fail
//   FSMON_DELAY=seed:maxus  a pseudo-random delay before every call
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static int logfd = -1, at = 0, mode = 0, err = 0, all = 0, count = 0, busy = 0;
static unsigned long rng = 0; static unsigned maxus = 0;
enum { NONE, KILL, TORN, AFTER, FAIL };

__attribute__((constructor)) static void init(void) {
  char *p;
  if ((p = getenv("FSMON_LOG"))) logfd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
  if ((p = getenv("FSMON_AT"))) at = atoi(p);
  if ((p = getenv("FSMON_MODE"))) {
    if (!strcmp(p, "kill")) mode = KILL;
    else if (!strcmp(p, "torn")) mode = TORN;
    else if (!strcmp(p, "after")) mode = AFTER;
    else if (!strncmp(p, "all:", 4)) mode = FAIL, all = 1, err = atoi(p + 4);
    else mode = FAIL, err = atoi(p);
  }
  if ((p = getenv("FSMON_DELAY"))) { rng = strtoul(p, &p, 10) * 2654435761u + 12345; if (*p == ':') maxus = atoi(p + 1); }
  unsetenv("LD_PRELOAD");
}
static void raw(const char *s) { if (logfd >= 0) { ssize_t r = syscall(SYS_write, logfd, s, strlen(s)); (void)r; } }
// the directory resolved, the last component as it is
static void resolve(int dirfd, const char *path, char *out) {
  char tmp[PATH_MAX * 2], dir[PATH_MAX * 2]; int e = errno;
  if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
  else {
    char base[PATH_MAX]; ssize_t n = -1;
    if (dirfd == AT_FDCWD) { if (getcwd(base, sizeof base)) n = strlen(base); }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); n = readlink(l, base, sizeof base - 1); }
    if (n < 0) n = 0;
    base[n] = 0;
    snprintf(tmp, sizeof tmp, "%s/%s", base, path);
  }
  size_t n = strlen(tmp);
  while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
  char *last = strrchr(tmp, '/');
  snprintf(dir, sizeof dir, "%.*s", (int)(last == tmp ? 1 : last - tmp), tmp);
  // the part of the directory that exists is resolved, the rest is not there yet
  char *r = NULL; size_t m = strlen(dir), k = m;
  while (!(r = realpath(dir, NULL)) && k > 1) { while (k > 1 && dir[k - 1] != '/') k--; while (k > 1 && dir[k - 1] == '/') k--; dir[k] = 0; }
  size_t from = k; char whole[PATH_MAX * 2];
  snprintf(whole, sizeof whole, "%.*s", (int)(last == tmp ? 1 : last - tmp), tmp);
  snprintf(out, PATH_MAX * 2, "%s%s/%s", r ? r : "", from < m ? whole + from : "", last + 1);
  free(r); errno = e;
}
// 0: go on; 1: fail
static int enter(const char *op, int dirfd, const char *path, int follow) {
  if (busy) return 0;
  busy = 1;
  int n = __atomic_add_fetch(&count, 1, __ATOMIC_SEQ_CST);
  char p[PATH_MAX * 2], line[PATH_MAX * 3];
  resolve(dirfd, path, p);
  if (follow) { char *r = realpath(p, NULL); if (r) { strncpy(p, r, sizeof p - 1); free(r); } }
  for (char *c = p; *c; c++) if (*c == '\n') *c = '?';
  snprintf(line, sizeof line, "%d %s %s\n", n, op, p); raw(line);
  if (maxus) { rng = rng * 6364136223846793005ul + 1442695040888963407ul; unsigned long k = (rng >> 33) % 4; if (k) usleep((rng >> 40) % (maxus + 1)); }
  busy = 0;
  if (mode == KILL && n == at) { raw("KILLED\n"); syscall(SYS_exit_group, 137); }
  if (mode == TORN && n == at && strcmp(op, "write")) { raw("KILLED\n"); syscall(SYS_exit_group, 137); }
  if (mode == FAIL && strcmp(op, "unlink") && strcmp(op, "rmdir") && (n == at || (all && n > at && at))) { raw("FAILED\n"); errno = err; return 1; }
  return 0;
}
static void leave(void) { if (mode == AFTER && count == at) { raw("KILLED\n"); syscall(SYS_exit_group, 137); } }

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static int mutating(int flags) { return (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY; }
static const char *opname(int flags) { return flags & O_EXCL ? "create" : flags & O_TRUNC ? "truncate" : "open-write"; }

#define OPEN(name) int name(const char *path, int flags, ...) { REAL(name); va_list a; va_start(a, flags); int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
  if (!busy && mutating(flags)) { if (enter(opname(flags), AT_FDCWD, path, 1)) return -1; int r = real(path, flags, m); leave(); return r; } return real(path, flags, m); }
#define OPENAT(name) int name(int d, const char *path, int flags, ...) { REAL(name); va_list a; va_start(a, flags); int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
  if (!busy && mutating(flags)) { if (enter(opname(flags), d, path, 1)) return -1; int r = real(d, path, flags, m); leave(); return r; } return real(d, path, flags, m); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  struct stat st; char l[64], p[PATH_MAX];
  if (busy || fd <= 2 || fd == logfd || fstat(fd, &st) || !S_ISREG(st.st_mode)) return real(fd, b, n);
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, p, sizeof p - 1); p[k < 0 ? 0 : k] = 0;
  if (mode == TORN && count + 1 == at) { enter("write", AT_FDCWD, p, 0); ssize_t r = real(fd, b, n / 2); (void)r; raw("KILLED\n"); syscall(SYS_exit_group, 137); }
  if (enter("write", AT_FDCWD, p, 0)) return -1;
  ssize_t r = real(fd, b, n); leave(); return r;
}
#define P1(name) int name(const char *p) { REAL(name); if (enter(#name, AT_FDCWD, p, 0)) return -1; int r = real(p); leave(); return r; }
P1(unlink) P1(rmdir)
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (enter("mkdir", AT_FDCWD, p, 0)) return -1; int r = real(p, m); leave(); return r; }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); if (enter("mkdir", d, p, 0)) return -1; int r = real(d, p, m); leave(); return r; }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (enter("unlink", d, p, 0)) return -1; int r = real(d, p, f); leave(); return r; }
int symlink(const char *t, const char *p) { REAL(symlink); if (enter("symlink", AT_FDCWD, p, 0)) return -1; int r = real(t, p); leave(); return r; }
int symlinkat(const char *t, int d, const char *p) { REAL(symlinkat); if (enter("symlink", d, p, 0)) return -1; int r = real(t, d, p); leave(); return r; }
int link(const char *o, const char *p) { REAL(link); if (enter("link", AT_FDCWD, p, 0)) return -1; int r = real(o, p); leave(); return r; }
int linkat(int a, const char *o, int d, const char *p, int f) { REAL(linkat); if (enter("link", d, p, 0)) return -1; int r = real(a, o, d, p, f); leave(); return r; }
int rename(const char *o, const char *p) { REAL(rename); if (enter("rename-from", AT_FDCWD, o, 0)) return -1; if (enter("rename-to", AT_FDCWD, p, 0)) return -1; int r = real(o, p); leave(); return r; }
int chmod(const char *p, mode_t m) { REAL(chmod); if (enter("chmod", AT_FDCWD, p, 1)) return -1; int r = real(p, m); leave(); return r; }
int truncate64(const char *p, off64_t n) { REAL(truncate64); if (enter("truncate", AT_FDCWD, p, 1)) return -1; int r = real(p, n); leave(); return r; }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(utimensat); if (p && enter("utimes", d, p, 1)) return -1; int r = real(d, p, t, f); leave(); return r; }
