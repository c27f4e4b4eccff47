// Counts the mutating file-system calls below a directory and, at the k-th, dies (optionally in the
// middle of a write) or fails. Preloaded; inactive until armed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static size_t plen;
static atomic_int armed;
static atomic_long counter;
static long at = -1;
static int mode;      // 0 count only, 1 die before, 2 die inside (torn write), 3 fail once, 4 fail from then on, 5 stop
static long torn;     // bytes of a torn write: >=0 from the start, <0 relative to the end, 1<<40: half
static char *logbuf;
static size_t loglen, logcap;

void mc_arm(const char *p, long k, int m, long t) {
  snprintf(prefix, sizeof prefix, "%s", p);
  plen = strlen(prefix);
  at = k; mode = m; torn = t;
  atomic_store(&counter, 0);
  loglen = 0;
  atomic_store(&armed, 1);
}
void mc_disarm(void) { atomic_store(&armed, 0); }
long mc_count(void) { return atomic_load(&counter); }
long mc_log(char *out, long cap) {
  long n = loglen < (size_t)cap ? (long)loglen : cap;
  memcpy(out, logbuf, n);
  return n;
}
static void note(const char *op, const char *path, long n) {
  char line[PATH_MAX + 64];
  int l = snprintf(line, sizeof line, "%s %s %ld\n", op, path + plen, n);
  if (l <= 0) return;
  if (loglen + l > logcap) {
    logcap = (logcap ? logcap * 2 : 1 << 16) + l;
    logbuf = realloc(logbuf, logcap);
  }
  memcpy(logbuf + loglen, line, l);
  loglen += l;
}
static int under(const char *p) { return !strncmp(p, prefix, plen) && (p[plen] == 0 || p[plen] == '/'); }
static int abspath(int dirfd, const char *p, char *out) {
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return 1; }
  char base[PATH_MAX];
  if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
  else {
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(l, base, sizeof base - 1);
    if (n < 0) return 0;
    base[n] = 0;
  }
  if (snprintf(out, PATH_MAX, "%s/%s", base, p) >= PATH_MAX) return 0;
  return 1;
}
static int fdpath(int fd, char *out) {
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, out, PATH_MAX - 1);
  if (n < 0) return 0;
  out[n] = 0;
  return 1;
}
// -> 0 go on, 1 fail with ENOSPC, 2 torn: write *part bytes then die
static int hit(const char *op, const char *path, long n, long *part) {
  long k = atomic_fetch_add(&counter, 1);
  note(op, path, n);
  if (mode == 0 || at < 0) return 0;
  if (mode == 4 && k >= at) { errno = ENOSPC; return 1; }
  if (k != at) return 0;
  if (mode == 1) syscall(SYS_exit_group, 77);
  if (mode == 2) {
    if (n < 2 || !part) syscall(SYS_exit_group, 77);
    long w = torn == (1L << 40) ? n / 2 : torn >= 0 ? torn : n + torn;
    if (w < 0) w = 0;
    if (w > n) w = n;
    *part = w;
    return 2;
  }
  if (mode == 3) { errno = ENOSPC; return 1; }
  if (mode == 5) syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP);
  return 0;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define ON atomic_load_explicit(&armed, memory_order_relaxed)

static int pathop(const char *op, int dirfd, const char *p) {
  char a[PATH_MAX];
  if (!abspath(dirfd, p, a) || !under(a)) return 0;
  return hit(op, a, 0, NULL);
}
static int wr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPEN_BODY(NAME, DIRFD) \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); } \
  REAL(NAME); \
  if (ON && wr(flags) && pathop("open", DIRFD, path)) return -1;

int open(const char *path, int flags, ...) { OPEN_BODY(open, AT_FDCWD) return real(path, flags, m); }
int open64(const char *path, int flags, ...) { OPEN_BODY(open64, AT_FDCWD) return real(path, flags, m); }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(openat, d) return real(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(openat64, d) return real(d, path, flags, m); }
int creat(const char *path, mode_t m) { REAL(creat); if (ON && pathop("open", AT_FDCWD, path)) return -1; return real(path, m); }
int creat64(const char *path, mode_t m) { REAL(creat64); if (ON && pathop("open", AT_FDCWD, path)) return -1; return real(path, m); }
FILE *fopen(const char *path, const char *md) { REAL(fopen); if (ON && strpbrk(md, "wa+") && pathop("open", AT_FDCWD, path)) return NULL; return real(path, md); }
FILE *fopen64(const char *path, const char *md) { REAL(fopen64); if (ON && strpbrk(md, "wa+") && pathop("open", AT_FDCWD, path)) return NULL; return real(path, md); }

ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  char p[PATH_MAX]; long part;
  if (ON && fdpath(fd, p) && under(p)) {
    int h = hit("write", p, n, &part);
    if (h == 1) return -1;
    if (h == 2) { real(fd, b, part); syscall(SYS_exit_group, 77); }
  }
  return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite);
  char p[PATH_MAX]; long part;
  if (ON && fdpath(fd, p) && under(p)) {
    int h = hit("write", p, n, &part);
    if (h == 1) return -1;
    if (h == 2) { real(fd, b, part, o); syscall(SYS_exit_group, 77); }
  }
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  char p[PATH_MAX]; long part;
  if (ON && fdpath(fd, p) && under(p)) {
    int h = hit("write", p, n, &part);
    if (h == 1) return -1;
    if (h == 2) { real(fd, b, part, o); syscall(SYS_exit_group, 77); }
  }
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(writev);
  char p[PATH_MAX]; long part, n = 0;
  if (ON && fdpath(fd, p) && under(p)) {
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    int h = hit("write", p, n, &part);
    if (h == 1) return -1;
    if (h == 2) {
      for (int i = 0; i < c && part > 0; i++) {
        long w = (long)v[i].iov_len < part ? (long)v[i].iov_len : part;
        syscall(SYS_write, fd, v[i].iov_base, w);
        part -= w;
      }
      syscall(SYS_exit_group, 77);
    }
  }
  return real(fd, v, c);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  REAL(sendfile);
  char p[PATH_MAX]; long part;
  if (ON && fdpath(o, p) && under(p)) {
    int h = hit("write", p, n, &part);
    if (h == 1) return -1;
    if (h == 2) syscall(SYS_exit_group, 77);
  }
  return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(sendfile64);
  char p[PATH_MAX]; long part;
  if (ON && fdpath(o, p) && under(p)) {
    int h = hit("write", p, n, &part);
    if (h == 1) return -1;
    if (h == 2) syscall(SYS_exit_group, 77);
  }
  return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(copy_file_range);
  char p[PATH_MAX]; long part;
  if (ON && fdpath(o, p) && under(p)) {
    int h = hit("write", p, n, &part);
    if (h == 1) return -1;
    if (h == 2) syscall(SYS_exit_group, 77);
  }
  return real(i, io, o, oo, n, f);
}
int ftruncate(int fd, off_t n) { REAL(ftruncate); char p[PATH_MAX]; if (ON && fdpath(fd, p) && under(p) && hit("truncate", p, 0, NULL)) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); char p[PATH_MAX]; if (ON && fdpath(fd, p) && under(p) && hit("truncate", p, 0, NULL)) return -1; return real(fd, n); }
int truncate(const char *path, off_t n) { REAL(truncate); if (ON && pathop("truncate", AT_FDCWD, path)) return -1; return real(path, n); }
int truncate64(const char *path, off64_t n) { REAL(truncate64); if (ON && pathop("truncate", AT_FDCWD, path)) return -1; return real(path, n); }
int rename(const char *a, const char *b) { REAL(rename); if (ON && pathop("rename", AT_FDCWD, b)) return -1; return real(a, b); }
int renameat(int da, const char *a, int db, const char *b) { REAL(renameat); if (ON && pathop("rename", db, b)) return -1; return real(da, a, db, b); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { REAL(renameat2); if (ON && pathop("rename", db, b)) return -1; return real(da, a, db, b, f); }
int unlink(const char *p) { REAL(unlink); if (ON && pathop("unlink", AT_FDCWD, p)) return -1; return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (ON && pathop("unlink", d, p)) return -1; return real(d, p, f); }
int remove(const char *p) { REAL(remove); if (ON && pathop("unlink", AT_FDCWD, p)) return -1; return real(p); }
int link(const char *a, const char *b) { REAL(link); if (ON && pathop("link", AT_FDCWD, b)) return -1; return real(a, b); }
int linkat(int da, const char *a, int db, const char *b, int f) { REAL(linkat); if (ON && pathop("link", db, b)) return -1; return real(da, a, db, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink); if (ON && pathop("link", AT_FDCWD, b)) return -1; return real(a, b); }
int symlinkat(const char *a, int d, const char *b) { REAL(symlinkat); if (ON && pathop("link", d, b)) return -1; return real(a, d, b); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (ON && pathop("mkdir", AT_FDCWD, p)) return -1; return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); if (ON && pathop("mkdir", d, p)) return -1; return real(d, p, m); }
int rmdir(const char *p) { REAL(rmdir); if (ON && pathop("rmdir", AT_FDCWD, p)) return -1; return real(p); }
