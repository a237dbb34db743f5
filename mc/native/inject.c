/* Counts the file-system calls of this process on files below one directory, and makes the n-th one fail, be short, tear or end the
   process. Armed through inj_arm() (ctypes); does nothing otherwise. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

enum { K_OPEN = 1, K_OPENW, K_WRITE, K_READ, K_CLOSE, K_FWRITE, K_FREAD, K_FCLOSE, K_FFLUSH, K_UNLINK, K_RENAME, K_TRUNC, K_MKDIR, K_SYNC, K_LINK };
enum { M_COUNT = 0, M_KILL_BEFORE, M_KILL_AFTER, M_TEAR_KILL, M_FAIL, M_FAIL_ON, M_SHORT, M_SHORT_FAIL_ON };

static char dir_[PATH_MAX];
static size_t dirlen;
static int armed, mode, err_;
static long target, nops, arg_;
static int failing; /* persistent failure has begun */
#define MAXOPS 100000
static int kinds[MAXOPS];
static long sizes[MAXOPS];

void inj_arm(const char *d, int m, long n, long a, int e) {
  strncpy(dir_, d, sizeof dir_ - 1);
  dirlen = strlen(dir_);
  mode = m; target = n; arg_ = a; err_ = e; nops = 0; failing = 0; armed = 1;
}
void inj_disarm(void) { armed = 0; }
long inj_count(void) { return nops; }
int inj_kind(long i) { return kinds[i]; }
long inj_size(long i) { return sizes[i]; }
int inj_hit(void) { return nops > target || failing; }

static void die(void) { syscall(SYS_exit_group, 77); }

static int in_path(const char *p) {
  char buf[PATH_MAX];
  if (!armed || !p) return 0;
  if (p[0] != '/') {
    if (!getcwd(buf, sizeof buf - 300)) return 0;
    size_t l = strlen(buf);
    snprintf(buf + l, sizeof buf - l, "/%s", p);
    p = buf;
  }
  return strncmp(p, dir_, dirlen) == 0;
}
static int in_fd(int fd) {
  char l[64], b[PATH_MAX];
  if (!armed || fd < 0) return 0;
  int e = errno;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  errno = e;
  if (n <= 0) return 0;
  b[n] = 0;
  return strncmp(b, dir_, dirlen) == 0;
}
static int writes(int k) { return k == K_OPENW || k == K_WRITE || k == K_FWRITE || k == K_FCLOSE || k == K_FFLUSH || k == K_TRUNC || k == K_MKDIR || k == K_RENAME || k == K_SYNC; }

/* 0: go on; 1: fail with err_; 2: short/tear (arg_ bytes) */
static int gate(int kind, long size, int *after) {
  *after = 0;
  long i = nops++;
  if (i < MAXOPS) { kinds[i] = kind; sizes[i] = size; }
  if (failing) { if (writes(kind) && kind != K_OPEN) { errno = err_; return 1; } return 0; }
  if (mode == M_COUNT || i != target) return 0;
  switch (mode) {
    case M_KILL_BEFORE: die(); break;
    case M_KILL_AFTER: *after = 1; return 0;
    case M_TEAR_KILL: return 2;
    case M_FAIL: errno = err_; return 1;
    case M_FAIL_ON: failing = 1; errno = err_; return 1;
    case M_SHORT: return 2;
    case M_SHORT_FAIL_ON: failing = 1; return 2;
  }
  return 0;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define AFTER(a) do { if (a) die(); } while (0)

#define OPENLIKE(name) \
int name(const char *p, int fl, ...) { \
  REAL(name); mode_t m = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap); \
  if (!in_path(p)) return real(p, fl, m); \
  int a; if (gate((fl & O_ACCMODE) != O_RDONLY ? K_OPENW : K_OPEN, 0, &a) == 1) return -1; \
  int r = real(p, fl, m); AFTER(a); return r; }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name) \
int name(int d, const char *p, int fl, ...) { \
  REAL(name); mode_t m = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap); \
  if (!in_path(p)) return real(d, p, fl, m); \
  int a; if (gate((fl & O_ACCMODE) != O_RDONLY ? K_OPENW : K_OPEN, 0, &a) == 1) return -1; \
  int r = real(d, p, fl, m); AFTER(a); return r; }
OPENATLIKE(openat)
OPENATLIKE(openat64)
#define FOPENLIKE(name) \
FILE *name(const char *p, const char *md) { \
  REAL(name); if (!in_path(p)) return real(p, md); \
  int a; if (gate(md[0] == 'r' && !strchr(md, '+') ? K_OPEN : K_OPENW, 0, &a) == 1) return NULL; \
  FILE *r = real(p, md); AFTER(a); return r; }
FOPENLIKE(fopen)
FOPENLIKE(fopen64)

ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (!in_fd(fd)) return real(fd, b, n);
  int a, g = gate(K_WRITE, (long)n, &a);
  if (g == 1) return -1;
  if (g == 2) { size_t k = (size_t)arg_ < n ? (size_t)arg_ : n; ssize_t r = k ? real(fd, b, k) : 0; if (mode == M_TEAR_KILL) die(); return r; }
  ssize_t r = real(fd, b, n); AFTER(a); return r;
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(read);
  if (!in_fd(fd)) return real(fd, b, n);
  int a, g = gate(K_READ, (long)n, &a);
  if (g == 1) return -1;
  if (g == 2) { size_t k = (size_t)arg_ < n ? (size_t)arg_ : n; if (k == 0) k = 1; ssize_t r = real(fd, b, k); if (mode == M_TEAR_KILL) die(); return r; }
  ssize_t r = real(fd, b, n); AFTER(a); return r;
}
int close(int fd) {
  REAL(close);
  if (!in_fd(fd)) return real(fd);
  int a, g = gate(K_CLOSE, 0, &a);
  int r = real(fd); /* the descriptor is released also when close reports an error */
  if (g == 1) { errno = err_; return -1; }
  AFTER(a); return r;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  REAL(fwrite);
  if (!in_fd(fileno(f))) return real(b, s, n, f);
  int a, g = gate(K_FWRITE, (long)(s * n), &a);
  if (g == 1) return 0;
  if (g == 2) { size_t k = (size_t)arg_ < s * n ? (size_t)arg_ : s * n; real(b, 1, k, f); fflush_unlocked(f); if (mode == M_TEAR_KILL) die(); errno = ENOSPC; return s ? k / s : 0; }
  size_t r = real(b, s, n, f); AFTER(a); return r;
}
size_t fread(void *b, size_t s, size_t n, FILE *f) {
  REAL(fread);
  if (!in_fd(fileno(f))) return real(b, s, n, f);
  int a, g = gate(K_FREAD, (long)(s * n), &a);
  if (g == 1) return 0;
  size_t r = real(b, s, n, f); AFTER(a); return r;
}
int fclose(FILE *f) {
  REAL(fclose);
  if (!in_fd(fileno(f))) return real(f);
  int a, g = gate(K_FCLOSE, 0, &a);
  if (g == 1) { /* buffered data are lost */
    int fd = dup(fileno(f)); struct stat st; fstat(fd, &st); armed = 0; real(f); ftruncate(fd, st.st_size); close(fd); armed = 1; errno = err_; return EOF; }
  int on = armed; armed = 0; int r = real(f); armed = on; AFTER(a); return r;
}
int fflush(FILE *f) {
  REAL(fflush);
  if (!f || !in_fd(fileno(f))) return real(f);
  int a; if (gate(K_FFLUSH, 0, &a) == 1) return EOF;
  int r = real(f); AFTER(a); return r;
}
int unlink(const char *p) { REAL(unlink); if (!in_path(p)) return real(p); int a; if (gate(K_UNLINK, 0, &a) == 1) return -1; int r = real(p); AFTER(a); return r; }
int unlinkat(int d, const char *p, int fl) { REAL(unlinkat); if (!in_path(p)) return real(d, p, fl); int a; if (gate(K_UNLINK, 0, &a) == 1) return -1; int r = real(d, p, fl); AFTER(a); return r; }
int rmdir(const char *p) { REAL(rmdir); if (!in_path(p)) return real(p); int a; if (gate(K_UNLINK, 0, &a) == 1) return -1; int r = real(p); AFTER(a); return r; }
int rename(const char *p, const char *q) { REAL(rename); if (!in_path(p) && !in_path(q)) return real(p, q); int a; if (gate(K_RENAME, 0, &a) == 1) return -1; int r = real(p, q); AFTER(a); return r; }
int renameat(int d, const char *p, int e, const char *q) { REAL(renameat); if (!in_path(p) && !in_path(q)) return real(d, p, e, q); int a; if (gate(K_RENAME, 0, &a) == 1) return -1; int r = real(d, p, e, q); AFTER(a); return r; }
int link(const char *p, const char *q) { REAL(link); if (!in_path(q)) return real(p, q); int a; if (gate(K_LINK, 0, &a) == 1) return -1; int r = real(p, q); AFTER(a); return r; }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (!in_fd(fd)) return real(fd, n); int a; if (gate(K_TRUNC, n, &a) == 1) return -1; int r = real(fd, n); AFTER(a); return r; }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (!in_fd(fd)) return real(fd, n); int a; if (gate(K_TRUNC, n, &a) == 1) return -1; int r = real(fd, n); AFTER(a); return r; }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (!in_path(p)) return real(p, m); int a; if (gate(K_MKDIR, 0, &a) == 1) return -1; int r = real(p, m); AFTER(a); return r; }
int fsync(int fd) { REAL(fsync); if (!in_fd(fd)) return real(fd); int a; if (gate(K_SYNC, 0, &a) == 1) return -1; int r = real(fd); AFTER(a); return r; }
