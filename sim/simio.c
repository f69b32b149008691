/* simio: LD_PRELOAD seam between the process under simulation and the kernel.
 *
 * Every file-system call on a path below the armed scratch prefix, and every clock
 * read, goes through here.  With nothing armed it forwards to libc unchanged.
 * While armed it: numbers each operation, writes it to an event log, applies the
 * fault plan (fault = operation number + kind + argument), and serves directory
 * listings in a seeded order.  The simulator (Python) drives it over ctypes.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPENR = 1, OP_OPENW, OP_CLOSE, OP_READ, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_MKDIR,
       OP_RMDIR, OP_STAT, OP_LIST, OP_SHMOPEN, OP_SHMUNLINK, OP_MMAP, OP_SYNC };
/* fault kinds */
enum { F_NONE = 0, F_ERR = 1, F_SHORT = 2, F_CRASH_BEFORE = 3, F_CRASH_TORN = 4, F_CRASH_AFTER = 5,
       F_FULL = 6 /* disk full from this op on */, F_ERR_STICKY = 7 /* same op kind+path keeps failing */,
       F_LOST = 8 /* write acknowledged, not done */ };

#define MAXF 64
#define MAXLOG 8192
#define MAXFD 4096
#define PATHN 160
typedef struct { int op, fault; long off, n, res; char path[PATHN]; char path2[PATHN]; } ev_t;
typedef struct { long idx; int kind; long arg; int fired; } fault_t;

static int armed = 0;
static char prefix[PATH_MAX]; static size_t prefixlen = 0;
static char shmdir[PATH_MAX]; static int shm_redirect = 0;
static long opidx = 0;
static ev_t evlog[MAXLOG]; static long nlog = 0;
static fault_t plan[MAXF]; static int nplan = 0;
static int disk_full = 0; static long full_room = 0;
static int sticky_op = 0, sticky_errno = 0; static char sticky_path[PATHN];
static uint64_t list_seed = 0; static uint64_t list_calls = 0;
static char fdpath[MAXFD][PATHN]; static unsigned char fdtrack[MAXFD];
static int vclock = 0; static int64_t vnow_real = 0, vnow_mono = 0, vstep = 0; static long vcalls = 0;
static int stat_faultable = 0;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = 0; \
  if (!real_##name) real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* ---- control interface ---- */
void sim_prefix(const char *p) { snprintf(prefix, sizeof prefix, "%s", p); prefixlen = strlen(prefix); }
void sim_shmdir(const char *p) { if (p && *p) { snprintf(shmdir, sizeof shmdir, "%s", p); shm_redirect = 1; } else shm_redirect = 0; }
void sim_reset(void) { opidx = 0; nlog = 0; nplan = 0; disk_full = 0; sticky_op = 0; list_calls = 0; }
void sim_arm(int on) { armed = on; }
void sim_fault(long idx, int kind, long arg) { if (nplan < MAXF) { plan[nplan].idx = idx; plan[nplan].kind = kind; plan[nplan].arg = arg; plan[nplan].fired = 0; nplan++; } }
int sim_fired(int i) { return i < nplan ? plan[i].fired : 0; }
void sim_clear_faults(void) { nplan = 0; disk_full = 0; sticky_op = 0; }
void sim_listseed(uint64_t s) { list_seed = s; list_calls = 0; }
void sim_statfault(int on) { stat_faultable = on; }
long sim_ops(void) { return opidx; }
long sim_nlog(void) { return nlog; }
const ev_t *sim_ev(long i) { return &evlog[i]; }
void sim_clock(int on, int64_t real0, int64_t mono0, int64_t step) { vclock = on; vnow_real = real0; vnow_mono = mono0; vstep = step; vcalls = 0; }
void sim_clock_jump(int64_t dreal, int64_t dmono) { vnow_real += dreal; vnow_mono += dmono; }
int64_t sim_clock_now(void) { return vnow_real; }
long sim_clock_calls(void) { return vcalls; }

static int inpfx(const char *p) {
  if (!armed || !p || !prefixlen) return 0;
  return strncmp(p, prefix, prefixlen) == 0 && (p[prefixlen] == 0 || p[prefixlen] == '/');
}
static const char *rel(const char *p) {
  if (prefixlen && strncmp(p, prefix, prefixlen) == 0) { p += prefixlen; while (*p == '/') p++; }
  return p;
}
/* while shared memory is redirected, every path below /dev/shm except the run's own scratch goes to the scratch segment directory */
static const char *shr(const char *p, char *buf) {
  if (!shm_redirect || !p || strncmp(p, "/dev/shm", 8) || (p[8] && p[8] != '/')) return p;
  if (prefixlen && strncmp(p, prefix, prefixlen) == 0 && (p[prefixlen] == 0 || p[prefixlen] == '/')) return p;
  snprintf(buf, PATH_MAX * 2, "%s%s", shmdir, p + 8); return buf;
}
#define SHR(p) char shb_##p[PATH_MAX * 2]; p = shr(p, shb_##p);
static const char *atpath(int dirfd, const char *p, char *buf, size_t n) {
  if (!p) return p;
  if (p[0] == '/' || dirfd == AT_FDCWD) {
    if (p[0] == '/' ) return p;
    char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return p;
    snprintf(buf, n, "%s/%s", cwd, p); return buf;
  }
  char l[64], d[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
  ssize_t k = readlink(l, d, sizeof d - 1); if (k < 0) return p; d[k] = 0;
  snprintf(buf, n, "%s/%s", d, p); return buf;
}
static void crash(void) { _exit(77); }

static ev_t *logev(int op, const char *path, const char *path2, long off, long n) {
  static ev_t dummy; ev_t *e = nlog < MAXLOG ? &evlog[nlog++] : &dummy;
  e->op = op; e->fault = 0; e->off = off; e->n = n; e->res = 0;
  snprintf(e->path, PATHN, "%s", path ? rel(path) : ""); snprintf(e->path2, PATHN, "%s", path2 ? rel(path2) : "");
  return e;
}
/* returns fault kind for this op (and arg) */
static int step(int op, const char *path, ev_t *e, long *arg) {
  long me = opidx++;
  for (int i = 0; i < nplan; i++) if (plan[i].idx == me) {
    int k = plan[i].kind; int ok = 0;
    int iswr = (op == OP_WRITE); int isrd = (op == OP_READ);
    if (k == F_SHORT) ok = iswr || isrd;
    else if (k == F_LOST) ok = iswr;
    else ok = 1;
    if (ok) {
      plan[i].fired = 1; *arg = plan[i].arg; e->fault = k;
      if (k == F_FULL) { disk_full = 1; full_room = plan[i].arg; }
      else if (k == F_ERR_STICKY) { sticky_op = op; sticky_errno = (int)plan[i].arg; snprintf(sticky_path, PATHN, "%s", rel(path)); return F_ERR; }
      else return k;
    }
  }
  if (sticky_op && sticky_op == op && strcmp(sticky_path, rel(path)) == 0) { *arg = sticky_errno; e->fault = F_ERR_STICKY; return F_ERR; }
  return F_NONE;
}

/* ---- fd tracking ---- */
static void track(int fd, const char *path) { if (fd >= 0 && fd < MAXFD) { fdtrack[fd] = 1; snprintf(fdpath[fd], PATHN, "%s", path); } }
static int tracked(int fd) { return armed && fd >= 0 && fd < MAXFD && fdtrack[fd]; }
int sim_open_fds(void) { int c = 0; for (int i = 0; i < MAXFD; i++) c += fdtrack[i]; return c; }
int sim_openfd_name(int nth, char *buf) { int c = 0; for (int i = 0; i < MAXFD; i++) if (fdtrack[i]) { if (c++ == nth) { strcpy(buf, rel(fdpath[i])); return 1; } } return 0; }

static int do_open(const char *full, int flags, int (*call)(void *), void *ctx) {
  int wr = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
  ev_t *e = logev(wr ? OP_OPENW : OP_OPENR, full, 0, flags, 0); long arg = 0;
  int f = step(e->op, full, e, &arg);
  if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) crash();
  if (f == F_ERR) { e->res = -arg; errno = (int)arg; return -1; }
  if (disk_full && (flags & O_CREAT) && access(full, F_OK) != 0) { e->fault = F_FULL; e->res = -ENOSPC; errno = ENOSPC; return -1; }
  int fd = call(ctx); int er = errno;
  e->res = fd < 0 ? -er : 0;
  if (f == F_CRASH_AFTER) crash();
  if (fd >= 0) track(fd, full);
  errno = er; return fd;
}
struct octx { const char *p; int flags; mode_t m; int dirfd; int which; };
static int ocall(void *v) { struct octx *c = v;
  REAL(int, open, const char *, int, ...); REAL(int, openat, int, const char *, int, ...);
  if (c->which) return real_openat(c->dirfd, c->p, c->flags, c->m);
  return real_open(c->p, c->flags, c->m); }
#define GETMODE(m, flags, last) mode_t m = 0; if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, last); m = va_arg(ap, mode_t); va_end(ap); }
static int open_common(const char *p, int flags, mode_t m) { SHR(p)
  char b[PATH_MAX * 2]; const char *full = armed ? atpath(AT_FDCWD, p, b, sizeof b) : p;
  struct octx c = { p, flags, m, 0, 0 };
  if (!inpfx(full)) return ocall(&c);
  return do_open(full, flags, ocall, &c);
}
int open(const char *p, int flags, ...) { GETMODE(m, flags, flags) return open_common(p, flags, m); }
int open64(const char *p, int flags, ...) { GETMODE(m, flags, flags) return open_common(p, flags | O_LARGEFILE, m); }
static int openat_common(int d, const char *p, int flags, mode_t m) { SHR(p)
  char b[PATH_MAX * 2]; const char *full = armed ? atpath(d, p, b, sizeof b) : p;
  struct octx c = { p, flags, m, d, 1 };
  if (!inpfx(full)) return ocall(&c);
  return do_open(full, flags, ocall, &c);
}
int openat(int d, const char *p, int flags, ...) { GETMODE(m, flags, flags) return openat_common(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { GETMODE(m, flags, flags) return openat_common(d, p, flags | O_LARGEFILE, m); }
int close(int fd) { REAL(int, close, int);
  if (fd >= 0 && fd < MAXFD && fdtrack[fd]) {
    fdtrack[fd] = 0;
    if (armed) { ev_t *e = logev(OP_CLOSE, fdpath[fd], 0, 0, 0); long a = 0; int f = step(OP_CLOSE, fdpath[fd], e, &a);
      if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) crash();
      int r = real_close(fd); if (f == F_CRASH_AFTER) crash();
      if (f == F_ERR) { errno = (int)a; e->res = -a; return -1; } return r; }
  }
  return real_close(fd); }

/* fopen goes through internal open calls: route to our open + fdopen */
FILE *fopen(const char *p, const char *mode) { SHR(p) REAL(FILE *, fopen, const char *, const char *);
  char b[PATH_MAX * 2]; const char *full = armed ? atpath(AT_FDCWD, p, b, sizeof b) : p;
  if (!inpfx(full)) return real_fopen(p, mode);
  int fl = strchr(mode, '+') ? O_RDWR : (mode[0] == 'r' ? O_RDONLY : O_WRONLY);
  if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC; if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
  int fd = open(p, fl, 0666); if (fd < 0) return 0; return fdopen(fd, mode); }

/* ---- reads and writes ---- */
static ssize_t rw(int fd, int iswr, long off, size_t n, ssize_t (*call)(int, const void *, size_t, long), const void *buf) {
  ev_t *e = logev(iswr ? OP_WRITE : OP_READ, fdpath[fd], 0, off, (long)n); long arg = 0;
  int f = step(e->op, fdpath[fd], e, &arg); ssize_t r;
  if (f == F_CRASH_BEFORE) crash();
  if (f == F_ERR) { e->res = -arg; errno = (int)arg; return -1; }
  if (f == F_CRASH_TORN) { if (iswr) { size_t k = n * (size_t)arg / 1000; if (k) call(fd, buf, k, off); } crash(); }
  if (f == F_LOST) { e->res = (long)n; return (ssize_t)n; }
  if (f == F_SHORT) { size_t k = n * (size_t)arg / 1000; if (n && k == 0) k = 1; if (k > n) k = n; r = call(fd, buf, k, off); e->res = r; return r; }
  if (iswr && disk_full) {
    e->fault = F_FULL;
    if (full_room <= 0) { e->res = -ENOSPC; errno = ENOSPC; return -1; }
    if ((long)n > full_room) n = (size_t)full_room;
    full_room -= (long)n;
  }
  r = call(fd, buf, n, off); e->res = r < 0 ? -errno : r;
  if (f == F_CRASH_AFTER) crash();
  return r;
}
static ssize_t c_pread(int fd, const void *b, size_t n, long o) { REAL(ssize_t, pread, int, void *, size_t, off_t); return real_pread(fd, (void *)b, n, o); }
static ssize_t c_pwrite(int fd, const void *b, size_t n, long o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); return real_pwrite(fd, b, n, o); }
static ssize_t c_read(int fd, const void *b, size_t n, long o) { REAL(ssize_t, read, int, void *, size_t); (void)o; return real_read(fd, (void *)b, n); }
static ssize_t c_write(int fd, const void *b, size_t n, long o) { REAL(ssize_t, write, int, const void *, size_t); (void)o; return real_write(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return tracked(fd) ? rw(fd, 0, o, n, c_pread, b) : c_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return tracked(fd) ? rw(fd, 0, o, n, c_pread, b) : c_pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return tracked(fd) ? rw(fd, 1, o, n, c_pwrite, b) : c_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return tracked(fd) ? rw(fd, 1, o, n, c_pwrite, b) : c_pwrite(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) { return tracked(fd) ? rw(fd, 0, -1, n, c_read, b) : c_read(fd, b, n, 0); }
ssize_t write(int fd, const void *b, size_t n) { return tracked(fd) ? rw(fd, 1, -1, n, c_write, b) : c_write(fd, b, n, 0); }
static int trunc_common(int fd, off_t n) { REAL(int, ftruncate, int, off_t);
  if (!tracked(fd)) return real_ftruncate(fd, n);
  ev_t *e = logev(OP_TRUNC, fdpath[fd], 0, n, 0); long a = 0; int f = step(OP_TRUNC, fdpath[fd], e, &a);
  if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) crash();
  if (f == F_ERR) { errno = (int)a; e->res = -a; return -1; }
  int r = real_ftruncate(fd, n); if (f == F_CRASH_AFTER) crash(); e->res = r; return r; }
int ftruncate(int fd, off_t n) { return trunc_common(fd, n); }
int ftruncate64(int fd, off64_t n) { return trunc_common(fd, n); }
int fsync(int fd) { REAL(int, fsync, int); if (tracked(fd)) { ev_t *e = logev(OP_SYNC, fdpath[fd], 0, 0, 0); long a = 0; int f = step(OP_SYNC, fdpath[fd], e, &a);
  if (f == F_CRASH_BEFORE || f == F_CRASH_TORN || f == F_CRASH_AFTER) crash(); if (f == F_ERR) { errno = (int)a; return -1; } } return real_fsync(fd); }

/* ---- namespace ops ---- */
#define NSOP(opc, full, full2, callexpr) do { ev_t *e = logev(opc, full, full2, 0, 0); long arg_ = 0; int f = step(opc, full, e, &arg_); \
  if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) crash(); \
  if (f == F_ERR) { e->res = -arg_; errno = (int)arg_; return -1; } \
  int r = (callexpr); int er = errno; e->res = r < 0 ? -er : r; if (f == F_CRASH_AFTER) crash(); errno = er; return r; } while (0)
int rename(const char *a, const char *b) { SHR(a) SHR(b) REAL(int, rename, const char *, const char *);
  char x[PATH_MAX * 2], y[PATH_MAX * 2]; const char *fa = armed ? atpath(AT_FDCWD, a, x, sizeof x) : a, *fb = armed ? atpath(AT_FDCWD, b, y, sizeof y) : b;
  if (!inpfx(fa) && !inpfx(fb)) return real_rename(a, b);
  NSOP(OP_RENAME, fa, fb, real_rename(a, b)); }
int renameat(int da, const char *a, int db, const char *b) { REAL(int, renameat, int, const char *, int, const char *);
  char x[PATH_MAX * 2], y[PATH_MAX * 2]; const char *fa = armed ? atpath(da, a, x, sizeof x) : a, *fb = armed ? atpath(db, b, y, sizeof y) : b;
  if (!inpfx(fa) && !inpfx(fb)) return real_renameat(da, a, db, b);
  NSOP(OP_RENAME, fa, fb, real_renameat(da, a, db, b)); }
int unlink(const char *p) { SHR(p) REAL(int, unlink, const char *); char x[PATH_MAX * 2]; const char *fp = armed ? atpath(AT_FDCWD, p, x, sizeof x) : p;
  if (!inpfx(fp)) return real_unlink(p); NSOP(OP_UNLINK, fp, 0, real_unlink(p)); }
int unlinkat(int d, const char *p, int fl) { SHR(p) REAL(int, unlinkat, int, const char *, int); char x[PATH_MAX * 2]; const char *fp = armed ? atpath(d, p, x, sizeof x) : p;
  if (!inpfx(fp)) return real_unlinkat(d, p, fl); NSOP((fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, fp, 0, real_unlinkat(d, p, fl)); }
int mkdir(const char *p, mode_t m) { SHR(p) REAL(int, mkdir, const char *, mode_t); char x[PATH_MAX * 2]; const char *fp = armed ? atpath(AT_FDCWD, p, x, sizeof x) : p;
  if (!inpfx(fp)) return real_mkdir(p, m);
  if (disk_full) { ev_t *e = logev(OP_MKDIR, fp, 0, 0, 0); long a = 0; step(OP_MKDIR, fp, e, &a); e->fault = F_FULL; errno = ENOSPC; return -1; }
  NSOP(OP_MKDIR, fp, 0, real_mkdir(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); char x[PATH_MAX * 2]; const char *fp = armed ? atpath(d, p, x, sizeof x) : p;
  if (!inpfx(fp)) return real_mkdirat(d, p, m); NSOP(OP_MKDIR, fp, 0, real_mkdirat(d, p, m)); }
int rmdir(const char *p) { SHR(p) REAL(int, rmdir, const char *); char x[PATH_MAX * 2]; const char *fp = armed ? atpath(AT_FDCWD, p, x, sizeof x) : p;
  if (!inpfx(fp)) return real_rmdir(p); NSOP(OP_RMDIR, fp, 0, real_rmdir(p)); }
#define STATOP(full, callexpr) do { if (!stat_faultable) return (callexpr); ev_t *e = logev(OP_STAT, full, 0, 0, 0); long arg_ = 0; int f = step(OP_STAT, full, e, &arg_); \
  if (f == F_CRASH_BEFORE || f == F_CRASH_TORN || f == F_CRASH_AFTER) crash(); \
  if (f == F_ERR) { e->res = -arg_; errno = (int)arg_; return -1; } int r = (callexpr); e->res = r < 0 ? -errno : 0; return r; } while (0)
int stat(const char *p, struct stat *s) { SHR(p) REAL(int, stat, const char *, struct stat *); char x[PATH_MAX * 2]; const char *fp = armed ? atpath(AT_FDCWD, p, x, sizeof x) : p;
  if (!inpfx(fp)) return real_stat(p, s); STATOP(fp, real_stat(p, s)); }
int stat64(const char *p, struct stat64 *s) { SHR(p) REAL(int, stat64, const char *, struct stat64 *); char x[PATH_MAX * 2]; const char *fp = armed ? atpath(AT_FDCWD, p, x, sizeof x) : p;
  if (!inpfx(fp)) return real_stat64(p, s); STATOP(fp, real_stat64(p, s)); }

int lstat(const char *p, struct stat *s) { REAL(int, lstat, const char *, struct stat *); SHR(p) return real_lstat(p, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(int, lstat64, const char *, struct stat64 *); SHR(p) return real_lstat64(p, s); }
int access(const char *p, int m) { REAL(int, access, const char *, int); SHR(p) return real_access(p, m); }

/* ---- directory listings in seeded order ---- */
typedef struct { DIR *d; struct dirent64 **ents; int n, pos; } dl_t;
static dl_t dls[64];
static uint64_t sm64(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int cmpd(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
static struct dirent64 *raw_readdir64(DIR *d) { REAL(struct dirent64 *, readdir64, DIR *); return real_readdir64(d); }
static void load_dir(DIR *d, const char *full) {
  int k = -1; for (int i = 0; i < 64; i++) if (!dls[i].d) { k = i; break; } if (k < 0) return;
  int cap = 16, n = 0; struct dirent64 **v = malloc(sizeof(*v) * cap); struct dirent64 *e;
  while ((e = raw_readdir64(d))) { if (n == cap) { cap *= 2; v = realloc(v, sizeof(*v) * cap); } struct dirent64 *c = malloc(e->d_reclen); memcpy(c, e, e->d_reclen); v[n++] = c; }
  qsort(v, n, sizeof *v, cmpd);
  if (list_seed) { uint64_t s = list_seed * 1000003ull + (++list_calls); for (const char *p = rel(full); *p; p++) s = s * 131 + (unsigned char)*p;
    for (int i = n - 1; i > 0; i--) { int j = (int)(sm64(&s) % (uint64_t)(i + 1)); struct dirent64 *t = v[i]; v[i] = v[j]; v[j] = t; } }
  dls[k].d = d; dls[k].ents = v; dls[k].n = n; dls[k].pos = 0;
}
static DIR *od(DIR *(*call)(void *), void *ctx, const char *full) {
  ev_t *e = logev(OP_LIST, full, 0, 0, 0); long a = 0; int f = step(OP_LIST, full, e, &a);
  if (f == F_CRASH_BEFORE || f == F_CRASH_TORN || f == F_CRASH_AFTER) crash();
  if (f == F_ERR) { errno = (int)a; e->res = -a; return 0; }
  DIR *d = call(ctx); e->res = d ? 0 : -errno; if (d) load_dir(d, full); return d; }
static DIR *odc(void *p) { REAL(DIR *, opendir, const char *); return real_opendir((const char *)p); }
static DIR *fdc(void *p) { REAL(DIR *, fdopendir, int); return real_fdopendir(*(int *)p); }
DIR *opendir(const char *p) { SHR(p) char x[PATH_MAX * 2]; const char *fp = armed ? atpath(AT_FDCWD, p, x, sizeof x) : p;
  if (!inpfx(fp)) return odc((void *)p); return od(odc, (void *)p, fp); }
DIR *fdopendir(int fd) { char l[64], d[PATH_MAX]; if (armed) { snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, d, sizeof d - 1); if (k > 0) { d[k] = 0;
  if (inpfx(d)) { DIR *r = od(fdc, &fd, d); return r; } } } return fdc(&fd); }
static dl_t *find_dl(DIR *d) { for (int i = 0; i < 64; i++) if (dls[i].d == d) return &dls[i]; return 0; }
struct dirent64 *readdir64(DIR *d) { dl_t *l = find_dl(d); if (!l) return raw_readdir64(d); return l->pos < l->n ? l->ents[l->pos++] : 0; }
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) { REAL(void, rewinddir, DIR *); dl_t *l = find_dl(d); if (l) l->pos = 0; real_rewinddir(d); }
int closedir(DIR *d) { REAL(int, closedir, DIR *); dl_t *l = find_dl(d); if (l) { for (int i = 0; i < l->n; i++) free(l->ents[i]); free(l->ents); l->d = 0; }
  int fd = dirfd(d); if (fd >= 0 && fd < MAXFD) fdtrack[fd] = 0; return real_closedir(d); }

/* ---- shared memory, redirected into the scratch directory ---- */
int shm_open(const char *name, int fl, mode_t m) { REAL(int, shm_open, const char *, int, mode_t);
  if (!shm_redirect) return real_shm_open(name, fl, m);
  char p[PATH_MAX * 2]; while (*name == '/') name++; snprintf(p, sizeof p, "%s/%s", shmdir, name);
  return open(p, fl | O_CLOEXEC | O_NOFOLLOW, m); }
int shm_unlink(const char *name) { REAL(int, shm_unlink, const char *);
  if (!shm_redirect) return real_shm_unlink(name);
  char p[PATH_MAX * 2]; while (*name == '/') name++; snprintf(p, sizeof p, "%s/%s", shmdir, name); return unlink(p); }
static void *map_common(void *a, size_t n, int pr, int fl, int fd, off_t o) { REAL(void *, mmap, void *, size_t, int, int, int, off_t);
  if (fd >= 0 && tracked(fd)) { ev_t *e = logev(OP_MMAP, fdpath[fd], 0, o, (long)n); long g = 0; int f = step(OP_MMAP, fdpath[fd], e, &g);
    if (f == F_CRASH_BEFORE || f == F_CRASH_TORN || f == F_CRASH_AFTER) crash(); if (f == F_ERR) { errno = (int)g; e->res = -g; return MAP_FAILED; } }
  return real_mmap(a, n, pr, fl, fd, o); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return map_common(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) { return map_common(a, n, pr, fl, fd, o); }

/* ---- clocks ---- */
int clock_gettime(clockid_t id, struct timespec *ts) { REAL(int, clock_gettime, clockid_t, struct timespec *);
  if (!vclock) return real_clock_gettime(id, ts);
  vcalls++; vnow_real += vstep; vnow_mono += vstep;
  int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? vnow_real : vnow_mono;
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; } return 0; }
int gettimeofday(struct timeval *tv, void *tz) { REAL(int, gettimeofday, struct timeval *, void *);
  if (!vclock) return real_gettimeofday(tv, tz);
  vcalls++; vnow_real += vstep; vnow_mono += vstep; tv->tv_sec = vnow_real / 1000000000; tv->tv_usec = (vnow_real % 1000000000) / 1000; return 0; }
time_t time(time_t *t) { REAL(time_t, time, time_t *); if (!vclock) return real_time(t);
  vcalls++; time_t v = vnow_real / 1000000000; if (t) *t = v; return v; }
