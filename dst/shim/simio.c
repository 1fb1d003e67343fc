/* simio: LD_PRELOAD seam between the process and the file system.
 *
 * Calls on paths below a registered prefix are numbered and logged while armed, and can
 * be made to fail, be short, or be preceded by an action of a simulated other program.
 * Everything else passes through untouched.  Decides nothing by itself: the plan is
 * given by the simulator (ctypes), so one seed is one execution.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { C_OPEN, C_READ, C_WRITE, C_TRUNC, C_SYNC, C_CLOSE, C_STAT, C_RENAME, C_UNLINK,
       C_DIR, C_LOCK, C_MKDIR, C_SEEK, C_LINK, NCLS };
enum { A_ERR = 1, A_SHORT = 2, A_RENAME = 3, A_UNLINK = 4, A_TRUNC = 5, A_TORN = 6, A_MODERR = 7 };

#define MAXFD 4096
#define MAXPLAN 64
#define MAXPATHLEN 1024

typedef struct { int cls, action, arg, fired; long nth, count; char s1[MAXPATHLEN], s2[MAXPATHLEN]; } plan_t;
typedef struct { long seq; int cls, err; long ret; uint64_t ino; long off, len; long data; int flags; int path, path2; } rec_t;

static char prefixes[8][MAXPATHLEN];
static int nprefix = 0;
static int armed = 0, want_data = 0;
static long opno = 0, ccount[NCLS], total[NCLS];
static plan_t plan[MAXPLAN];
static int nplan = 0;
static rec_t *recs = 0; static long nrec = 0, caprec = 0;
static char *dbuf = 0; static long ndata = 0, capdata = 0;
static char *pbuf = 0; static long npath = 0, cappath = 0;
static uint64_t dirseed = 0;
static char *fdpath[MAXFD];
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

static long raw_lseek(int fd, long off, int wh) { return syscall(SYS_lseek, fd, off, wh); }

static long savepath(const char *p) {
  long n = (long)strlen(p) + 1;
  if (npath + n > cappath) { cappath = (npath + n) * 2 + 4096; pbuf = realloc(pbuf, cappath); }
  memcpy(pbuf + npath, p, n);
  long r = npath; npath += n; return r;
}

static int normalise(const char *in, char *out) {
  char tmp[MAXPATHLEN * 2];
  if (!in || !*in) return 0;
  if (in[0] == '/') { if (strlen(in) >= MAXPATHLEN) return 0; strcpy(tmp, in); }
  else {
    if (syscall(SYS_getcwd, tmp, MAXPATHLEN) < 0) return 0;
    size_t l = strlen(tmp);
    if (l + strlen(in) + 2 >= MAXPATHLEN) return 0;
    tmp[l] = '/'; strcpy(tmp + l + 1, in);
  }
  char *o = out; *o = 0; char *s = tmp;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s; while (*e && *e != '/') e++;
    long n = e - s;
    if (n == 1 && s[0] == '.') { }
    else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/') ; *o = 0; }
    else { *o++ = '/'; memcpy(o, s, n); o += n; *o = 0; }
    s = e;
  }
  if (o == out) { *o++ = '/'; *o = 0; }
  return 1;
}

static int under(const char *p) {
  for (int i = 0; i < nprefix; i++) {
    size_t l = strlen(prefixes[i]);
    if (l == 1 || (!strncmp(p, prefixes[i], l) && (p[l] == 0 || p[l] == '/'))) return 1;
  }
  return 0;
}

/* returns 1 and fills out if the path is watched */
static int watched(int dirfd, const char *path, char *out) {
  if (!nprefix || !path) return 0;
  if (path[0] != '/' && dirfd != AT_FDCWD) {
    if (dirfd < 0 || dirfd >= MAXFD || !fdpath[dirfd]) return 0;
    char j[MAXPATHLEN * 2];
    snprintf(j, sizeof j, "%s/%s", fdpath[dirfd], path);
    return normalise(j, out) && under(out);
  }
  return normalise(path, out) && under(out);
}

static int fdwatched(int fd) { return fd >= 0 && fd < MAXFD && fdpath[fd] != 0; }
static uint64_t fdino(int fd) { struct stat st; return syscall(SYS_newfstatat, fd, "", &st, AT_EMPTY_PATH) == 0 ? st.st_ino : 0; }

static rec_t *newrec(int cls) {
  static rec_t spare;
  if (nrec > 400000) { memset(&spare, 0, sizeof spare); return &spare; }
  if (nrec == caprec) { caprec = caprec ? caprec * 2 : 1024; recs = realloc(recs, caprec * sizeof(rec_t)); }
  rec_t *r = &recs[nrec++];
  memset(r, 0, sizeof *r);
  r->seq = opno; r->cls = cls; r->data = -1; r->path = -1; r->path2 = -1;
  return r;
}

/* one intercepted operation is about to happen: returns errno to inject (>0), 0 for
 * none, -2 for a short transfer (limit in *lim), -3 for a torn one (limit, then errno in *terr) */
static int step(int cls, long *lim, int *terr) {
  total[cls]++;
  if (!armed) return 0;
  opno++;
  long n = ccount[cls]++;
  int res = 0;
  int ismod = cls == C_WRITE || cls == C_TRUNC || cls == C_SYNC || cls == C_RENAME || cls == C_UNLINK || cls == C_MKDIR || cls == C_LINK;
  for (int i = 0; i < nplan; i++) {
    plan_t *p = &plan[i];
    long idx = p->cls < 0 ? opno - 1 : n;
    if (p->cls >= 0 && p->cls != cls) continue;
    if (idx < p->nth || (p->count >= 0 && idx >= p->nth + p->count)) continue;
    switch (p->action) {
      case A_ERR: if (!res && !(p->cls < 0 && cls == C_CLOSE)) { res = p->arg; p->fired++; } break;
      case A_MODERR: if (!res && ismod) { res = p->arg; p->fired++; } break;
      case A_SHORT: if (!res && (cls == C_READ || cls == C_WRITE)) { res = -2; *lim = p->arg; p->fired++; } break;
      case A_TORN: if (!res && cls == C_WRITE) { res = -3; *lim = p->arg; *terr = ENOSPC; p->fired++; } break;
      case A_RENAME: if (!p->fired && syscall(SYS_rename, p->s1, p->s2) == 0) p->fired++; break;
      case A_UNLINK: if (!p->fired && syscall(SYS_unlink, p->s1) == 0) p->fired++; break;
      case A_TRUNC: if (!p->fired && syscall(SYS_truncate, p->s1, (long)p->arg) == 0) p->fired++; break;
    }
  }
  return res;
}

/* ---- control interface ---- */
void sim_reset(void) { pthread_mutex_lock(&mu); nplan = 0; armed = 0; opno = 0; nrec = 0; ndata = 0; npath = 0; memset(ccount, 0, sizeof ccount); pthread_mutex_unlock(&mu); }
void sim_clear_prefixes(void) { nprefix = 0; }
int sim_add_prefix(const char *p) { if (nprefix >= 8) return -1; normalise(p, prefixes[nprefix]); return nprefix++; }
void sim_arm(int data) { armed = 1; want_data = data; }
void sim_disarm(void) { armed = 0; }
int sim_plan(int cls, long nth, long count, int action, int arg, const char *s1, const char *s2) {
  if (nplan >= MAXPLAN) return -1;
  plan_t *p = &plan[nplan];
  memset(p, 0, sizeof *p);
  p->cls = cls; p->nth = nth; p->count = count; p->action = action; p->arg = arg;
  if (s1) snprintf(p->s1, MAXPATHLEN, "%s", s1);
  if (s2) snprintf(p->s2, MAXPATHLEN, "%s", s2);
  return nplan++;
}
int sim_fired(int i) { return i < nplan ? plan[i].fired : -1; }
long sim_ops(void) { return opno; }
long sim_count(int cls) { return ccount[cls]; }
long sim_total(int cls) { return total[cls]; }
long sim_nrec(void) { return nrec; }
const rec_t *sim_rec(long i) { return &recs[i]; }
const char *sim_data(void) { return dbuf; }
const char *sim_paths(void) { return pbuf; }
void sim_dirseed(uint64_t s) { dirseed = s; }
int sim_version(void) { return 3; }

#define REAL(name) ({ static __typeof__(&name) f = 0; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })
#define LOCK pthread_mutex_lock(&mu)
#define UNLOCK pthread_mutex_unlock(&mu)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char p[MAXPATHLEN * 2];
  if (!watched(dirfd, path, p)) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
  LOCK;
  long lim; int te; int e = step(C_OPEN, &lim, &te);
  int existed = syscall(SYS_faccessat, dirfd, path, F_OK) == 0;
  int r = -1;
  if (e > 0) errno = e;
  else r = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  int se = errno;
  if (armed) { rec_t *q = newrec(C_OPEN); q->path = savepath(p); q->ret = r; q->err = r < 0 ? se : 0; q->flags = flags; q->len = existed; q->ino = r >= 0 ? fdino(r) : 0; }
  if (r >= 0 && r < MAXFD) { free(fdpath[r]); fdpath[r] = strdup(p); }
  UNLOCK; errno = se; return r;
}

#define OPENARGS mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { OPENARGS; return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPENARGS; return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { OPENARGS; return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { OPENARGS; return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
  if (!fdwatched(fd)) return (int)syscall(SYS_close, fd);
  LOCK;
  long lim; int te; int e = step(C_CLOSE, &lim, &te);
  uint64_t ino = fdino(fd);
  int r = (int)syscall(SYS_close, fd); int se = errno;
  if (armed) { rec_t *q = newrec(C_CLOSE); q->ino = ino; q->ret = r; q->path = savepath(fdpath[fd]); }
  free(fdpath[fd]); fdpath[fd] = 0;
  if (e > 0) { r = -1; se = e; }   /* like Linux: the descriptor is gone even if close reports an error */
  UNLOCK; errno = se; return r;
}

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int at) {
  if (!fdwatched(fd)) return at ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
  LOCK;
  long lim = 0; int te; int e = step(C_READ, &lim, &te);
  ssize_t r = -1; int se = 0;
  if (e > 0) se = e;
  else {
    size_t m = n;
    if (e == -2 && n > 1) { m = lim > 0 && (size_t)lim < n ? (size_t)lim : (n + 1) / 2; }
    r = at ? syscall(SYS_pread64, fd, buf, m, off) : syscall(SYS_read, fd, buf, m); se = errno;
  }
  if (armed) { rec_t *q = newrec(C_READ); q->ino = fdino(fd); q->ret = r; q->err = r < 0 ? se : 0; q->off = at ? off : -1; q->len = n; }
  UNLOCK; errno = se; return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return do_read(fd, b, n, 0, 0); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!fdwatched(fd)) return syscall(SYS_readv, fd, v, c);
  return c > 0 ? do_read(fd, v[0].iov_base, v[0].iov_len, 0, 0) : 0;
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int at) {
  if (!fdwatched(fd)) return at ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
  LOCK;
  long lim = 0; int te = 0; int e = step(C_WRITE, &lim, &te);
  ssize_t r = -1; int se = 0; long o = off;
  if (!at) {
    o = raw_lseek(fd, 0, SEEK_CUR);
    if (syscall(SYS_fcntl, fd, F_GETFL) & O_APPEND) { struct stat st; if (!syscall(SYS_newfstatat, fd, "", &st, AT_EMPTY_PATH)) o = st.st_size; }
  }
  if (e > 0) se = e;
  else {
    size_t m = n;
    if (e == -2 && n > 1) m = lim > 0 && (size_t)lim < n ? (size_t)lim : (n + 1) / 2;
    if (e == -3) m = lim > 0 && (size_t)lim < n ? (size_t)lim : n / 2;
    r = m || e != -3 ? (at ? syscall(SYS_pwrite64, fd, buf, m, off) : syscall(SYS_write, fd, buf, m)) : 0; se = errno;
    if (armed && r > 0) {
      rec_t *q = newrec(C_WRITE); q->ino = fdino(fd); q->ret = r; q->off = o; q->len = r;
      if (want_data) {
        if (ndata + r > capdata) { capdata = (ndata + r) * 2 + 65536; dbuf = realloc(dbuf, capdata); }
        memcpy(dbuf + ndata, buf, r); q->data = ndata; ndata += r;
      }
    }
    if (e == -3) { r = -1; se = te; }
  }
  UNLOCK; errno = se; return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!fdwatched(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}
ssize_t sendfile64(int o, int i, off64_t *of, size_t n) {
  if (fdwatched(o) || fdwatched(i)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, o, i, of, n);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
  if (fdwatched(o) || fdwatched(i)) { errno = EXDEV; return -1; }
  return syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
}

static int do_ftruncate(int fd, off_t len) {
  if (!fdwatched(fd)) return (int)syscall(SYS_ftruncate, fd, len);
  LOCK; long lim; int te; int e = step(C_TRUNC, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else { r = (int)syscall(SYS_ftruncate, fd, len); se = errno; }
  if (armed && r == 0) { rec_t *q = newrec(C_TRUNC); q->ino = fdino(fd); q->len = len; }
  UNLOCK; errno = se; return r;
}
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { return do_ftruncate(fd, l); }
int posix_fallocate64(int fd, off64_t o, off64_t l) {
  if (fdwatched(fd)) return EOPNOTSUPP;
  int r = (int)syscall(SYS_fallocate, fd, 0, o, l); return r < 0 ? errno : 0;
}

static int do_sync(int fd, int nr) {
  if (!fdwatched(fd)) return (int)syscall(nr, fd);
  LOCK; long lim; int te; int e = step(C_SYNC, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else r = 0;   /* real sync skipped: durability is modelled from the log */
  if (armed && r == 0) { rec_t *q = newrec(C_SYNC); q->ino = fdino(fd); q->path = savepath(fdpath[fd]); }
  UNLOCK; errno = se; return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_stat(int dirfd, const char *path, struct stat *st, int flags, int *handled) {
  char p[MAXPATHLEN * 2];
  *handled = 1;
  if (path && *path) { if (!watched(dirfd, path, p)) { *handled = 0; return 0; } }
  else if (!fdwatched(dirfd)) { *handled = 0; return 0; }
  LOCK; long lim; int te; int e = step(C_STAT, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e;
  else { r = (int)syscall(SYS_newfstatat, dirfd, path ? path : "", st, flags | (path && *path ? 0 : AT_EMPTY_PATH)); se = errno; }
  if (armed) { rec_t *q = newrec(C_STAT); q->ret = r; q->err = r < 0 ? se : 0; if (path && *path) q->path = savepath(p); }
  UNLOCK; errno = se; return r;
}
#define STATIMPL(d, p, st, f) int h; int r = do_stat(d, p, (struct stat *)(st), f, &h); if (h) return r; \
  return (int)syscall(SYS_newfstatat, d, p, st, f)
int stat(const char *restrict p, struct stat *restrict st) { STATIMPL(AT_FDCWD, p, st, 0); }
int stat64(const char *restrict p, struct stat64 *restrict st) { STATIMPL(AT_FDCWD, p, st, 0); }
int lstat(const char *restrict p, struct stat *restrict st) { STATIMPL(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *restrict p, struct stat64 *restrict st) { STATIMPL(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *restrict p, struct stat *restrict st, int f) { STATIMPL(d, p, st, f); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict st, int f) { STATIMPL(d, p, st, f); }
int fstat(int fd, struct stat *st) { STATIMPL(fd, "", st, AT_EMPTY_PATH); }
int fstat64(int fd, struct stat64 *st) { STATIMPL(fd, "", st, AT_EMPTY_PATH); }
int __xstat64(int v, const char *p, struct stat64 *st) { (void)v; STATIMPL(AT_FDCWD, p, st, 0); }
int __lxstat64(int v, const char *p, struct stat64 *st) { (void)v; STATIMPL(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int __fxstat64(int v, int fd, struct stat64 *st) { (void)v; STATIMPL(fd, "", st, AT_EMPTY_PATH); }
int __xstat(int v, const char *p, struct stat *st) { (void)v; STATIMPL(AT_FDCWD, p, st, 0); }
int __lxstat(int v, const char *p, struct stat *st) { (void)v; STATIMPL(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int __fxstat(int v, int fd, struct stat *st) { (void)v; STATIMPL(fd, "", st, AT_EMPTY_PATH); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict st) {
  char q[MAXPATHLEN * 2];
  int w = (p && *p) ? watched(d, p, q) : fdwatched(d);
  if (!w) return (int)syscall(SYS_statx, d, p, f, m, st);
  LOCK; long lim; int te; int e = step(C_STAT, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else { r = (int)syscall(SYS_statx, d, p, f, m, st); se = errno; }
  UNLOCK; errno = se; return r;
}
int access(const char *p, int mode) {
  char q[MAXPATHLEN * 2];
  if (!watched(AT_FDCWD, p, q)) return (int)syscall(SYS_faccessat, AT_FDCWD, p, mode);
  LOCK; long lim; int te; int e = step(C_STAT, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else { r = (int)syscall(SYS_faccessat, AT_FDCWD, p, mode); se = errno; }
  UNLOCK; errno = se; return r;
}

static int do_rename(int d1, const char *a, int d2, const char *b) {
  char p[MAXPATHLEN * 2], q[MAXPATHLEN * 2];
  int w1 = watched(d1, a, p), w2 = watched(d2, b, q);
  if (!w1 && !w2) return (int)syscall(SYS_renameat, d1, a, d2, b);
  LOCK; long lim; int te; int e = step(C_RENAME, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else { r = (int)syscall(SYS_renameat, d1, a, d2, b); se = errno; }
  if (armed && r == 0) { int i1 = (int)savepath(w1 ? p : a), i2 = (int)savepath(w2 ? q : b); rec_t *x = newrec(C_RENAME); x->path = i1; x->path2 = i2; }
  UNLOCK; errno = se; return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b); }
int link(const char *a, const char *b) {
  char p[MAXPATHLEN * 2], q[MAXPATHLEN * 2];
  int w1 = watched(AT_FDCWD, a, p), w2 = watched(AT_FDCWD, b, q);
  if (!w1 && !w2) return (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
  LOCK; long lim; int te; int e = step(C_LINK, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else { r = (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); se = errno; }
  if (armed && r == 0) { int i1 = (int)savepath(p), i2 = (int)savepath(q); rec_t *x = newrec(C_LINK); x->path = i1; x->path2 = i2; }
  UNLOCK; errno = se; return r;
}
static int do_unlink(int d, const char *a, int f) {
  char p[MAXPATHLEN * 2];
  if (!watched(d, a, p)) return (int)syscall(SYS_unlinkat, d, a, f);
  LOCK; long lim; int te; int e = step(C_UNLINK, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else { r = (int)syscall(SYS_unlinkat, d, a, f); se = errno; }
  if (armed && r == 0) { int i = (int)savepath(p); rec_t *x = newrec(C_UNLINK); x->path = i; x->flags = f; }
  UNLOCK; errno = se; return r;
}
int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int f) { return do_unlink(d, a, f); }
int rmdir(const char *a) { return do_unlink(AT_FDCWD, a, AT_REMOVEDIR); }
static int do_mkdir(int d, const char *a, mode_t m) {
  char p[MAXPATHLEN * 2];
  if (!watched(d, a, p)) return (int)syscall(SYS_mkdirat, d, a, m);
  LOCK; long lim; int te; int e = step(C_MKDIR, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else { r = (int)syscall(SYS_mkdirat, d, a, m); se = errno; }
  if (armed && r == 0) { int i = (int)savepath(p); rec_t *x = newrec(C_MKDIR); x->path = i; }
  UNLOCK; errno = se; return r;
}
int mkdir(const char *a, mode_t m) { return do_mkdir(AT_FDCWD, a, m); }
int mkdirat(int d, const char *a, mode_t m) { return do_mkdir(d, a, m); }
int flock(int fd, int op) {
  if (!fdwatched(fd)) return (int)syscall(SYS_flock, fd, op);
  LOCK; long lim; int te; int e = step(C_LOCK, &lim, &te); int r = -1, se = 0;
  if (e > 0) se = e; else { r = (int)syscall(SYS_flock, fd, op); se = errno; }
  UNLOCK; errno = se; return r;
}

/* ---- directory listing: order decided by the seed ---- */
typedef struct simdir { DIR *d; struct dirent64 *ents; long n, i; struct simdir *next; } simdir;
static simdir *dirs = 0;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static int cmpent(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }

static DIR *reg_dir(DIR *d, const char *p) {
  if (!d) return d;
  struct dirent64 *(*rd)(DIR *) = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
  simdir *s = calloc(1, sizeof *s);
  s->d = d; long cap = 16; s->ents = malloc(cap * sizeof(struct dirent64));
  struct dirent64 *e;
  while ((e = rd(d))) { if (s->n == cap) { cap *= 2; s->ents = realloc(s->ents, cap * sizeof(struct dirent64)); } memcpy(&s->ents[s->n++], e, sizeof *e < (size_t)e->d_reclen ? sizeof *e : e->d_reclen); }
  qsort(s->ents, s->n, sizeof(struct dirent64), cmpent);
  uint64_t x = dirseed; for (const char *c = p; *c; c++) x = mix(x ^ (unsigned char)*c);
  if (dirseed) for (long i = s->n - 1; i > 0; i--) { x = mix(x + 0x9e3779b97f4a7c15ULL); long j = x % (i + 1); struct dirent64 t = s->ents[i]; s->ents[i] = s->ents[j]; s->ents[j] = t; }
  s->next = dirs; dirs = s;
  return d;
}
DIR *opendir(const char *path) {
  char p[MAXPATHLEN * 2];
  DIR *(*real)(const char *) = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
  if (!watched(AT_FDCWD, path, p)) return real(path);
  LOCK; long lim; int te; int e = step(C_DIR, &lim, &te);
  if (e > 0) { UNLOCK; errno = e; return 0; }
  DIR *d = reg_dir(real(path), p); int se = errno;
  UNLOCK; errno = se; return d;
}
DIR *fdopendir(int fd) {
  DIR *(*real)(int) = (DIR * (*)(int)) dlsym(RTLD_NEXT, "fdopendir");
  if (!fdwatched(fd)) return real(fd);
  LOCK; DIR *d = reg_dir(real(fd), fdpath[fd]); int se = errno; UNLOCK; errno = se; return d;
}
struct dirent64 *readdir64(DIR *d) {
  LOCK;
  for (simdir *s = dirs; s; s = s->next) if (s->d == d) { struct dirent64 *e = s->i < s->n ? &s->ents[s->i++] : 0; UNLOCK; return e; }
  UNLOCK;
  static struct dirent64 *(*real)(DIR *) = 0;
  if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
  return real(d);
}
void rewinddir(DIR *d) {
  LOCK;
  for (simdir *s = dirs; s; s = s->next) if (s->d == d) s->i = 0;
  UNLOCK;
  void (*real)(DIR *) = (void (*)(DIR *)) dlsym(RTLD_NEXT, "rewinddir"); real(d);
}
int closedir(DIR *d) {
  LOCK;
  for (simdir **s = &dirs; *s; s = &(*s)->next) if ((*s)->d == d) { simdir *x = *s; *s = x->next; free(x->ents); free(x); break; }
  int fd = dirfd(d); if (fdwatched(fd)) { free(fdpath[fd]); fdpath[fd] = 0; }
  UNLOCK;
  int (*real)(DIR *) = (int (*)(DIR *)) dlsym(RTLD_NEXT, "closedir"); return real(d);
}
