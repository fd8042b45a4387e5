// LD_PRELOAD shim: every file-system call of the process on files below the simulated root stops
// before and after it runs and asks the driver what happens. Randomness, clocks and the process
// id come from the driver too. Nothing outside the root can be opened for writing.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OPEN = 1, WRITE, READ, FSYNC, RENAME, UNLINK, TRUNC, LINK, CLOSE, OTHER };
struct req { uint32_t stage, op, flags, err; int64_t len, res; uint64_t ino; char a[200], b[200]; };
struct rsp { uint32_t act, err; int64_t n; };  // act: 0 run, 1 fail with err, 2 only n bytes, 3 return n without running

static int rq = -1, rs = -1, simpid, ready;
static uint64_t rnd = 1, now_ns;
static char root[512];
static unsigned char mine[4096], append_fd[4096];
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *e = getenv("SIMFS");
  if (!e) return;
  unsigned long long seed = 1;
  int a = -1, b = -1, p = 1;
  if (sscanf(e, "%d,%d,%d,%llu,%500s", &a, &b, &p, &seed, root) != 5) _exit(99);
  rq = a; rs = b; simpid = p; rnd = seed; now_ns = (seed % 1000000007ULL) * 1000000000ULL;
}
__attribute__((constructor)) static void ctor(void) { init(); }

static void raw_write(const void *p, size_t n) {
  const char *c = p;
  while (n) { long r = syscall(SYS_write, rq, c, n); if (r < 0) { if (errno == EINTR) continue; syscall(SYS_exit_group, 98); } c += r; n -= r; }
}
static void raw_read(void *p, size_t n) {
  char *c = p;
  while (n) { long r = syscall(SYS_read, rs, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) syscall(SYS_exit_group, 98); c += r; n -= r; }
}
static struct rsp ask(uint32_t stage, uint32_t op, uint32_t flags, int64_t len, uint64_t ino, const char *a, const char *b, int64_t res, int err) {
  struct req q; struct rsp r;
  memset(&q, 0, sizeof q);
  q.stage = stage; q.op = op; q.flags = flags; q.len = len; q.res = res; q.err = err; q.ino = ino;
  if (a) snprintf(q.a, sizeof q.a, "%s", a);
  if (b) snprintf(q.b, sizeof q.b, "%s", b);
  raw_write(&q, sizeof q);
  raw_read(&r, sizeof r);
  return r;
}
static uint64_t inode(int fd) { struct stat st; return fd >= 0 && syscall(SYS_fstat, fd, &st) == 0 ? st.st_ino : 0; }
static int under(const char *p) { return rq >= 0 && p && (p[0] != '/' || !strncmp(p, root, strlen(root))); }
static int isfd(int fd) { return rq >= 0 && fd >= 0 && fd < 4096 && mine[fd]; }

// BODY runs the real call into `res` (-1 and errno on failure)
#define RUN(OP, FLAGS, LEN, INO, A, B, BODY)                                                         \
  do {                                                                                               \
    pthread_mutex_lock(&mu);                                                                         \
    struct rsp r_ = ask(0, OP, FLAGS, LEN, INO, A, B, 0, 0);                                         \
    int64_t lim = r_.act == 2 ? r_.n : (int64_t)(LEN); (void)lim;                                    \
    long res; int er = 0;                                                                            \
    if (r_.act == 1) { res = -1; er = r_.err; }                                                      \
    else if (r_.act == 3) { res = r_.n; }                                                            \
    else { errno = 0; BODY; er = res < 0 ? errno : 0; }                                              \
    uint64_t i_ = (OP) == OPEN && res >= 0 ? inode((int)res) : (uint64_t)(INO);                      \
    ask(1, OP, FLAGS, LEN, i_, A, B, res, er);                                                       \
    pthread_mutex_unlock(&mu);                                                                       \
    if (res < 0) { errno = er; return -1; }                                                          \
    return res;                                                                                      \
  } while (0)

static int do_open(int dir, const char *p, int fl, int mode) {
  init();
  if (!under(p) || (dir != AT_FDCWD && p[0] != '/')) {
    if (rq >= 0 && (fl & O_ACCMODE) != O_RDONLY && strcmp(p, "/dev/null") && strncmp(p, "/proc/", 6)) { errno = EACCES; return -1; }
    return syscall(SYS_openat, dir, p, fl, mode);
  }
  RUN(OPEN, fl, 0, 0, p, 0, {
    res = syscall(SYS_openat, AT_FDCWD, p, fl | O_CLOEXEC, mode);
    if (res >= 0 && res < 4096) { mine[res] = 1; append_fd[res] = !!(fl & O_APPEND); }
  });
}
#define MODE int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, int); va_end(v); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n) {
  init();
  if (!isfd(fd)) return syscall(SYS_write, fd, b, n);
  RUN(WRITE, 0, n, inode(fd), 0, 0, { res = syscall(SYS_write, fd, b, lim); });
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  init();
  if (!isfd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  RUN(WRITE, 0, n, inode(fd), 0, 0, { res = syscall(SYS_pwrite64, fd, b, lim, o); });
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int k) {
  init();
  if (!isfd(fd)) return syscall(SYS_writev, fd, v, k);
  size_t n = 0;
  for (int i = 0; i < k; i++) n += v[i].iov_len;
  RUN(WRITE, 0, n, inode(fd), 0, 0, {
    res = 0;
    for (int i = 0; i < k && lim > 0; i++) {
      size_t c = (int64_t)v[i].iov_len < lim ? v[i].iov_len : (size_t)lim;
      long w = c ? syscall(SYS_write, fd, v[i].iov_base, c) : 0;
      if (w < 0) { if (!res) res = -1; break; }
      res += w; lim -= w;
    }
  });
}
ssize_t read(int fd, void *b, size_t n) {
  init();
  if (!isfd(fd)) return syscall(SYS_read, fd, b, n);
  RUN(READ, 0, n, inode(fd), 0, 0, { res = syscall(SYS_read, fd, b, lim); });
}
// durability is simulated by the driver: the real call is not made
int fsync(int fd) {
  init();
  if (!isfd(fd)) return syscall(SYS_fsync, fd);
  RUN(FSYNC, 0, 0, inode(fd), 0, 0, { res = 0; });
}
int fdatasync(int fd) { return fsync(fd); }
int syncfs(int fd) { return fsync(fd); }
int rename(const char *a, const char *b) {
  init();
  if (rq < 0) return syscall(SYS_rename, a, b);
  if (!under(a) || !under(b)) { errno = EACCES; return -1; }
  RUN(RENAME, 0, 0, 0, a, b, { res = syscall(SYS_rename, a, b); });
}
int renameat(int d, const char *a, int e, const char *b) { (void)d; (void)e; return rename(a, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
  init();
  (void)d; (void)e;
  if (rq < 0) return syscall(SYS_renameat2, d, a, e, b, f);
  if (!under(a) || !under(b)) { errno = EACCES; return -1; }
  RUN(RENAME, 0, 0, 0, a, b, { res = syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, f); });
}
int unlink(const char *a) {
  init();
  if (rq < 0) return syscall(SYS_unlink, a);
  if (!under(a)) { errno = EACCES; return -1; }
  RUN(UNLINK, 0, 0, 0, a, 0, { res = syscall(SYS_unlink, a); });
}
int unlinkat(int d, const char *a, int f) {
  init();
  if (rq < 0) return syscall(SYS_unlinkat, d, a, f);
  if (!under(a)) { errno = EACCES; return -1; }
  RUN(UNLINK, 0, 0, 0, a, 0, { res = syscall(SYS_unlinkat, d, a, f); });
}
int link(const char *a, const char *b) {
  init();
  if (rq < 0) return syscall(SYS_link, a, b);
  if (!under(a) || !under(b)) { errno = EACCES; return -1; }
  RUN(LINK, 0, 0, 0, a, b, { res = syscall(SYS_link, a, b); });
}
int linkat(int d, const char *a, int e, const char *b, int f) {
  init();
  if (rq < 0) return syscall(SYS_linkat, d, a, e, b, f);
  if (!under(b)) { errno = EACCES; return -1; }
  RUN(LINK, 0, 0, 0, a, b, { res = syscall(SYS_linkat, d, a, e, b, f); });
}
int ftruncate64(int fd, off_t n) {
  init();
  if (!isfd(fd)) return syscall(SYS_ftruncate, fd, n);
  RUN(TRUNC, 0, 0, inode(fd), 0, 0, { res = syscall(SYS_ftruncate, fd, n); });
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off_t n) {
  init();
  if (rq < 0) return syscall(SYS_truncate, p, n);
  if (!under(p)) { errno = EACCES; return -1; }
  RUN(TRUNC, 0, 0, 0, p, 0, { res = syscall(SYS_truncate, p, n); });
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int fallocate64(int fd, int m, off_t o, off_t n) {
  init();
  if (!isfd(fd)) return syscall(SYS_fallocate, fd, m, o, n);
  RUN(TRUNC, 0, 0, inode(fd), 0, 0, { res = syscall(SYS_fallocate, fd, m, o, n); });
}
int fallocate(int fd, int m, off_t o, off_t n) { return fallocate64(fd, m, o, n); }
int posix_fallocate64(int fd, off_t o, off_t n) { return fallocate64(fd, 0, o, n) < 0 ? errno : 0; }
int posix_fallocate(int fd, off_t o, off_t n) { return posix_fallocate64(fd, o, n); }
// kernel-side copies: not offered, callers fall back to read and write
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) {
  init();
  if (rq < 0) return syscall(SYS_copy_file_range, a, x, b, y, n, f);
  errno = ENOSYS; return -1;
}
ssize_t sendfile64(int o, int i, off_t *x, size_t n) {
  init();
  if (rq < 0) return syscall(SYS_sendfile, o, i, x, n);
  errno = EINVAL; return -1;
}
ssize_t sendfile(int o, int i, off_t *x, size_t n) { return sendfile64(o, i, x, n); }
// a lock that is taken is a wait the driver can see: it lets somebody else move and asks again
static int lock_loop(int fd, int (*try)(int, long, void *), long a, void *b) {
  for (;;) {
    pthread_mutex_lock(&mu);
    struct rsp r = ask(0, OTHER, 0, 0, inode(fd), "lock", 0, 0, 0);
    int res = -1, er = 0;
    if (r.act == 1) er = r.err; else { errno = 0; res = try(fd, a, b); er = res < 0 ? errno : 0; }
    int wait = res < 0 && (er == EWOULDBLOCK || er == EAGAIN || er == EACCES);
    ask(1, OTHER, wait, 0, inode(fd), wait ? "lock-wait" : "lock", 0, res, er);
    pthread_mutex_unlock(&mu);
    if (!wait) { errno = er; return res; }
  }
}
static int try_flock(int fd, long op, void *b) { (void)b; return syscall(SYS_flock, fd, op | 4); }
static int try_setlk(int fd, long cmd, void *b) { return syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, b); }
int flock(int fd, int op) {
  init();
  if (!isfd(fd)) return syscall(SYS_flock, fd, op);
  if (!(op & 4) && !(op & 8)) return lock_loop(fd, try_flock, op, 0);
  RUN(OTHER, 0, 0, inode(fd), "lock", 0, { res = syscall(SYS_flock, fd, op); });
}
int fcntl64(int fd, int cmd, ...) {
  va_list v; va_start(v, cmd); void *arg = va_arg(v, void *); va_end(v);
  init();
  if (isfd(fd) && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) return lock_loop(fd, try_setlk, cmd, arg);
  long r = syscall(SYS_fcntl, fd, cmd, arg);
  if (isfd(fd) && r >= 0 && r < 4096 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) mine[r] = 1;
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list v; va_start(v, cmd); void *arg = va_arg(v, void *); va_end(v); return fcntl64(fd, cmd, arg); }
int dup(int fd) { init(); long r = syscall(SYS_dup, fd); if (isfd(fd) && r >= 0 && r < 4096) mine[r] = 1; return r; }
int mkdir(const char *p, mode_t m) {
  init();
  if (rq < 0) return syscall(SYS_mkdir, p, m);
  if (!under(p)) { errno = EACCES; return -1; }
  RUN(OTHER, 0, 0, 0, p, 0, { res = syscall(SYS_mkdir, p, m); });
}
int close(int fd) {
  init();
  if (!isfd(fd)) return syscall(SYS_close, fd);
  mine[fd] = 0;
  RUN(CLOSE, 0, 0, inode(fd), 0, 0, { res = syscall(SYS_close, fd); });
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  init();
  if (isfd(fd) && (pr & 2) && (fl & 1)) { errno = ENODEV; return (void *)-1; }
  return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}

pid_t getpid(void) { init(); return rq >= 0 ? simpid : (pid_t)syscall(SYS_getpid); }
static uint64_t next(void) {
  rnd += 0x9E3779B97F4A7C15ULL;
  uint64_t z = rnd;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
ssize_t getrandom(void *p, size_t n, unsigned f) {
  init();
  if (rq < 0) return syscall(SYS_getrandom, p, n, f);
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next();
  return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  init();
  if (rq < 0) return syscall(SYS_clock_gettime, c, t);
  now_ns += 1000 + next() % 100000;
  t->tv_sec = now_ns / 1000000000ULL; t->tv_nsec = now_ns % 1000000000ULL;
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  (void)z;
  struct timespec s; clock_gettime(0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) { struct timespec s; clock_gettime(0, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
int nanosleep(const struct timespec *t, struct timespec *r) {
  init();
  if (rq < 0) return syscall(SYS_nanosleep, t, r);
  now_ns += t->tv_sec * 1000000000ULL + t->tv_nsec;
  pthread_mutex_lock(&mu);
  ask(0, OTHER, 0, 0, 0, "sleep", 0, 0, 0);
  ask(1, OTHER, 0, 0, 0, "sleep", 0, 0, 0);
  pthread_mutex_unlock(&mu);
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { (void)c; (void)f; return nanosleep(t, r); }
