// Simulated operating system surface of the prover: every file operation below the scratch directory
// is announced to the controller over a socket and happens, fails, is cut short or kills the process
// as the controller says. Process ids and random bytes come from the controller as well.
//
//   DST_FD     connected socket to the controller; absent: everything passes through
//   DST_DIR    the scratch directory (the process' working directory)
//   DST_PID    what getpid() returns
//   DST_RAND   seed of getrandom() and of the wall clock
//   DST_SERVE  become a fork server at the first operation after DST_GAP_MS of cpu time, on this socket
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define NFD 1024
static int ctl = -1;
static char root[1024];
static size_t rootlen;
static char *fdpath[NFD];
static uint64_t fdroll[NFD];  // running hash of the bytes read through a descriptor
static long opno = 0;
static long fakepid = 0;
static unsigned long long clockseed = 0;
static uint64_t rnd = 0;
static const char *serve = NULL;
static double gap_ms = 0, last_cpu = 0;

static double cpu_ms(void) {
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec * 1e3 + t.tv_nsec / 1e6;
}

static void die(void) {
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}

static void put(const void *p, size_t n) {
  const char *c = p;
  while (n) {
    ssize_t r = syscall(SYS_write, ctl, c, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) die();
    c += r;
    n -= r;
  }
}
static void getline_ctl(char *buf, size_t cap) {
  size_t i = 0;
  for (;;) {
    char c;
    ssize_t r = syscall(SYS_read, ctl, &c, 1);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) die();
    if (c == '\n') break;
    if (i + 1 < cap) buf[i++] = c;
  }
  buf[i] = 0;
}

__attribute__((constructor)) static void init(void) {
  char *s = getenv("DST_FD");
  if (!s) return;
  ctl = atoi(s);
  fcntl(ctl, F_SETFD, FD_CLOEXEC);
  s = getenv("DST_DIR");
  if (s) {
    strncpy(root, s, sizeof root - 1);
    rootlen = strlen(root);
  }
  s = getenv("DST_PID");
  if (s) fakepid = atol(s);
  s = getenv("DST_RAND");
  if (s) clockseed = rnd = strtoull(s, 0, 10) * 2 + 1;
  serve = getenv("DST_SERVE");
  s = getenv("DST_GAP_MS");
  if (s) gap_ms = atof(s);
  signal(SIGPIPE, SIG_IGN);
  last_cpu = cpu_ms();
}

// Path relative to the scratch directory, or NULL if it lies elsewhere.
static const char *rel(int dirfd, const char *p, char *buf, size_t cap) {
  if (ctl < 0 || !p) return NULL;
  char tmp[4096];
  if (p[0] == '/') {
    if (strncmp(p, root, rootlen) || (p[rootlen] != '/' && p[rootlen] != 0)) return NULL;
    snprintf(tmp, sizeof tmp, "%s", p + rootlen);
  } else if (dirfd == AT_FDCWD) {
    snprintf(tmp, sizeof tmp, "%s", p);
  } else if (dirfd >= 0 && dirfd < NFD && fdpath[dirfd]) {
    snprintf(tmp, sizeof tmp, "%s/%s", fdpath[dirfd], p);
  } else
    return NULL;
  // drop empty and "." components
  size_t o = 0;
  char *save = NULL;
  for (char *c = strtok_r(tmp, "/", &save); c; c = strtok_r(NULL, "/", &save)) {
    if (!strcmp(c, ".")) continue;
    size_t l = strlen(c);
    if (o + l + 2 > cap) return NULL;
    if (o) buf[o++] = '/';
    memcpy(buf + o, c, l);
    o += l;
  }
  buf[o] = 0;
  if (o == 0) snprintf(buf, cap, ".");
  return buf;
}

static void server_loop(void) {
  char buf[4096];
  int life = ctl;
  int ls = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  struct sockaddr_un a;
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, serve, sizeof a.sun_path - 1);
  if (bind(ls, (struct sockaddr *)&a, sizeof a) || listen(ls, 64)) die();
  snprintf(buf, sizeof buf, "GAP %ld\n", opno);
  put(buf, strlen(buf));
  serve = NULL;
  for (;;) {
    struct pollfd p[2] = {{ls, POLLIN, 0}, {life, POLLIN, 0}};
    int n = poll(p, 2, 1000);
    while (waitpid(-1, NULL, WNOHANG) > 0) {
    }
    if (n <= 0) continue;
    if (p[1].revents) die();  // the controller is gone
    if (!(p[0].revents & POLLIN)) continue;
    int c = accept4(ls, NULL, NULL, SOCK_CLOEXEC);
    if (c < 0) continue;
    pid_t mid = fork();
    if (mid < 0) {
      close(c);
      continue;
    }
    if (mid > 0) {
      syscall(SYS_close, c);
      continue;
    }
    // intermediate process of one simulated process
    syscall(SYS_close, ls);
    syscall(SYS_close, life);
    ctl = c;
    char line[2048];
    getline_ctl(line, sizeof line);  // RUN pid dir
    long pid = 0;
    char dir[1024] = "";
    sscanf(line, "RUN %ld %1023s", &pid, dir);
    pid_t child = fork();
    if (child == 0) {
      fakepid = pid;
      snprintf(root, sizeof root, "%s", dir);
      rootlen = strlen(root);
      if (chdir(dir)) die();
      return;  // goes on with the operation it was about to perform
    }
    int st = 0;
    while (waitpid(child, &st, 0) < 0 && errno == EINTR) {
    }
    snprintf(buf, sizeof buf, "X %d\n", st);
    put(buf, strlen(buf));
    syscall(SYS_exit_group, 0);
  }
}

struct verdict {
  char what;
  long arg;
};

// Announces an operation and returns what is to happen.
static struct verdict ask(const char *name, int fd, long a, long b, const char *path, size_t plen, const void *data,
                          size_t dlen) {
  if (serve && gap_ms > 0 && cpu_ms() - last_cpu > gap_ms) server_loop();
  char h[256];
  snprintf(h, sizeof h, "O %ld %s %d %ld %ld %zu %zu %.0f\n", opno, name, fd, a, b, plen, dlen, cpu_ms() - last_cpu);
  put(h, strlen(h));
  if (plen) put(path, plen);
  if (dlen) put(data, dlen);
  opno++;
  char line[128];
  getline_ctl(line, sizeof line);
  struct verdict v = {line[0], 0};
  if (line[1]) v.arg = atol(line + 1);
  if (v.what == 'K') die();
  return v;
}

static void done_fd(struct verdict v, long ret, int err, int fd, const void *data, long dlen) {
  uint64_t hsh = 0;
  if (fd >= 0 && fd < NFD) {
    hsh = fdroll[fd];
    for (long i = 0; i < dlen; i++) hsh = (hsh ^ ((const unsigned char *)data)[i]) * 0x100000001b3ull;
    fdroll[fd] = hsh;
  }
  char h[128];
  snprintf(h, sizeof h, "R %ld %d %llx\n", ret, ret < 0 ? err : 0, (unsigned long long)hsh);
  put(h, strlen(h));
  last_cpu = cpu_ms();
  if (v.what == 'D') {
    char line[16];
    getline_ctl(line, sizeof line);
    die();
  }
}

static void done(struct verdict v, long ret, int err, const void *data, long dlen) {
  (void)data;
  (void)dlen;
  done_fd(v, ret, err, -1, NULL, 0);
}

#define REAL(type, name, ...)                    \
  static type (*real)(__VA_ARGS__);              \
  if (!real) real = dlsym(RTLD_NEXT, #name);

// ------------------------------------------------------------------ open / close

static int do_open(const char *name, int dirfd, const char *path, int flags, mode_t mode) {
  char b[4096];
  const char *r = rel(dirfd, path, b, sizeof b);
  if (!r) {
    return syscall(SYS_openat, dirfd, path, flags, mode);
  }
  struct verdict v = ask(name, -1, flags, mode, r, strlen(r), NULL, 0);
  if (v.what == 'E') {
    done(v, -1, v.arg, NULL, 0);
    errno = v.arg;
    return -1;
  }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  int e = errno;
  if (fd >= 0 && fd < NFD) {
    free(fdpath[fd]);
    fdpath[fd] = strdup(r);
    fdroll[fd] = 0xcbf29ce484222325ull;
  }
  done(v, fd < 0 ? -1 : fd, e, NULL, 0);
  errno = e;
  return fd;
}

#define MODE                             \
  mode_t mode = 0;                       \
  if (flags & (O_CREAT | O_TMPFILE)) {   \
    va_list ap;                          \
    va_start(ap, flags);                 \
    mode = va_arg(ap, mode_t);           \
    va_end(ap);                          \
  }

int open(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open("open", d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open("open", d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open("open", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open("open", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int tracked(int fd) { return ctl >= 0 && fd >= 0 && fd < NFD && fdpath[fd]; }

int close(int fd) {
  if (!tracked(fd)) return syscall(SYS_close, fd);
  struct verdict v = ask("close", fd, 0, 0, fdpath[fd], strlen(fdpath[fd]), NULL, 0);
  int r = syscall(SYS_close, fd), e = errno;
  free(fdpath[fd]);
  fdpath[fd] = NULL;
  if (v.what == 'E') {
    r = -1;
    e = v.arg;
  }
  done(v, r, e, NULL, 0);
  errno = e;
  return r;
}

int dup(int fd) {
  int r = syscall(SYS_dup, fd);
  if (r >= 0 && r < NFD && tracked(fd)) fdpath[r] = strdup(fdpath[fd]);
  return r;
}

// ------------------------------------------------------------------ read / write

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int positioned) {
  struct verdict v = ask("read", fd, n, positioned ? off : -1, fdpath[fd], strlen(fdpath[fd]), NULL, 0);
  if (v.what == 'E') {
    done(v, -1, v.arg, NULL, 0);
    errno = v.arg;
    return -1;
  }
  if (v.what == 'S' && (size_t)v.arg < n) n = v.arg;
  ssize_t r = positioned ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
  int e = errno;
  done_fd(v, r, e, fd, buf, r);
  errno = e;
  return r;
}
ssize_t read(int fd, void *buf, size_t n) {
  if (!tracked(fd)) return syscall(SYS_read, fd, buf, n);
  return do_read(fd, buf, n, 0, 0);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
  if (!tracked(fd)) return syscall(SYS_pread64, fd, buf, n, off);
  return do_read(fd, buf, n, off, 1);
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return pread(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int positioned) {
  long at = positioned ? off : -1;
  if (!positioned) {
    int fl = syscall(SYS_fcntl, fd, F_GETFL);
    at = (fl & O_APPEND) ? syscall(SYS_lseek, fd, 0, SEEK_END) : syscall(SYS_lseek, fd, 0, SEEK_CUR);
  }
  struct verdict v = ask("write", fd, n, at, fdpath[fd], strlen(fdpath[fd]), buf, n);
  if (v.what == 'E') {
    done(v, -1, v.arg, NULL, 0);
    errno = v.arg;
    return -1;
  }
  if ((v.what == 'S' || v.what == 'T') && (size_t)v.arg < n) n = v.arg;
  ssize_t r = 0;
  if (n || v.what == 'G') r = positioned ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
  int e = errno;
  if (v.what == 'T') {
    done(v, r, e, NULL, 0);
    char line[16];
    getline_ctl(line, sizeof line);
    die();
  }
  done(v, r, e, NULL, 0);
  errno = e;
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (!tracked(fd)) return syscall(SYS_write, fd, buf, n);
  return do_write(fd, buf, n, 0, 0);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
  if (!tracked(fd)) return syscall(SYS_pwrite64, fd, buf, n, off);
  return do_write(fd, buf, n, off, 1);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}
// The kernel would copy behind our back: make the caller fall back to read and write.
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (tracked(a) || tracked(c)) {
    errno = ENOSYS;
    return -1;
  }
  return syscall(SYS_copy_file_range, a, b, c, d, n, f);
}
ssize_t sendfile(int a, int b, off_t *o, size_t n) {
  if (tracked(a) || tracked(b)) {
    errno = ENOSYS;
    return -1;
  }
  return syscall(SYS_sendfile, a, b, o, n);
}
ssize_t sendfile64(int a, int b, off_t *o, size_t n) { return sendfile(a, b, o, n); }

// ------------------------------------------------------------------ other operations on descriptors

static int fdop(const char *name, int fd, long a, int nr) {
  struct verdict v = ask(name, fd, a, 0, fdpath[fd], strlen(fdpath[fd]), NULL, 0);
  if (v.what == 'E') {
    done(v, -1, v.arg, NULL, 0);
    errno = v.arg;
    return -1;
  }
  int r = nr == SYS_ftruncate ? syscall(nr, fd, a) : nr == SYS_flock ? syscall(nr, fd, a) : syscall(nr, fd);
  int e = errno;
  done(v, r, e, NULL, 0);
  errno = e;
  return r;
}
int fsync(int fd) { return tracked(fd) ? fdop("fsync", fd, 0, SYS_fsync) : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return tracked(fd) ? fdop("fsync", fd, 1, SYS_fdatasync) : (int)syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t n) {
  return tracked(fd) ? fdop("truncate", fd, n, SYS_ftruncate) : (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
// A lock another simulated process holds is polled: the schedule decides when it is free.
int flock(int fd, int op) {
  if (!tracked(fd)) return syscall(SYS_flock, fd, op);
  for (;;) {
    int r = fdop("flock", fd, op | LOCK_NB, SYS_flock);
    if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return r;
  }
}

// ------------------------------------------------------------------ operations on names

static long nameop(const char *name, const char *a, const char *b, long x, int nr, long s1, long s2, long s3, long s4,
                   long s5) {
  char path[8400];
  size_t la = strlen(a), lb = b ? strlen(b) : 0;
  memcpy(path, a, la);
  size_t n = la;
  if (b) {
    path[n++] = 0;
    memcpy(path + n, b, lb);
    n += lb;
  }
  struct verdict v = ask(name, -1, x, 0, path, n, NULL, 0);
  if (v.what == 'E') {
    done(v, -1, v.arg, NULL, 0);
    errno = v.arg;
    return -1;
  }
  long r = syscall(nr, s1, s2, s3, s4, s5);
  int e = errno;
  done(v, r, e, NULL, 0);
  errno = e;
  return r;
}

int renameat2(int d1, const char *p1, int d2, const char *p2, unsigned fl) {
  char a[4096], b[4096];
  const char *x = rel(d1, p1, a, sizeof a), *y = rel(d2, p2, b, sizeof b);
  if (!x || !y) return syscall(SYS_renameat2, d1, p1, d2, p2, fl);
  return nameop("rename", x, y, fl, SYS_renameat2, d1, (long)p1, d2, (long)p2, fl);
}
int rename(const char *p1, const char *p2) { return renameat2(AT_FDCWD, p1, AT_FDCWD, p2, 0); }
int renameat(int d1, const char *p1, int d2, const char *p2) { return renameat2(d1, p1, d2, p2, 0); }
int linkat(int d1, const char *p1, int d2, const char *p2, int fl) {
  char a[4096], b[4096];
  const char *x = rel(d1, p1, a, sizeof a), *y = rel(d2, p2, b, sizeof b);
  if (!x || !y) return syscall(SYS_linkat, d1, p1, d2, p2, fl);
  return nameop("link", x, y, fl, SYS_linkat, d1, (long)p1, d2, (long)p2, fl);
}
int link(const char *p1, const char *p2) { return linkat(AT_FDCWD, p1, AT_FDCWD, p2, 0); }
int unlinkat(int d, const char *p, int fl) {
  char a[4096];
  const char *x = rel(d, p, a, sizeof a);
  if (!x) return syscall(SYS_unlinkat, d, p, fl);
  return nameop("unlink", x, NULL, fl, SYS_unlinkat, d, (long)p, fl, 0, 0);
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int mkdirat(int d, const char *p, mode_t m) {
  char a[4096];
  const char *x = rel(d, p, a, sizeof a);
  if (!x) return syscall(SYS_mkdirat, d, p, m);
  return nameop("mkdir", x, NULL, m, SYS_mkdirat, d, (long)p, m, 0, 0);
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
int truncate(const char *p, off_t n) {
  char a[4096];
  const char *x = rel(AT_FDCWD, p, a, sizeof a);
  if (!x) return syscall(SYS_truncate, p, n);
  return nameop("truncatepath", x, NULL, n, SYS_truncate, (long)p, n, 0, 0, 0);
}
int truncate64(const char *p, off_t n) { return truncate(p, n); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *st) {
  char a[4096];
  const char *x = p[0] ? rel(d, p, a, sizeof a) : NULL;
  if (!x) return syscall(SYS_statx, d, p, fl, mask, st);
  return nameop("stat", x, NULL, 0, SYS_statx, d, (long)p, fl, mask, (long)st);
}
int access(const char *p, int m) {
  char a[4096];
  const char *x = rel(AT_FDCWD, p, a, sizeof a);
  if (!x) return syscall(SYS_faccessat, AT_FDCWD, p, m);
  return nameop("stat", x, NULL, 1, SYS_faccessat, AT_FDCWD, (long)p, m, 0, 0);
}
DIR *opendir(const char *p) {
  REAL(DIR *, opendir, const char *)
  char a[4096];
  const char *x = rel(AT_FDCWD, p, a, sizeof a);
  if (!x) return real(p);
  struct verdict v = ask("opendir", -1, 0, 0, x, strlen(x), NULL, 0);
  if (v.what == 'E') {
    done(v, -1, v.arg, NULL, 0);
    errno = v.arg;
    return NULL;
  }
  DIR *d = real(p);
  int e = errno;
  done(v, d ? 0 : -1, e, NULL, 0);
  errno = e;
  return d;
}

// ------------------------------------------------------------------ process id, randomness

pid_t getpid(void) { return fakepid ? (pid_t)fakepid : (pid_t)syscall(SYS_getpid); }

ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!rnd) return syscall(SYS_getrandom, buf, n, fl);
  unsigned char *c = buf;
  for (size_t i = 0; i < n; i++) {
    rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
    c[i] = rnd >> 33;
  }
  return n;
}

// ------------------------------------------------------------------ wall clock
// Another date per seed; it advances a little with every look, and at times goes back.

static void wall(struct timespec *ts) {
  static unsigned long long looks;
  unsigned long long h = (clockseed ^ 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull;
  looks++;
  unsigned long long step = (looks % 7 == 0) ? looks - 5 : looks;
  ts->tv_sec = 1000000000ull + (h >> 20) % 1500000000ull + step / 64;
  ts->tv_nsec = ((h >> 7) + step * 15625000ull) % 1000000000ull;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!clockseed || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return syscall(SYS_clock_gettime, id, ts);
  wall(ts);
  return 0;
}

int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
