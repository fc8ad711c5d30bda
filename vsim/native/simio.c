/* simio: LD_PRELOAD seam between a simulated process and the operating system.
 *
 * Every libc call through which CPython reaches files, directories, clocks,
 * randomness, the locale's character set, sockets and processes goes through here.  The
 * simulator decides what happens, in one of two ways:
 *   - rules   (library runs): a table set by the simulator inside the process,
 *   - control (generator runs): each operation under a root directory is sent
 *     over a socket to the driver, which answers with a decision.
 * With neither armed every call passes straight through.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <langinfo.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum {
  OP_OPEN = 1, OP_READ = 2, OP_WRITE = 3, OP_FSYNC = 4, OP_RENAME = 5,
  OP_UNLINK = 6, OP_MKDIR = 7, OP_RMDIR = 8, OP_TRUNC = 9, OP_FTRUNC = 10,
  OP_LINK = 11, OP_SYMLINK = 12, OP_CHMOD = 13, OP_OPENDIR = 14, OP_CLOSE = 15,
  OP_STAT = 16, OP_UTIME = 17, OP_SOCKET = 18, OP_SPAWN = 19, OP_COPY = 20,
  OP_OPENW = 21, OP_CHOWN = 22, OP_NMAX = 24
};

enum { ACT_OK = 0, ACT_ERR = 1, ACT_SHORT = 2, ACT_KILL = 3, ACT_KILL_AFTER = 4,
       ACT_SHORT_KILL = 5, ACT_SEED = 6, ACT_EOF = 7 };

/* ---------------------------------------------------------------- state */
#define MAXFD 4096
static char *fdpath[MAXFD];
static int fdflags[MAXFD];
static long long fdpos[MAXFD];      /* bytes read so far, for ACT_EOF */
static char root[PATH_MAX];          /* tracked prefix; "" = nothing tracked */
static size_t rootlen;
static int ctl_fd = -1;              /* control socket, or -1 */
static int busy;                     /* no interception while the simulator itself works */

struct rule { int ops; char sub[256]; long skip, count; int act; long arg; long seen, fired; };
#define MAXRULE 64
static struct rule rules[MAXRULE];
static int nrules;

#define LOGSZ (1 << 20)
static char *logbuf; static size_t loglen; static int logmask;
static unsigned long opcount[OP_NMAX + 1];

static char codeset[64];
static char hostname_[64];
static long cpus_;
static int clock_on; static int64_t clock_ns; static int64_t clock_mono_ns; static unsigned long clock_reads; static const uint64_t *clock_events;
static int rand_on; static uint64_t rand_state; static unsigned long rand_reads;

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  static inline void get_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }

REAL(int, open64, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, pread64, int, void *, size_t, off64_t)
REAL(ssize_t, readv, int, const struct iovec *, int)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(int, close, int)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(void, sync, void)
REAL(int, syncfs, int)
REAL(int, rename, const char *, const char *)
REAL(int, renameat, int, const char *, int, const char *)
REAL(int, renameat2, int, const char *, int, const char *, unsigned int)
REAL(int, unlink, const char *)
REAL(int, unlinkat, int, const char *, int)
REAL(int, remove, const char *)
REAL(int, mkdir, const char *, mode_t)
REAL(int, mkdirat, int, const char *, mode_t)
REAL(int, rmdir, const char *)
REAL(int, truncate64, const char *, off64_t)
REAL(int, ftruncate64, int, off64_t)
REAL(int, link, const char *, const char *)
REAL(int, linkat, int, const char *, int, const char *, int)
REAL(int, symlink, const char *, const char *)
REAL(int, symlinkat, const char *, int, const char *)
REAL(int, chmod, const char *, mode_t)
REAL(int, fchmod, int, mode_t)
REAL(int, fchmodat, int, const char *, mode_t, int)
REAL(int, chown, const char *, uid_t, gid_t)
REAL(int, fchown, int, uid_t, gid_t)
REAL(int, utimensat, int, const char *, const struct timespec *, int)
REAL(int, futimens, int, const struct timespec *)
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned int)
REAL(DIR *, opendir, const char *)
REAL(DIR *, fdopendir, int)
REAL(struct dirent64 *, readdir64, DIR *)
REAL(void, rewinddir, DIR *)
REAL(int, closedir, DIR *)
REAL(int, stat64, const char *, struct stat64 *)
REAL(int, lstat64, const char *, struct stat64 *)
REAL(char *, nl_langinfo, nl_item)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(int, gettimeofday, struct timeval *, void *)
REAL(time_t, time, time_t *)
REAL(ssize_t, getrandom, void *, size_t, unsigned int)
REAL(int, getentropy, void *, size_t)
REAL(int, socket, int, int, int)
REAL(pid_t, fork, void)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, execve, const char *, char *const *, char *const *)
REAL(int, system, const char *)

/* ---------------------------------------------------------------- paths */
static void normalize(char *p) {           /* textual: //, /./, /../ */
  char out[PATH_MAX]; size_t o = 0;
  char *s = p;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s; while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 1 && s[0] == '.') { }
    else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[--o] != '/') ; }
    else if (o + n + 2 < sizeof out) { out[o++] = '/'; memcpy(out + o, s, n); o += n; }
    s = e;
  }
  if (!o) out[o++] = '/';
  out[o] = 0;
  strcpy(p, out);
}
static int abspath_at(int dfd, const char *path, char *out) {
  if (!path) return 0;
  if (path[0] == '/') { if (strlen(path) >= PATH_MAX) return 0; strcpy(out, path); }
  else {
    char base[PATH_MAX]; ssize_t n;
    if (dfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
           n = syscall(SYS_readlink, l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
    if (strlen(base) + strlen(path) + 2 >= PATH_MAX) return 0;
    snprintf(out, PATH_MAX, "%s/%s", base, path);
  }
  normalize(out);
  return 1;
}
static int tracked(const char *abs) {
  return rootlen && strncmp(abs, root, rootlen) == 0 &&
         (root[rootlen - 1] == '/' || abs[rootlen] == 0 || abs[rootlen] == '/');
}

/* ---------------------------------------------------------------- decisions */
struct decision { int act; long arg; };

static void logop(int op, const char *p, const char *p2, long arg) {
  if (!logbuf || !(logmask & (1 << op))) return;
  char line[2 * PATH_MAX + 64];
  int n = snprintf(line, sizeof line, "%d\t%ld\t%s\t%s\n", op, arg, p ? p : "", p2 ? p2 : "");
  if (n > 0 && loglen + n < LOGSZ) { memcpy(logbuf + loglen, line, n); loglen += n; }
}

static void raw_all(int fd, void *buf, size_t n, int wr) {
  char *p = buf;
  while (n) {
    long k = syscall(wr ? SYS_write : SYS_read, fd, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) { _exit(97); }
    p += k; n -= k;
  }
}

static struct decision decide(int op, const char *p, const char *p2, long arg) {
  struct decision d = {ACT_OK, 0};
  if (busy) return d;
  opcount[op]++;
  logop(op, p, p2, arg);
  if (ctl_fd >= 0 && ((p && tracked(p)) || (p2 && tracked(p2)))) {
    char msg[2 * PATH_MAX + 64];
    uint32_t l1 = p ? strlen(p) : 0, l2 = p2 ? strlen(p2) : 0;
    struct { int32_t op; uint32_t l1, l2; int32_t pad; int64_t arg; } h = {op, l1, l2, 0, arg};
    memcpy(msg, &h, sizeof h); memcpy(msg + sizeof h, p ? p : "", l1); memcpy(msg + sizeof h + l1, p2 ? p2 : "", l2);
    int e = errno;
    static pthread_mutex_t one = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_lock(&one);
    raw_all(ctl_fd, msg, sizeof h + l1 + l2, 1);
    struct { int32_t act; int32_t pad; int64_t arg; } r;
    raw_all(ctl_fd, &r, sizeof r, 0);
    pthread_mutex_unlock(&one);
    errno = e;
    d.act = r.act; d.arg = r.arg;
    if (d.act == ACT_KILL) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
    return d;
  }
  for (int i = 0; i < nrules; i++) {
    struct rule *r = &rules[i];
    if (!(r->ops & (1 << op))) continue;
    if (r->sub[0] && !((p && strstr(p, r->sub)) || (p2 && strstr(p2, r->sub)))) continue;
    long k = r->seen++;
    if (k < r->skip || (r->count >= 0 && k >= r->skip + r->count)) continue;
    r->fired++;
    d.act = r->act; d.arg = r->arg;
    return d;
  }
  return d;
}
static void after(struct decision d) {
  if (d.act == ACT_KILL_AFTER || d.act == ACT_SHORT_KILL) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause();
  }
}
#define FAIL_IF(d) if ((d).act == ACT_ERR) { errno = (int)(d).arg; return -1; }
static int active(void) { return !busy && (nrules || ctl_fd >= 0 || logbuf); }

/* ---------------------------------------------------------------- control API (ctypes) */
void simio_root(const char *p) { strncpy(root, p, sizeof root - 1); normalize(root); if (!p[0]) root[0] = 0; rootlen = strlen(root); }
void simio_ctl(int fd) { ctl_fd = fd; }
void simio_busy(int b) { busy = b; }
int simio_rule(int ops, const char *sub, long skip, long count, int act, long arg) {
  if (nrules >= MAXRULE) return -1;
  struct rule *r = &rules[nrules];
  memset(r, 0, sizeof *r);
  r->ops = ops; strncpy(r->sub, sub, sizeof r->sub - 1); r->skip = skip; r->count = count; r->act = act; r->arg = arg;
  return nrules++;
}
void simio_rules_clear(void) { nrules = 0; }
long simio_fired(int i) { return i < MAXRULE ? rules[i].fired : -1; }
void simio_log(int mask) {
  if (mask && !logbuf) logbuf = malloc(LOGSZ);
  if (!mask) { free(logbuf); logbuf = 0; }
  logmask = mask; loglen = 0;
}
long simio_log_get(char *out, long n) { if (!logbuf) return 0; if ((size_t)n > loglen) n = loglen; memcpy(out, logbuf, n); return n; }
unsigned long simio_ops(int op) { return op <= OP_NMAX ? opcount[op] : 0; }
void simio_codeset(const char *c) { strncpy(codeset, c, sizeof codeset - 1); }
void simio_clock(int on, int64_t wall, int64_t mono) { clock_on = on; clock_ns = wall; clock_mono_ns = mono; }
void simio_clock_events(const uint64_t *p) {
  if (clock_events && !p) { clock_ns += *clock_events * 50; clock_mono_ns += *clock_events * 50; }
  clock_events = p;
}
void simio_clock_jump(int64_t wall, int64_t mono) { clock_ns += wall; clock_mono_ns += mono; }
unsigned long simio_clock_reads(void) { return clock_reads; }
void simio_rand(int on, uint64_t s) { rand_on = on; rand_state = s; }
unsigned long simio_rand_reads(void) { return rand_reads; }

__attribute__((constructor)) static void init(void) {
  const char *e;
  if ((e = getenv("SIM_ROOT"))) simio_root(e);
  if ((e = getenv("SIM_CTL_FD"))) ctl_fd = atoi(e);
  if ((e = getenv("SIM_CPUS"))) cpus_ = atol(e);
  if ((e = getenv("SIM_HOST"))) strncpy(hostname_, e, sizeof hostname_ - 1);
  if ((e = getenv("SIM_CODESET"))) simio_codeset(e);
  if ((e = getenv("SIM_CLOCK"))) simio_clock(1, atoll(e) * 1000000000LL, 1000000000LL);
  if ((e = getenv("SIM_RAND"))) simio_rand(1, strtoull(e, 0, 10));
}

/* ---------------------------------------------------------------- files */
static void remember(int fd, const char *abs, int flags) {
  if (fd < 0 || fd >= MAXFD) return;
  free(fdpath[fd]); fdpath[fd] = strdup(abs); fdflags[fd] = flags; fdpos[fd] = 0;
}
static const char *pathof(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  get_openat64();
  char abs[PATH_MAX];
  if (!active() || !abspath_at(dfd, path, abs)) return real_openat64(dfd, path, flags, mode);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  struct decision d = decide(wr ? OP_OPENW : OP_OPEN, abs, 0, flags);
  FAIL_IF(d);
  int fd = real_openat64(dfd, path, flags, mode);
  if (fd >= 0) remember(fd, abs, flags);
  int e = errno; after(d); errno = e;
  return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_read(int fd, void *b, size_t n, int at, off64_t off) {
  get_read(); get_pread64();
  const char *p = pathof(fd);
  if (p && active()) {
    struct decision d = decide(OP_READ, p, 0, n);
    FAIL_IF(d);
    if (d.act == ACT_SHORT && d.arg > 0 && (size_t)d.arg < n) n = d.arg;
    if (d.act == ACT_EOF) {                    /* the file ends at byte d.arg */
      long long left = d.arg - fdpos[fd];
      if (left <= 0) return 0;
      if ((long long)n > left) n = left;
    }
  }
  ssize_t k = at ? real_pread64(fd, b, n, off) : real_read(fd, b, n);
  if (p && k > 0 && fd < MAXFD) fdpos[fd] += k;
  return k;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, 1, o); }

static ssize_t do_write(int fd, const void *b, size_t n, int at, off64_t off) {
  get_write(); get_pwrite64();
  const char *p = pathof(fd);
  struct decision d = {ACT_OK, 0};
  if (active() && (p || fd <= 2)) {
    d = decide(OP_WRITE, p ? p : (fd == 1 ? "<stdout>" : fd == 2 ? "<stderr>" : "<stdin>"), 0, n);
    FAIL_IF(d);
    if ((d.act == ACT_SHORT || d.act == ACT_SHORT_KILL) && d.arg >= 0 && (size_t)d.arg < n) n = d.arg;
  }
  ssize_t k = at ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
  int e = errno; after(d); errno = e;
  return k;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, 1, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  get_readv();
  const char *p = pathof(fd);
  if (p && active()) { struct decision d = decide(OP_READ, p, 0, 0); FAIL_IF(d); }
  return real_readv(fd, v, c);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  get_writev();
  const char *p = pathof(fd);
  struct decision d = {ACT_OK, 0};
  if (p && active()) { d = decide(OP_WRITE, p, 0, 0); FAIL_IF(d); }
  ssize_t k = real_writev(fd, v, c); after(d); return k;
}
int close(int fd) {
  get_close();
  char *p = fd >= 0 && fd < MAXFD ? fdpath[fd] : 0;
  if (p) {
    struct decision d = {ACT_OK, 0};
    if (active()) d = decide(OP_CLOSE, p, 0, (fdflags[fd] & O_ACCMODE) != O_RDONLY);
    fdpath[fd] = 0; free(p);
    int r = real_close(fd);
    if (d.act == ACT_ERR) { errno = (int)d.arg; return -1; }
    after(d);
    return r;
  }
  return real_close(fd);
}
#define FDOP(op, call) \
  const char *p = pathof(fd); struct decision d = {ACT_OK, 0}; \
  if (p && active()) { d = decide(op, p, 0, 0); FAIL_IF(d); } \
  int r = call; int e = errno; after(d); errno = e; return r;
int fsync(int fd) { get_fsync(); FDOP(OP_FSYNC, real_fsync(fd)) }
int fdatasync(int fd) { get_fdatasync(); FDOP(OP_FSYNC, real_fdatasync(fd)) }
void sync(void) { if (active()) decide(OP_FSYNC, "/", 0, 1); get_sync(); real_sync(); }
int syncfs(int fd) { if (active()) decide(OP_FSYNC, "/", 0, 1); get_syncfs(); return real_syncfs(fd); }
int ftruncate64(int fd, off64_t n) { get_ftruncate64(); FDOP(OP_FTRUNC, real_ftruncate64(fd, n)) }
int ftruncate(int fd, off_t n) { get_ftruncate64(); FDOP(OP_FTRUNC, real_ftruncate64(fd, n)) }
int fchmod(int fd, mode_t m) { get_fchmod(); FDOP(OP_CHMOD, real_fchmod(fd, m)) }
int fchown(int fd, uid_t u, gid_t g) { get_fchown(); FDOP(OP_CHOWN, real_fchown(fd, u, g)) }
int futimens(int fd, const struct timespec *t) { get_futimens(); FDOP(OP_UTIME, real_futimens(fd, t)) }

#define POP1(op, dfd, path, call) \
  char a1[PATH_MAX]; struct decision d = {ACT_OK, 0}; \
  if (active() && abspath_at(dfd, path, a1)) { d = decide(op, a1, 0, 0); FAIL_IF(d); } \
  int r = call; int e = errno; after(d); errno = e; return r;
#define POP2(op, d1, p1, d2, p2, call) \
  char a1[PATH_MAX], a2[PATH_MAX]; struct decision d = {ACT_OK, 0}; \
  if (active() && abspath_at(d1, p1, a1) && abspath_at(d2, p2, a2)) { d = decide(op, a1, a2, 0); FAIL_IF(d); } \
  int r = call; int e = errno; after(d); errno = e; return r;
int rename(const char *a, const char *b) { get_rename(); POP2(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, real_rename(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { get_renameat(); POP2(OP_RENAME, x, a, y, b, real_renameat(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned int f) { get_renameat2(); POP2(OP_RENAME, x, a, y, b, real_renameat2(x, a, y, b, f)) }
int link(const char *a, const char *b) { get_link(); POP2(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, real_link(a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { get_linkat(); POP2(OP_LINK, x, a, y, b, real_linkat(x, a, y, b, f)) }
int symlink(const char *a, const char *b) { get_symlink(); POP1(OP_SYMLINK, AT_FDCWD, b, real_symlink(a, b)) }
int symlinkat(const char *a, int y, const char *b) { get_symlinkat(); POP1(OP_SYMLINK, y, b, real_symlinkat(a, y, b)) }
int unlink(const char *p) { get_unlink(); POP1(OP_UNLINK, AT_FDCWD, p, real_unlink(p)) }
int unlinkat(int x, const char *p, int f) { get_unlinkat(); POP1((f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, x, p, real_unlinkat(x, p, f)) }
int remove(const char *p) { get_remove(); POP1(OP_UNLINK, AT_FDCWD, p, real_remove(p)) }
int mkdir(const char *p, mode_t m) { get_mkdir(); POP1(OP_MKDIR, AT_FDCWD, p, real_mkdir(p, m)) }
int mkdirat(int x, const char *p, mode_t m) { get_mkdirat(); POP1(OP_MKDIR, x, p, real_mkdirat(x, p, m)) }
int rmdir(const char *p) { get_rmdir(); POP1(OP_RMDIR, AT_FDCWD, p, real_rmdir(p)) }
int truncate64(const char *p, off64_t n) { get_truncate64(); POP1(OP_TRUNC, AT_FDCWD, p, real_truncate64(p, n)) }
int truncate(const char *p, off_t n) { get_truncate64(); POP1(OP_TRUNC, AT_FDCWD, p, real_truncate64(p, n)) }
int chmod(const char *p, mode_t m) { get_chmod(); POP1(OP_CHMOD, AT_FDCWD, p, real_chmod(p, m)) }
int fchmodat(int x, const char *p, mode_t m, int f) { get_fchmodat(); POP1(OP_CHMOD, x, p, real_fchmodat(x, p, m, f)) }
int chown(const char *p, uid_t u, gid_t g) { get_chown(); POP1(OP_CHOWN, AT_FDCWD, p, real_chown(p, u, g)) }
int utimensat(int x, const char *p, const struct timespec *t, int f) {
  get_utimensat();
  POP1(OP_UTIME, x, p, real_utimensat(x, p, t, f))
}
int stat64(const char *p, struct stat64 *s) { get_stat64(); POP1(OP_STAT, AT_FDCWD, p, real_stat64(p, s)) }
int stat(const char *p, struct stat *s) { get_stat64(); POP1(OP_STAT, AT_FDCWD, p, real_stat64(p, (struct stat64 *)s)) }
int lstat64(const char *p, struct stat64 *s) { get_lstat64(); POP1(OP_STAT, AT_FDCWD, p, real_lstat64(p, s)) }
int lstat(const char *p, struct stat *s) { get_lstat64(); POP1(OP_STAT, AT_FDCWD, p, real_lstat64(p, (struct stat64 *)s)) }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  get_sendfile64();
  const char *p = pathof(o), *q = pathof(i); struct decision d = {ACT_OK, 0};
  if ((p || q) && active()) {
    d = decide(OP_COPY, p ? p : q, q, n); FAIL_IF(d);
    if ((d.act == ACT_SHORT || d.act == ACT_SHORT_KILL) && d.arg > 0 && (size_t)d.arg < n) n = d.arg;
  }
  ssize_t k = real_sendfile64(o, i, off, n); after(d); return k;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned int f) {
  get_copy_file_range();
  const char *p = pathof(o), *q = pathof(i); struct decision d = {ACT_OK, 0};
  if ((p || q) && active()) {
    d = decide(OP_COPY, p ? p : q, q, n); FAIL_IF(d);
    if ((d.act == ACT_SHORT || d.act == ACT_SHORT_KILL) && d.arg > 0 && (size_t)d.arg < n) n = d.arg;
  }
  ssize_t k = real_copy_file_range(i, io, o, oo, n, f); after(d); return k;
}

/* memory-mapped files: mapping one for writing counts as writing it, msync as fsync */
static struct { void *p; size_t n; char *path; } maps[64];
void *mmap64(void *addr, size_t n, int prot, int flags, int fd, off64_t off) {
  struct decision d = {ACT_OK, 0}; const char *p = 0;
  if (fd >= 0 && (flags & MAP_SHARED) && (prot & PROT_WRITE) && active() && (p = pathof(fd))) {
    d = decide(OP_WRITE, p, 0, n);
    if (d.act == ACT_ERR) { errno = d.arg; return MAP_FAILED; }
    if (d.act == ACT_SHORT) d.act = ACT_OK;
  }
  void *r = (void *)syscall(SYS_mmap, addr, n, prot, flags, fd, off);
  if (p && r != MAP_FAILED)
    for (int i = 0; i < 64; i++) if (!maps[i].path) { maps[i].p = r; maps[i].n = n; maps[i].path = strdup(p); break; }
  int e = errno; after(d); errno = e;
  return r;
}
void *mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off) { return mmap64(addr, n, prot, flags, fd, off); }
int msync(void *addr, size_t n, int flags) {
  struct decision d = {ACT_OK, 0};
  if (active())
    for (int i = 0; i < 64; i++)
      if (maps[i].path && (char *)addr >= (char *)maps[i].p && (char *)addr < (char *)maps[i].p + maps[i].n) { d = decide(OP_FSYNC, maps[i].path, 0, 0); FAIL_IF(d); break; }
  int r = syscall(SYS_msync, addr, n, flags), e = errno; after(d); errno = e;
  return r;
}
int munmap(void *addr, size_t n) {
  for (int i = 0; i < 64; i++) if (maps[i].path && maps[i].p == addr) { free(maps[i].path); maps[i].path = 0; }
  return syscall(SYS_munmap, addr, n);
}
int posix_fallocate64(int fd, off64_t off, off64_t n) {
  const char *p = pathof(fd); struct decision d = {ACT_OK, 0};
  if (p && active()) { d = decide(OP_FTRUNC, p, 0, n); if (d.act == ACT_ERR) return d.arg; }
  int r = syscall(SYS_fallocate, fd, 0, off, n) < 0 ? errno : 0; after(d);
  return r;
}
int posix_fallocate(int fd, off_t off, off_t n) { return posix_fallocate64(fd, off, n); }

/* duplicated handles stand for the same file */
static int duplicated(int from, int to) {
  const char *p = pathof(from);
  if (to >= 0 && to < MAXFD && to != from) {
    if (p) remember(to, p, fdflags[from]);
    else { free(fdpath[to]); fdpath[to] = 0; }
  }
  return to;
}
int dup(int fd) { return duplicated(fd, syscall(SYS_dup, fd)); }
int dup2(int a, int b) { return a == b ? (int)syscall(SYS_dup2, a, b) : duplicated(a, syscall(SYS_dup2, a, b)); }
int dup3(int a, int b, int f) { return duplicated(a, syscall(SYS_dup3, a, b, f)); }
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  int r = syscall(SYS_fcntl, fd, cmd, arg);
  return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? duplicated(fd, r) : r;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  return fcntl64(fd, cmd, arg);
}

/* ---------------------------------------------------------------- directory listing order */
struct shuffled { DIR *d; struct dirent64 *e; size_t n, i; struct shuffled *next; };
static struct shuffled *shuf;
static int cmpname(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
static void shuffle_dir(DIR *d, uint64_t seed) {
  struct shuffled *s = calloc(1, sizeof *s); struct dirent64 *e; size_t cap = 0;
  s->d = d;
  while ((e = real_readdir64(d))) {
    if (s->n == cap) { cap = cap ? cap * 2 : 64; s->e = realloc(s->e, cap * sizeof *s->e); }
    memcpy(&s->e[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e); s->n++;
  }
  /* sort first: the order must be a function of the names and the seed alone */
  qsort(s->e, s->n, sizeof *s->e, cmpname);
  for (size_t i = s->n; i > 1; i--) {
    seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
    size_t j = seed % i; struct dirent64 t = s->e[i - 1]; s->e[i - 1] = s->e[j]; s->e[j] = t;
  }
  s->next = shuf; shuf = s;
}
static DIR *dir_opened(DIR *d, struct decision dec) {
  get_readdir64();
  if (d && dec.act == ACT_SEED) shuffle_dir(d, (uint64_t)dec.arg * 2654435761u + 88172645463325252ULL);
  return d;
}
DIR *opendir(const char *p) {
  get_opendir();
  char a[PATH_MAX]; struct decision d = {ACT_OK, 0};
  if (active() && abspath_at(AT_FDCWD, p, a)) { d = decide(OP_OPENDIR, a, 0, 0); if (d.act == ACT_ERR) { errno = (int)d.arg; return 0; } }
  return dir_opened(real_opendir(p), d);
}
DIR *fdopendir(int fd) {
  get_fdopendir();
  const char *p = pathof(fd); struct decision d = {ACT_OK, 0};
  if (p && active()) { d = decide(OP_OPENDIR, p, 0, 0); if (d.act == ACT_ERR) { errno = (int)d.arg; return 0; } }
  return dir_opened(real_fdopendir(fd), d);
}
struct dirent64 *readdir64(DIR *d) {
  get_readdir64();
  for (struct shuffled *s = shuf; s; s = s->next) if (s->d == d) return s->i < s->n ? &s->e[s->i++] : 0;
  return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) { get_rewinddir(); for (struct shuffled *s = shuf; s; s = s->next) if (s->d == d) { s->i = 0; return; } real_rewinddir(d); }
int closedir(DIR *d) {
  get_closedir();
  for (struct shuffled **q = &shuf; *q; q = &(*q)->next) if ((*q)->d == d) { struct shuffled *s = *q; *q = s->next; free(s->e); free(s); break; }
  return real_closedir(d);
}

/* ---------------------------------------------------------------- environment */
long sysconf(int n) {
  static long (*real)(int);
  if (cpus_ && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return cpus_;
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(n);
}
int gethostname(char *b, size_t n) {
  struct utsname u;
  if (hostname_[0]) { strncpy(b, hostname_, n); return 0; }
  if (syscall(SYS_uname, &u)) return -1;
  strncpy(b, u.nodename, n);
  return 0;
}
int uname(struct utsname *u) {
  int r = syscall(SYS_uname, u);
  if (!r && hostname_[0]) strncpy(u->nodename, hostname_, sizeof u->nodename - 1);
  return r;
}
char *nl_langinfo(nl_item i) { get_nl_langinfo(); if (i == CODESET && codeset[0]) return codeset; return real_nl_langinfo(i); }
int clock_gettime(clockid_t c, struct timespec *t) {
  get_clock_gettime();
  if (!clock_on) return real_clock_gettime(c, t);
  clock_reads++;
  int64_t *p = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? &clock_ns : &clock_mono_ns;
  int64_t moved;
  if (clock_events) { moved = *p + (int64_t)(*clock_events) * 50; p = &moved; }   /* time follows the instructions executed */
  else *p += 1000;
  t->tv_sec = *p / 1000000000LL; t->tv_nsec = *p % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  get_gettimeofday();
  if (!clock_on) return real_gettimeofday(t, z);
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
  get_time();
  if (!clock_on) return real_time(t);
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec;
}
/* The interpreter's own waits (the interpreter lock) take deadlines computed from the
 * virtual clock; they are turned into real ones, so that virtual time never stalls it. */
static void real_deadline(clockid_t c, const struct timespec *in, struct timespec *out) {
  struct timespec v, r;
  unsigned long keep = clock_reads; int64_t a = clock_ns, b = clock_mono_ns;
  clock_gettime(c, &v);
  clock_reads = keep; clock_ns = a; clock_mono_ns = b;
  real_clock_gettime(c, &r);
  int64_t d = (in->tv_sec - v.tv_sec) * 1000000000LL + (in->tv_nsec - v.tv_nsec);
  if (d < 0) d = 0;
  int64_t t = r.tv_sec * 1000000000LL + r.tv_nsec + d;
  out->tv_sec = t / 1000000000LL; out->tv_nsec = t % 1000000000LL;
}
#include <pthread.h>
#include <semaphore.h>
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *)
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)
REAL(int, sem_timedwait, sem_t *, const struct timespec *)
REAL(int, sem_clockwait, sem_t *, clockid_t, const struct timespec *)
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  get_pthread_cond_timedwait();
  struct timespec r;
  if (clock_on && t) { get_clock_gettime(); real_deadline(CLOCK_MONOTONIC, t, &r); t = &r; }   /* CPython's condition variables are monotonic */
  return real_pthread_cond_timedwait(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  get_pthread_cond_clockwait();
  struct timespec r;
  if (clock_on && t) { get_clock_gettime(); real_deadline(k, t, &r); t = &r; }
  return real_pthread_cond_clockwait(c, m, k, t);
}
int sem_timedwait(sem_t *s, const struct timespec *t) {
  get_sem_timedwait();
  struct timespec r;
  if (clock_on && t) { get_clock_gettime(); real_deadline(CLOCK_REALTIME, t, &r); t = &r; }
  return real_sem_timedwait(s, t);
}
int sem_clockwait(sem_t *s, clockid_t k, const struct timespec *t) {
  get_sem_clockwait();
  struct timespec r;
  if (clock_on && t) { get_clock_gettime(); real_deadline(k, t, &r); t = &r; }
  return real_sem_clockwait(s, k, t);
}
static void fill(void *b, size_t n) {
  unsigned char *p = b; rand_reads++;
  while (n--) { rand_state = rand_state * 6364136223846793005ULL + 1442695040888963407ULL; *p++ = rand_state >> 56; }
}
ssize_t getrandom(void *b, size_t n, unsigned int f) { get_getrandom(); if (!rand_on) return real_getrandom(b, n, f); fill(b, n); return n; }
int getentropy(void *b, size_t n) { get_getentropy(); if (!rand_on) return real_getentropy(b, n); fill(b, n); return 0; }

/* ---------------------------------------------------------------- network and processes */
int socket(int a, int b, int c) {
  get_socket();
  if (active()) { char t[64]; snprintf(t, sizeof t, "<socket %d %d>", a, b); struct decision d = decide(OP_SOCKET, t, 0, 0); FAIL_IF(d); }
  return real_socket(a, b, c);
}
int execve(const char *p, char *const *a, char *const *e) {
  get_execve();
  if (active()) { struct decision d = decide(OP_SPAWN, p, 0, 0); FAIL_IF(d); }
  return real_execve(p, a, e);
}
pid_t fork(void) {
  get_fork();
  if (active()) { struct decision d = decide(OP_SPAWN, "<fork>", 0, 0); FAIL_IF(d); }
  return real_fork();
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  get_pthread_create();
  if (active()) { struct decision d = decide(OP_SPAWN, "<thread>", 0, 0); if (d.act == ACT_ERR) return (int)d.arg; }
  return real_pthread_create(t, a, f, x);
}
int system(const char *c) {
  get_system();
  if (active()) { struct decision d = decide(OP_SPAWN, c, 0, 0); FAIL_IF(d); }
  return real_system(c);
}
