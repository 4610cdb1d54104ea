/* Environment of the program under test: answers of the operating system are
 * decided by the explorer. Everything is set with environment variables:
 *   MCS_ROOT   only files below this directory are touched
 *   MCS_PLAN   "n:action,..." action for the n-th call (open, read, write,
 *              lseek, stat, ...) on such files: eio, enospc, eintr, one, half,
 *              zero, allbutone, kill (before the call), torn (in the middle
 *              of a write)
 *   MCS_MAXREAD / MCS_MAXWRITE   most bytes a read/write transfers
 *   MCS_LOG    file to which the calls are written
 *   MCS_SEED   seed of getrandom
 *   MCS_CLOCK  "all" or "k1,k2,...": the monotonic clock jumps ahead by
 *              MCS_JUMP seconds (default 100) at these readings; otherwise it
 *              advances by MCS_TICK nanoseconds per reading (default 1000);
 *              readings start at 1
 *              The real-time clock moves along with it.
 *   MCS_GATE   "w,r": before each call a byte is written to file descriptor w
 *              and one is awaited on r
 *   MCS_CPUS   processors sched_getaffinity reports
 *   MCS_FROM   "n:action" for all calls from the n-th on
 *   MCS_KEEP   directory that gets a copy of every file below the root that
 *              was opened for writing, when it is closed
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static char tracked[MAXFD];
static char *paths[MAXFD];
static char writable[MAXFD];
static const char *root, *keep, *from, *plan, *clockplan, *seed, *cpus;
static long maxread = -1, maxwrite = -1, jump = 100, tick = 1000;
static int logfd = -1, gate_w = -1, gate_r = -1;
static atomic_int calls, readings;
static atomic_long jumps;
static pthread_once_t once = PTHREAD_ONCE_INIT;

static void init(void)
{
    root = getenv("MCS_ROOT");
    plan = getenv("MCS_PLAN");
    keep = getenv("MCS_KEEP");
    from = getenv("MCS_FROM");
    clockplan = getenv("MCS_CLOCK");
    seed = getenv("MCS_SEED");
    cpus = getenv("MCS_CPUS");
    if (getenv("MCS_MAXREAD")) maxread = atol(getenv("MCS_MAXREAD"));
    if (getenv("MCS_MAXWRITE")) maxwrite = atol(getenv("MCS_MAXWRITE"));
    if (getenv("MCS_JUMP")) jump = atol(getenv("MCS_JUMP"));
    if (getenv("MCS_TICK")) tick = atol(getenv("MCS_TICK"));
    if (getenv("MCS_GATE")) sscanf(getenv("MCS_GATE"), "%d,%d", &gate_w, &gate_r);
    const char *l = getenv("MCS_LOG");
    if (l) {
        logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    }
}

static void start(void) { pthread_once(&once, init); }

static int below(const char *p)
{
    if (!root || !p) return 0;
    char full[4096];
    if (p[0] != '/') {
        if (!getcwd(full, sizeof full - 2)) return 0;
        strcat(full, "/");
        strncat(full, p, sizeof full - strlen(full) - 1);
        p = full;
    }
    size_t n = strlen(root);
    return strncmp(p, root, n) == 0 && (p[n] == '/' || p[n] == 0);
}

static void note(const char *fmt, ...)
{
    if (logfd < 0) return;
    char b[5000];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b) n = sizeof b;
    syscall(SYS_write, logfd, b, n);
}

/* Number of this call and the action planned for it. */
static int next(char *action, size_t size)
{
    if (gate_w >= 0) {
        char c = 'x';
        syscall(SYS_write, gate_w, &c, 1);
        while (syscall(SYS_read, gate_r, &c, 1) < 0) ;
    }
    int n = atomic_fetch_add(&calls, 1);
    action[0] = 0;
    const char *p = plan;
    while (p && *p) {
        char *e;
        long k = strtol(p, &e, 10);
        if (*e != ':') break;
        const char *a = e + 1;
        size_t len = strcspn(a, ",");
        if (k == n && len < size) {
            memcpy(action, a, len);
            action[len] = 0;
            if (!strcmp(action, "kill")) raise(SIGKILL);
        }
        p = a[len] ? a + len + 1 : NULL;
    }
    if (from && !action[0]) {
        char *e;
        long k = strtol(from, &e, 10);
        if (*e == ':' && n >= k && strlen(e + 1) < size) strcpy(action, e + 1);
    }
    return n;
}

static int fail(const char *a)
{
    if (!strcmp(a, "eio")) return EIO;
    if (!strcmp(a, "enospc")) return ENOSPC;
    if (!strcmp(a, "eintr")) return EINTR;
    if (!strcmp(a, "eacces")) return EACCES;
    if (!strcmp(a, "epipe")) return EPIPE;
    if (!strcmp(a, "eagain")) return EAGAIN;
    if (!strcmp(a, "einval")) return EINVAL;
    if (!strcmp(a, "enoent")) return ENOENT;
    if (!strcmp(a, "etimedout")) return ETIMEDOUT;
    if (!strcmp(a, "efbig")) return EFBIG;
    if (!strcmp(a, "enosys")) return ENOSYS;
    return 0;
}

static size_t limit(size_t n, const char *a, long max)
{
    if (max >= 0 && n > (size_t)max) n = max;
    if (n > 0 && !strcmp(a, "one")) n = 1;
    if (n > 1 && !strcmp(a, "half")) n /= 2;
    if (n > 1 && !strcmp(a, "allbutone")) n -= 1;
    return n;
}

static int do_open(int dir, const char *path, int flags, mode_t mode)
{
    start();
    char a[16];
    int t = below(path), n = -1, r;
    if (t) {
        n = next(a, sizeof a);
        int e = fail(a);
        if (e) {
            note("%d open %d %s -> %s\n", n, flags & O_ACCMODE, path, a);
            errno = e;
            return -1;
        }
    }
    r = syscall(SYS_openat, dir, path, flags, mode);
    if (t) note("%d open %d %s -> %d\n", n, flags & O_ACCMODE, path, r);
    if (r >= 0 && r < MAXFD) {
        tracked[r] = t;
        writable[r] = (flags & O_ACCMODE) != O_RDONLY;
        if (t) paths[r] = strdup(path);
    }
    return r;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static void keep_copy(int fd)
{
    static atomic_int n;
    char name[4200], buf[65536];
    const char *b = strrchr(paths[fd], '/');
    snprintf(name, sizeof name, "%s/%03d-%s", keep, atomic_fetch_add(&n, 1), b ? b + 1 : paths[fd]);
    int in = syscall(SYS_openat, AT_FDCWD, paths[fd], O_RDONLY | O_CLOEXEC);
    int out = syscall(SYS_openat, AT_FDCWD, name, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    long k;
    while (in >= 0 && out >= 0 && (k = syscall(SYS_read, in, buf, sizeof buf)) > 0) syscall(SYS_write, out, buf, k);
    if (in >= 0) syscall(SYS_close, in);
    if (out >= 0) syscall(SYS_close, out);
}

int close(int fd)
{
    if (keep && fd >= 0 && fd < MAXFD && tracked[fd] && writable[fd]) keep_copy(fd);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return syscall(SYS_close, fd);
}

static int is_tracked(int fd) { return fd >= 0 && fd < MAXFD && tracked[fd]; }

ssize_t read(int fd, void *buf, size_t n)
{
    start();
    if (!is_tracked(fd)) return syscall(SYS_read, fd, buf, n);
    char a[16];
    int k = next(a, sizeof a), e = fail(a);
    if (e) {
        note("%d read %s %zu -> %s\n", k, paths[fd], n, a);
        errno = e;
        return -1;
    }
    ssize_t r = syscall(SYS_read, fd, buf, limit(n, a, maxread));
    note("%d read %s %zu -> %zd %s\n", k, paths[fd], n, r, a);
    return r;
}

ssize_t pread64(int fd, void *buf, size_t n, off64_t off)
{
    start();
    if (!is_tracked(fd)) return syscall(SYS_pread64, fd, buf, n, off);
    char a[16];
    int k = next(a, sizeof a), e = fail(a);
    if (e) {
        note("%d read %s %zu -> %s\n", k, paths[fd], n, a);
        errno = e;
        return -1;
    }
    ssize_t r = syscall(SYS_pread64, fd, buf, limit(n, a, maxread), off);
    note("%d read %s %zu -> %zd %s\n", k, paths[fd], n, r, a);
    return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }

ssize_t write(int fd, const void *buf, size_t n)
{
    start();
    if (!is_tracked(fd)) return syscall(SYS_write, fd, buf, n);
    char a[16];
    int k = next(a, sizeof a), e = fail(a);
    if (e) {
        note("%d write %s %zu -> %s\n", k, paths[fd], n, a);
        errno = e;
        return -1;
    }
    if (!strcmp(a, "zero")) {
        note("%d write %s %zu -> zero\n", k, paths[fd], n);
        return 0;
    }
    if (!strcmp(a, "torn")) {
        syscall(SYS_write, fd, buf, n / 2);
        raise(SIGKILL);
    }
    ssize_t r = syscall(SYS_write, fd, buf, limit(n, a, maxwrite));
    note("%d write %s %zu -> %zd %s\n", k, paths[fd], n, r, a);
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    start();
    if (!is_tracked(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t readv(int fd, const struct iovec *v, int c)
{
    start();
    if (!is_tracked(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

off64_t lseek64(int fd, off64_t o, int w)
{
    start();
    if (!is_tracked(fd)) return syscall(SYS_lseek, fd, o, w);
    char a[16];
    int k = next(a, sizeof a), e = fail(a);
    if (e && e != EINTR) {
        note("%d lseek %s -> %s\n", k, paths[fd], a);
        errno = e;
        return -1;
    }
    off64_t r = syscall(SYS_lseek, fd, o, w);
    note("%d lseek %s -> %lld\n", k, paths[fd], (long long)r);
    return r;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

/* Copies inside the kernel go through read and write instead. */
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned flags)
{
    start();
    if (!is_tracked(in) && !is_tracked(out)) return syscall(SYS_copy_file_range, in, io, out, oo, n, flags);
    errno = ENOSYS;
    return -1;
}

ssize_t sendfile64(int out, int in, off64_t *o, size_t n)
{
    start();
    if (!is_tracked(in) && !is_tracked(out)) return syscall(SYS_sendfile, out, in, o, n);
    errno = EINVAL;
    return -1;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }

ssize_t splice(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned flags)
{
    start();
    if (!is_tracked(in) && !is_tracked(out)) return syscall(SYS_splice, in, io, out, oo, n, flags);
    errno = EINVAL;
    return -1;
}

/* Renaming and synchronising can fail too. */
static int other(const char *what, const char *name)
{
    char a[16];
    int k = next(a, sizeof a), e = fail(a);
    note("%d %s %s -> %s\n", k, what, name, a);
    if (e && e != EINTR) {
        errno = e;
        return -1;
    }
    return 0;
}

int rename(const char *from_, const char *to)
{
    start();
    if (below(to) && other("rename", to)) return -1;
    return syscall(SYS_rename, from_, to);
}

int renameat(int d, const char *from_, int d2, const char *to)
{
    start();
    if (below(to) && other("rename", to)) return -1;
    return syscall(SYS_renameat, d, from_, d2, to);
}

int link(const char *from_, const char *to)
{
    start();
    if (below(to) && other("rename", to)) return -1;
    return syscall(SYS_link, from_, to);
}

int unlink(const char *p)
{
    start();
    if (below(p) && other("unlink", p)) return -1;
    return syscall(SYS_unlink, p);
}

int unlinkat(int d, const char *p, int flags)
{
    start();
    if (below(p) && other("unlink", p)) return -1;
    return syscall(SYS_unlinkat, d, p, flags);
}

int mkdir(const char *p, mode_t m)
{
    start();
    if (below(p) && other("mkdir", p)) return -1;
    return syscall(SYS_mkdir, p, m);
}

int fsync(int fd)
{
    start();
    if (is_tracked(fd) && other("sync", paths[fd])) return -1;
    return syscall(SYS_fsync, fd);
}

int fdatasync(int fd)
{
    start();
    if (is_tracked(fd) && other("sync", paths[fd])) return -1;
    return syscall(SYS_fdatasync, fd);
}

int ftruncate64(int fd, off64_t n)
{
    start();
    if (is_tracked(fd) && other("truncate", paths[fd])) return -1;
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

int statx(int dir, const char *path, int flags, unsigned mask, struct statx *b)
{
    start();
    /* The standard library asks with no path whether there is such a call; the
     * declaration says that there always is one. */
    const char *volatile given = path;
    int t = given && path[0] ? below(path) : is_tracked(dir);
    if (t) {
        char a[16];
        int k = next(a, sizeof a), e = fail(a);
        const char *p = given && path[0] ? path : paths[dir];
        note("%d stat %s -> %s\n", k, p, a);
        /* These calls are never interrupted. */
        if (e && e != EINTR) {
            errno = e;
            return -1;
        }
    }
    return syscall(SYS_statx, dir, path, flags, mask, b);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    start();
    if (!seed) return syscall(SYS_getrandom, buf, n, flags);
    static atomic_ullong state;
    unsigned long long x = strtoull(seed, NULL, 10) * 0x9e3779b97f4a7c15ull;
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        unsigned long long z = x + atomic_fetch_add(&state, 1) * 0xbf58476d1ce4e5b9ull;
        z ^= z >> 30;
        z *= 0x94d049bb133111ebull;
        p[i] = z >> 40;
    }
    return n;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    start();
    if (clockplan && id == CLOCK_REALTIME) {
        ts->tv_sec = 1500000000 + atomic_load(&jumps) * jump;
        ts->tv_nsec = (long long)atomic_load(&readings) * tick % 1000000000;
        return 0;
    }
    if (!clockplan || id != CLOCK_MONOTONIC) return syscall(SYS_clock_gettime, id, ts);
    int k = atomic_fetch_add(&readings, 1) + 1;
    int hit = !strcmp(clockplan, "all");
    const char *p = clockplan;
    while (!hit && p && *p) {
        char *e;
        if (strtol(p, &e, 10) == k && e != p) hit = 1;
        p = *e == ',' ? e + 1 : NULL;
    }
    long j = hit ? atomic_fetch_add(&jumps, 1) + 1 : atomic_load(&jumps);
    note("clock %d %ld\n", k, j);
    long long ns = (long long)k * tick;
    ts->tv_sec = 1000 + j * jump + ns / 1000000000;
    ts->tv_nsec = ns % 1000000000;
    return 0;
}

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *mask)
{
    start();
    if (!cpus) {
        int r = syscall(SYS_sched_getaffinity, pid, size, mask);
        if (r < 0) return -1;
        memset((char *)mask + r, 0, size - r);
        return 0;
    }
    memset(mask, 0, size);
    for (int i = 0; i < atoi(cpus); i++) CPU_SET_S(i, size, mask);
    return 0;
}
