/* The seam between a simulated run and the operating system: an LD_PRELOAD library through which the interpreter's
 * file, directory and clock calls pass.  Off until seam_on() is called (by the harness, through ctypes), and then
 * everything is decided by the plan it was given: the n-th call of a kind fails, is cut short, or is the last thing
 * the process does. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPENW, K_OPENR, K_WRITE, K_READ, K_CLOSE, K_MKDIR, K_CHDIR, K_RENAME, K_UNLINK, K_TRUNC, K_FSYNC, K_N };
static const char *kname[K_N] = {"open-for-writing", "open-for-reading", "write", "read", "close", "mkdir", "chdir",
                                 "rename", "unlink", "truncate", "fsync"};

enum { A_ERRNO = 1, A_SHORT = 2, A_CRASH_BEFORE = 3, A_CRASH_AFTER = 4, A_TORN_CRASH = 5 };

#define MAXF 16
#define MAXFD 4096
#define LOGSZ (1 << 20)

static int on = 0;
static char prefix[PATH_MAX];      /* faults and counting: paths below this */
static char readprefix[PATH_MAX];  /* and reading below this */
static int any_dir = 0;            /* count chdir to any place */
static struct { int kind, nth, action, arg, used; } plan[MAXF];
static int nplan = 0;
static long count[K_N];
static long total = 0;
static int nth_any = 0, any_action = 0, any_arg = 0, any_used = 0;
static long budget = -1;           /* bytes the disk still takes; -1: any number */
static int budget_hit = 0;
static char fdk[MAXFD];            /* 1: opened below prefix for writing, 2: for reading below readprefix */
static char logbuf[LOGSZ];
static size_t loglen = 0;
static int fired = 0;

static int clk_on = 0;
static int64_t clk[16];
static int64_t tick = 0;
static long clk_reads = 0;

static void note(const char *fmt, ...) {
    va_list ap;
    if (loglen + 600 > LOGSZ) return;
    va_start(ap, fmt);
    int n = vsnprintf(logbuf + loglen, 590, fmt, ap);
    va_end(ap);
    if (n > 589) n = 589;
    loglen += n;
    logbuf[loglen++] = '\n';
    logbuf[loglen] = 0;
}


static void absolute(int dirfd, const char *path, char *out) {
    char tmp[PATH_MAX * 2];
    if (path[0] == '/') {
        snprintf(tmp, sizeof tmp, "%s", path);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) strcpy(base, "?");
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1);
            base[n < 0 ? 0 : n] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    /* squeeze // and /./ and /../ textually */
    char *o = out;
    const char *s = tmp;
    *o = 0;
    while (*s) {
        while (*s == '/') s++;
        const char *e = strchr(s, '/');
        size_t n = e ? (size_t)(e - s) : strlen(s);
        if (n == 0) break;
        if (n == 1 && s[0] == '.') {
        } else if (n == 2 && s[0] == '.' && s[1] == '.') {
            while (o > out && *--o != '/');
            *o = 0;
        } else {
            if ((size_t)(o - out) + n + 2 > PATH_MAX) break;
            *o++ = '/';
            memcpy(o, s, n);
            o += n;
            *o = 0;
        }
        s += n;
    }
    if (o == out) { *o++ = '/'; *o = 0; }
}

static int under(const char *abs, const char *pre) {
    size_t n = strlen(pre);
    return n && strncmp(abs, pre, n) == 0 && (abs[n] == 0 || abs[n] == '/');
}

/* decide about one call: 0 go on, >0 errno, -1 short, -2 crash after, -3 torn crash */
static int decide(int kind, int *arg) {
    count[kind]++;
    total++;
    if (nth_any && total == nth_any && !any_used) {
        any_used = 1;
        fired++;
        note("FAULT %s #%ld (step %ld) action %d/%d", kname[kind], count[kind], total, any_action, any_arg);
        *arg = any_arg;
        if (any_action == A_CRASH_BEFORE) _exit(137);
        if (any_action == A_CRASH_AFTER) return -2;
        if (any_action == A_TORN_CRASH) return kind == K_WRITE ? -3 : -2;
        if (any_action == A_ERRNO) return any_arg;
    }
    for (int i = 0; i < nplan; i++) {
        if (plan[i].kind != kind || plan[i].used /* done */ || count[kind] < plan[i].nth) continue;
        plan[i].used = 1;
        fired++;
        note("FAULT %s #%ld (step %ld) action %d/%d", kname[kind], count[kind], total, plan[i].action, plan[i].arg);
        *arg = plan[i].arg;
        switch (plan[i].action) {
        case A_ERRNO: return plan[i].arg;
        case A_SHORT: return -1;
        case A_CRASH_BEFORE: _exit(137);
        case A_CRASH_AFTER: return -2;
        case A_TORN_CRASH: return -3;
        }
    }
    return 0;
}

/* ---- control */
void seam_on(const char *pre, const char *rpre, int anydir) {
    snprintf(prefix, sizeof prefix, "%s", pre);
    snprintf(readprefix, sizeof readprefix, "%s", rpre);
    any_dir = anydir;
    nplan = 0;
    memset(count, 0, sizeof count);
    total = 0;
    nth_any = any_used = 0;
    budget = -1;
    budget_hit = 0;
    loglen = 0;
    logbuf[0] = 0;
    fired = 0;
    memset(fdk, 0, sizeof fdk);
    on = 1;
}
void seam_fault(int kind, int nth, int action, int arg) {
    if (nplan < MAXF) {
        plan[nplan].kind = kind; plan[nplan].nth = nth; plan[nplan].action = action; plan[nplan].arg = arg;
        plan[nplan].used = 0;
        nplan++;
    }
}
void seam_clear(void) { nplan = 0; }
void seam_any(int nth, int action, int arg) { nth_any = nth; any_action = action; any_arg = arg; any_used = 0; }
void seam_budget(long b) { budget = b; }
void seam_off(void) { on = 0; }
long seam_count(int kind) { return kind < 0 ? total : count[kind]; }
int seam_fired(void) { return fired; }
const char *seam_log(void) { return logbuf; }
void seam_clock(int enable) { clk_on = enable; clk_reads = 0; tick = 0; }
void seam_clock_set(int id, int64_t ns) { clk[id & 15] = ns; }
int64_t seam_clock_get(int id) { return clk[id & 15]; }
void seam_clock_tick(int64_t ns) { tick = ns; }
long seam_clock_reads(void) { return clk_reads; }

/* ---- files */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!on) return syscall(SYS_openat, dirfd, path, flags, mode);
    char a[PATH_MAX];
    absolute(dirfd, path, a);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int counted = w ? under(a, prefix) : under(a, readprefix);
    int d = 0, arg = 0;
    if (w) note("%s %s", kname[K_OPENW], a);
    if (counted && !(flags & O_DIRECTORY)) {
        d = decide(w ? K_OPENW : K_OPENR, &arg);
        if (d > 0) { errno = d; return -1; }
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) fdk[fd] = counted ? (w ? 1 : 2) : 0;
    if (d == -2 || d == -3) _exit(137);
    return fd;
}
int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(AT_FDCWD, path, flags, m);
}
int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m);
}
int openat(int dirfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(dirfd, path, flags, m);
}
int openat64(int dirfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(dirfd, path, flags | O_LARGEFILE, m);
}
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int write_gate(int fd, size_t *n) {
    int arg = 0;
    int d = decide(K_WRITE, &arg);
    if (d > 0) return d;
    if (d == -1 || d == -3) {
        size_t k = arg > 0 ? (size_t)arg % (*n ? *n : 1) : *n / 2;
        if (k == 0) k = *n > 1 ? 1 : *n;
        *n = k;
    }
    if (d == -3) return -3;
    if (d == -2) return -2;
    if (budget >= 0) {
        if (budget == 0) { if (!budget_hit) { budget_hit = 1; fired++; note("FAULT disk full"); } return ENOSPC; }
        if ((long)*n > budget) *n = budget;
        budget -= *n;
    }
    return 0;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (!on || fd < 0 || fd >= MAXFD || fdk[fd] != 1) return syscall(SYS_write, fd, buf, n);
    int d = write_gate(fd, &n);
    if (d > 0) { errno = d; return -1; }
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (d == -3 || d == -2) _exit(137);
    note("write %zd", r);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!on || fd < 0 || fd >= MAXFD || fdk[fd] != 1) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t o) {
    if (!on || fd < 0 || fd >= MAXFD || fdk[fd] != 1) return syscall(SYS_pwrite64, fd, buf, n, o);
    int d = write_gate(fd, &n);
    if (d > 0) { errno = d; return -1; }
    ssize_t r = syscall(SYS_pwrite64, fd, buf, n, o);
    if (d == -3 || d == -2) _exit(137);
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return do_pwrite(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return do_pwrite(fd, buf, n, o); }
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    if (on && out >= 0 && out < MAXFD && fdk[out] == 1) { errno = EINVAL; return -1; }   /* callers fall back to write */
    return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, (off_t *)off, n); }
ssize_t read(int fd, void *buf, size_t n) {
    if (on && fd >= 0 && fd < MAXFD && fdk[fd] == 2) {
        int arg = 0;
        int d = decide(K_READ, &arg);
        if (d > 0) { errno = d; return -1; }
        if (d == -1) { size_t k = arg > 0 ? arg : 1; if (k < n) n = k; }
        ssize_t r = syscall(SYS_read, fd, buf, n);
        if (d < -1) _exit(137);
        return r;
    }
    return syscall(SYS_read, fd, buf, n);
}
int close(int fd) {
    if (on && fd >= 0 && fd < MAXFD && fdk[fd] == 1) {
        int arg = 0;
        int d = decide(K_CLOSE, &arg);
        fdk[fd] = 0;
        int r = syscall(SYS_close, fd);
        if (d < 0) _exit(137);
        if (d > 0) { errno = d; return -1; }
        return r;
    }
    if (fd >= 0 && fd < MAXFD) fdk[fd] = 0;
    return syscall(SYS_close, fd);
}
static int two(int kind, int dirfd, const char *path, int *arg) {
    char a[PATH_MAX];
    absolute(dirfd, path, a);
    note("%s %s", kname[kind], a);
    if (under(a, prefix) || (kind == K_CHDIR && any_dir)) return decide(kind, arg);
    return 0;
}
#define GATE(kind, dirfd, path) int arg_ = 0, d_ = 0; if (on) { d_ = two(kind, dirfd, path, &arg_); if (d_ > 0) { errno = d_; return -1; } }
#define DONE(r) do { long r_ = (r); if (d_ < -1) _exit(137); return r_; } while (0)
int mkdir(const char *path, mode_t m) { GATE(K_MKDIR, AT_FDCWD, path) DONE(syscall(SYS_mkdir, path, m)); }
int mkdirat(int fd, const char *path, mode_t m) { GATE(K_MKDIR, fd, path) DONE(syscall(SYS_mkdirat, fd, path, m)); }
int chdir(const char *path) { GATE(K_CHDIR, AT_FDCWD, path) DONE(syscall(SYS_chdir, path)); }
int fchdir(int fd) {
    char l[64], b[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, l, b, sizeof b - 1);
    b[n < 0 ? 0 : n] = 0;
    GATE(K_CHDIR, AT_FDCWD, b) DONE(syscall(SYS_fchdir, fd));
}
int rename(const char *a, const char *b) {
    if (on) { char x[PATH_MAX]; absolute(AT_FDCWD, a, x); note("rename-from %s", x); }
    GATE(K_RENAME, AT_FDCWD, b) DONE(syscall(SYS_rename, a, b));
}
int renameat(int f, const char *a, int g, const char *b) {
    if (on) { char x[PATH_MAX]; absolute(f, a, x); note("rename-from %s", x); }
    GATE(K_RENAME, g, b) DONE(syscall(SYS_renameat, f, a, g, b));
}
int renameat2(int f, const char *a, int g, const char *b, unsigned fl) {
    if (on) { char x[PATH_MAX]; absolute(f, a, x); note("rename-from %s", x); }
    GATE(K_RENAME, g, b) DONE(syscall(SYS_renameat2, f, a, g, b, fl));
}
int link(const char *a, const char *b) { GATE(K_RENAME, AT_FDCWD, b) DONE(syscall(SYS_link, a, b)); }
int symlink(const char *a, const char *b) { GATE(K_RENAME, AT_FDCWD, b) DONE(syscall(SYS_symlink, a, b)); }
int unlink(const char *path) { GATE(K_UNLINK, AT_FDCWD, path) DONE(syscall(SYS_unlink, path)); }
int unlinkat(int fd, const char *path, int fl) { GATE(K_UNLINK, fd, path) DONE(syscall(SYS_unlinkat, fd, path, fl)); }
int rmdir(const char *path) { GATE(K_UNLINK, AT_FDCWD, path) DONE(syscall(SYS_rmdir, path)); }
int truncate(const char *path, off_t n) { GATE(K_TRUNC, AT_FDCWD, path) DONE(syscall(SYS_truncate, path, n)); }
int truncate64(const char *path, off64_t n) { GATE(K_TRUNC, AT_FDCWD, path) DONE(syscall(SYS_truncate, path, n)); }
static int fd_gate(int kind, int fd) {
    int arg = 0;
    if (on && fd >= 0 && fd < MAXFD && fdk[fd] == 1) return decide(kind, &arg);
    return 0;
}
int ftruncate(int fd, off_t n) { int d_ = fd_gate(K_TRUNC, fd); if (d_ > 0) { errno = d_; return -1; } DONE(syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { int d_ = fd_gate(K_TRUNC, fd); if (d_ > 0) { errno = d_; return -1; } DONE(syscall(SYS_ftruncate, fd, n)); }
int fsync(int fd) { int d_ = fd_gate(K_FSYNC, fd); if (d_ > 0) { errno = d_; return -1; } DONE(syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { int d_ = fd_gate(K_FSYNC, fd); if (d_ > 0) { errno = d_; return -1; } DONE(syscall(SYS_fdatasync, fd)); }

/* ---- clocks */
static int64_t read_clock(int id) {
    clk_reads++;
    int64_t v = clk[id & 15];
    if (tick) for (int i = 0; i < 16; i++) clk[i] += tick;
    return v;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!clk_on || id < 0 || id > 15) {
        if (clk_on && id < 0) id = CLOCK_PROCESS_CPUTIME_ID;
        else return syscall(SYS_clock_gettime, id, ts);
    }
    int64_t v = read_clock(id);
    ts->tv_sec = v / 1000000000;
    ts->tv_nsec = v % 1000000000;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (!clk_on) return syscall(SYS_gettimeofday, tv, tz);
    int64_t v = read_clock(CLOCK_REALTIME);
    tv->tv_sec = v / 1000000000;
    tv->tv_usec = v % 1000000000 / 1000;
    return 0;
}
time_t time(time_t *t) {
    time_t v;
    if (!clk_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    else v = read_clock(CLOCK_REALTIME) / 1000000000;
    if (t) *t = v;
    return v;
}
clock_t clock(void) {
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
