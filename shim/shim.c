/*
 * LD_PRELOAD shim: watches the file system calls a process makes below one directory (the scope),
 * and injects one fault at the n-th of them. Also provides a clock that can be set.
 *
 * Nothing is changed until armed through shim_arm() / shim_clock().
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OFF = 0, COUNT = 1, KILL = 2, PARTIAL_KILL = 3, FAIL = 4, FAIL_ON = 5, SIGINT_ = 6, CALLBACK = 7, SHORT_FAIL = 8 };

static int mode = OFF;
static long nth = 0;
static int fault_errno = 0;
static int count_reads = 0;
static volatile long ops = 0;
static volatile long fired = 0;
static char scope[4096];
static size_t scope_len = 0;
static int log_fd = -1;
static void (*callback)(long) = NULL;
static __thread int inside = 0;
static unsigned delay_max = 0;
static unsigned delay_state = 1;
static int no_sync = 0;
static int clock_on = 0;
static long long clock_us = 0;
static long long clock_step = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* ---- control */
void shim_arm(int m, long n, int err, const char *dir, int reads)
{
    mode = OFF;
    ops = 0;
    fired = 0;
    nth = n;
    fault_errno = err;
    count_reads = reads;
    strncpy(scope, dir, sizeof scope - 1);
    scope_len = strlen(scope);
    mode = m;
}
void shim_disarm(void) { mode = OFF; delay_max = 0; }
long shim_ops(void) { return ops; }
long shim_fired(void) { return fired; }
void shim_log(int fd) { log_fd = fd; }
void shim_callback(void (*cb)(long)) { callback = cb; }
void shim_delay(unsigned max_us, unsigned seed, const char *dir)
{
    strncpy(scope, dir, sizeof scope - 1);
    scope_len = strlen(scope);
    delay_state = seed * 2654435761u + 1;
    delay_max = max_us;
}
void shim_nosync(int on) { no_sync = on; }
void shim_clock(int on, long long us, long long step) { clock_us = us; clock_step = step; clock_on = on; }

/* ---- scope */
static int in_scope_abs(const char *p)
{
    return scope_len && strncmp(p, scope, scope_len) == 0 && (p[scope_len] == '/' || p[scope_len] == 0);
}

static int fd_path(int fd, char *buf, size_t size)
{
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, size - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return 1;
}

static int path_in_scope(int dirfd, const char *path)
{
    char buf[4096];
    if (!path) return 0;
    if (path[0] == '/') return in_scope_abs(path);
    if (dirfd == AT_FDCWD) {
        if (!getcwd(buf, sizeof buf)) return 0;
    } else if (!fd_path(dirfd, buf, sizeof buf)) return 0;
    return in_scope_abs(buf);
}

static int fd_in_scope(int fd)
{
    char buf[4096];
    return fd_path(fd, buf, sizeof buf) && in_scope_abs(buf);
}

static int active(void)
{
    return (mode != OFF || delay_max) && !inside;
}

static void pause_a_bit(void)
{
    if (!delay_max) return;
    delay_state = delay_state * 1664525u + 1013904223u;
    unsigned r = delay_state >> 8;
    if (r % 4 == 0) {
        struct timespec t = {0, (long)((r >> 2) % delay_max) * 1000L};
        nanosleep(&t, NULL);
    }
}

static void note(const char *name, const char *path, long n)
{
    if (log_fd < 0) return;
    char line[600];
    int len = snprintf(line, sizeof line - 1, "%ld %s %.500s", n, name, path ? path : "");
    if (len > (int)sizeof line - 2) len = sizeof line - 2;
    for (int i = 0; i < len; i++)
        if (line[i] == '\n') line[i] = '?';
    line[len++] = '\n';
    REAL(ssize_t, write, int, const void *, size_t);
    if (real_write(log_fd, line, (size_t)len) < 0) { }
}

static int frees_space(const char *name)
{
    return strstr(name, "unlink") || strstr(name, "rmdir") || strstr(name, "chmod") || strstr(name, "-r") || strstr(name, "read");
}

/* returns: 0 go on, 1 fail with errno, 2 partial then kill, 3 short then fail */
static int step(const char *name, int dirfd, const char *path, int fd, int is_write)
{
    if (!active()) return 0;
    int e = errno;
    inside = 1;
    int hit = path ? path_in_scope(dirfd, path) : fd_in_scope(fd);
    int r = 0;
    if (hit) {
        pause_a_bit();
        if (mode != OFF) {
            char buf[4096];
            long n = ++ops;
            if (log_fd >= 0) {
                if (!path && fd_path(fd, buf, sizeof buf)) path = buf;
                note(name, path, n);
            }
            int at = n == nth;
            /* a full disk does not prevent removing things */
                if (mode == FAIL_ON) at = n >= nth && !frees_space(name);
            if (at) {
                fired++;
                switch (mode) {
                case KILL: kill(getpid(), SIGKILL); for (;;) pause();
                case PARTIAL_KILL:
                    if (is_write) r = 2;
                    else { kill(getpid(), SIGKILL); for (;;) pause(); }
                    break;
                case FAIL: case FAIL_ON: e = fault_errno; r = 1; break;
                case SHORT_FAIL:
                    if (is_write) r = 3;
                    else { e = fault_errno; r = 1; }
                    mode = COUNT;
                    break;
                case SIGINT_: raise(SIGINT); break;
                case CALLBACK: if (callback) callback(n); break;
                default: break;
                }
            }
        }
    }
    inside = 0;
    errno = e;
    return r;
}

#define STEP(name, dirfd, path, fd, w) \
    int verdict = step(name, dirfd, path, fd, w); \
    if (verdict == 1) return -1

/* ---- interposed calls */
static int writing(int flags)
{
    return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
}

#define OPEN_BODY(name, call, dirfd) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (writing(flags) || count_reads) { STEP(name, dirfd, path, -1, 0); } \
    return call

int open64(const char *path, int flags, ...)
{
    REAL(int, open64, const char *, int, ...);
    OPEN_BODY(writing(flags) ? "open-w" : "open-r", real_open64(path, flags, m), AT_FDCWD);
}
int open(const char *path, int flags, ...)
{
    REAL(int, open, const char *, int, ...);
    OPEN_BODY(writing(flags) ? "open-w" : "open-r", real_open(path, flags, m), AT_FDCWD);
}
int openat64(int dirfd, const char *path, int flags, ...)
{
    REAL(int, openat64, int, const char *, int, ...);
    OPEN_BODY(writing(flags) ? "openat-w" : "openat-r", real_openat64(dirfd, path, flags, m), dirfd);
}
int openat(int dirfd, const char *path, int flags, ...)
{
    REAL(int, openat, int, const char *, int, ...);
    OPEN_BODY(writing(flags) ? "openat-w" : "openat-r", real_openat(dirfd, path, flags, m), dirfd);
}

/* a moment after a lock is released is when another process can come in between */
static int lock_call(int fd, int cmd, void *arg, int r)
{
    if ((mode == CALLBACK || delay_max) && cmd == F_SETLK && arg && ((struct flock *)arg)->l_type == F_UNLCK)
        step("unlock", 0, NULL, fd, 0);
    return r;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    REAL(int, fcntl64, int, int, ...);
    return lock_call(fd, cmd, arg, real_fcntl64(fd, cmd, arg));
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    REAL(int, fcntl, int, int, ...);
    return lock_call(fd, cmd, arg, real_fcntl(fd, cmd, arg));
}

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t);
    if (count_reads) { STEP("read", 0, NULL, fd, 0); }
    return real_read(fd, buf, n);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off)
{
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    if (count_reads) { STEP("pread", 0, NULL, fd, 0); }
    return real_pread64(fd, buf, n, off);
}
ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    if (!active()) return real_write(fd, buf, n);
    STEP("write", 0, NULL, fd, 1);
    if (verdict == 2) { if (real_write(fd, buf, n / 2) < 0) { } kill(getpid(), SIGKILL); for (;;) pause(); }
    if (verdict == 3) { if (n > 1) return real_write(fd, buf, n / 2); errno = fault_errno; return -1; }
    return real_write(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    STEP("pwrite", 0, NULL, fd, 1);
    if (verdict == 2) { if (real_pwrite64(fd, buf, n / 2, off) < 0) { } kill(getpid(), SIGKILL); for (;;) pause(); }
    if (verdict == 3) { errno = fault_errno; return -1; }
    return real_pwrite64(fd, buf, n, off);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    STEP("writev", 0, NULL, fd, 0);
    return real_writev(fd, v, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    STEP("sendfile", 0, NULL, out, 0);
    return real_sendfile64(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    STEP("copy_file_range", 0, NULL, out, 0);
    return real_copy_file_range(in, oi, out, oo, n, fl);
}
int ftruncate64(int fd, off64_t n)
{
    REAL(int, ftruncate64, int, off64_t);
    STEP("ftruncate", 0, NULL, fd, 0);
    return real_ftruncate64(fd, n);
}
int fsync(int fd)
{
    REAL(int, fsync, int);
    STEP("fsync", 0, NULL, fd, 0);
    if (no_sync) return 0;
    return real_fsync(fd);
}
int fdatasync(int fd)
{
    REAL(int, fdatasync, int);
    STEP("fdatasync", 0, NULL, fd, 0);
    if (no_sync) return 0;
    return real_fdatasync(fd);
}
int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    STEP("rename", AT_FDCWD, b, -1, 0);
    return real_rename(a, b);
}
int renameat(int da, const char *a, int db, const char *b)
{
    REAL(int, renameat, int, const char *, int, const char *);
    STEP("renameat", db, b, -1, 0);
    return real_renameat(da, a, db, b);
}
int unlink(const char *p)
{
    REAL(int, unlink, const char *);
    STEP("unlink", AT_FDCWD, p, -1, 0);
    return real_unlink(p);
}
int unlinkat(int d, const char *p, int f)
{
    REAL(int, unlinkat, int, const char *, int);
    STEP("unlinkat", d, p, -1, 0);
    return real_unlinkat(d, p, f);
}
int rmdir(const char *p)
{
    REAL(int, rmdir, const char *);
    STEP("rmdir", AT_FDCWD, p, -1, 0);
    return real_rmdir(p);
}
int mkdir(const char *p, mode_t m)
{
    REAL(int, mkdir, const char *, mode_t);
    STEP("mkdir", AT_FDCWD, p, -1, 0);
    return real_mkdir(p, m);
}
int mkdirat(int d, const char *p, mode_t m)
{
    REAL(int, mkdirat, int, const char *, mode_t);
    STEP("mkdirat", d, p, -1, 0);
    return real_mkdirat(d, p, m);
}
int chmod(const char *p, mode_t m)
{
    REAL(int, chmod, const char *, mode_t);
    STEP("chmod", AT_FDCWD, p, -1, 0);
    return real_chmod(p, m);
}
int fchmod(int fd, mode_t m)
{
    REAL(int, fchmod, int, mode_t);
    STEP("fchmod", 0, NULL, fd, 0);
    return real_fchmod(fd, m);
}
int fchmodat(int d, const char *p, mode_t m, int f)
{
    REAL(int, fchmodat, int, const char *, mode_t, int);
    STEP("fchmodat", d, p, -1, 0);
    return real_fchmodat(d, p, m, f);
}
int link(const char *a, const char *b)
{
    REAL(int, link, const char *, const char *);
    STEP("link", AT_FDCWD, b, -1, 0);
    return real_link(a, b);
}
int symlink(const char *a, const char *b)
{
    REAL(int, symlink, const char *, const char *);
    STEP("symlink", AT_FDCWD, b, -1, 0);
    return real_symlink(a, b);
}
int utimensat(int d, const char *p, const struct timespec t[2], int f)
{
    REAL(int, utimensat, int, const char *, const struct timespec *, int);
    STEP("utimensat", d, p, -1, 0);
    return real_utimensat(d, p, t, f);
}

/* ---- clock */
int clock_gettime(clockid_t id, struct timespec *t)
{
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        long long us = clock_us;
        clock_us += clock_step;
        long long s = us / 1000000, r = us % 1000000;
        if (r < 0) { r += 1000000; s--; }
        t->tv_sec = s;
        t->tv_nsec = r * 1000;
        return 0;
    }
    return real_clock_gettime(id, t);
}
time_t time(time_t *out)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
