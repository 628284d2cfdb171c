/* libc interposer used by the fsmc explorer.
 *
 * Inactive (plain pass-through) until fsmc_enable(ctl_fd, root) is called in a process. Once
 * enabled, every file-system call on a path below `root`, every file lock and every sleep is
 * announced on ctl_fd and executed only after the controller has answered. The answer can also
 * order the process to die after the call, to tear a data write, or to make the call fail.
 *
 * Protocol (stream socket):  request  "<op>\t<path>\t<info>\n"   -> one answer byte:
 *    'g' go   'd' execute, then SIGKILL self   'p' write only the first half, then SIGKILL self
 *    'x' SIGKILL self before the call          'n' fail with ENOSPC
 * Post-messages "=<ret> <errno>\n" follow lock operations (no answer). "N..." = notification.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int ctl = -1;
static char root[PATH_MAX];
static size_t rootlen;
static __thread int inside;
#define MAXFD 4096
static char *fdpath[MAXFD];
static unsigned char fdlocked[MAXFD];
static unsigned char fdread[MAXFD];

#define REAL(ret, name, ...)                                    \
    static ret (*real_##name)(__VA_ARGS__);                     \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int active(void) { return ctl >= 0 && !inside; }

/* absolute, lexically normalised path; returns pointer to relative part or NULL if not below root */
static const char *rel(const char *p, char *buf) {
    char tmp[PATH_MAX];
    if (!p) return NULL;
    if (p[0] != '/') {
        if (!getcwd(tmp, sizeof tmp)) return NULL;
        size_t n = strlen(tmp);
        snprintf(tmp + n, sizeof tmp - n, "/%s", p);
    } else
        snprintf(tmp, sizeof tmp, "%s", p);
    /* normalise */
    char *out = buf;
    *out = 0;
    size_t len = 0;
    char *save = NULL;
    for (char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) {
            char *s = strrchr(buf, '/');
            if (s) { *s = 0; len = s - buf; }
            continue;
        }
        size_t l = strlen(t);
        if (len + l + 2 >= PATH_MAX) return NULL;
        buf[len++] = '/';
        memcpy(buf + len, t, l + 1);
        len += l;
    }
    if (strncmp(buf, root, rootlen)) return NULL;
    if (buf[rootlen] == 0) return ".";
    if (buf[rootlen] != '/') return NULL;
    return buf + rootlen + 1;
}

static void send_all(const char *b, size_t n) {
    while (n) {
        ssize_t w = syscall(SYS_write, ctl, b, n);
        if (w <= 0) { if (errno == EINTR) continue; syscall(SYS_kill, getpid(), SIGKILL); }
        b += w; n -= w;
    }
}
static void die(void) { syscall(SYS_kill, (long)getpid(), SIGKILL); for (;;) pause(); }

static int ask(const char *op, const char *path, const char *info) {
    char m[2 * PATH_MAX + 64];
    int e = errno;
    int n = snprintf(m, sizeof m, "%s\t%s\t%s\n", op, path, info);
    send_all(m, n);
    char c;
    for (;;) {
        ssize_t r = syscall(SYS_read, ctl, &c, 1);
        if (r == 1) break;
        if (r < 0 && errno == EINTR) continue;
        die();
    }
    if (c == 'x') die();
    errno = e;
    return c;
}
static void post(long ret, int err) {
    char m[64];
    int e = errno;
    int n = snprintf(m, sizeof m, "=%ld %d\n", ret, err);
    send_all(m, n);
    errno = e;
}
static void notify(const char *what, const char *path) {
    char m[PATH_MAX + 64];
    int e = errno;
    int n = snprintf(m, sizeof m, "N\t%s\t%s\n", what, path);
    send_all(m, n);
    errno = e;
}

void fsmc_enable(int fd, const char *r) {
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    ctl = fd;
}
void fsmc_disable(void) { ctl = -1; }
int fsmc_present(void) { return 1; }

static void track(int fd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = strdup(p);
    fdlocked[fd] = 0;
    fdread[fd] = 0;
}
static int after(int c) { if (c == 'd' || c == 'p') die(); return 0; }
#define FAILN(c, r) if ((c) == 'n') { errno = ENOSPC; return r; }

/* ---- open family ------------------------------------------------------------------------- */
static int pre_open(const char *path, int flags, char *buf, const char **r) {
    *r = rel(path, buf);
    if (!*r) return 0;
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    int exists = syscall(SYS_faccessat, AT_FDCWD, path, F_OK) == 0;
    char info[16];
    snprintf(info, sizeof info, "%s%s%s", wr ? "w" : "r", (flags & O_TRUNC) && exists ? "t" : "",
             (flags & O_CREAT) && !exists ? "c" : "");
    if ((flags & O_DIRECTORY)) return ask("L", *r, "");
    return ask("O", *r, info);
}
#define OPENFN(name)                                                       \
    int name(const char *path, int flags, ...) {                           \
        REAL(int, name, const char *, int, ...);                           \
        mode_t mode = 0;                                                   \
        if (flags & (O_CREAT | O_TMPFILE)) {                               \
            va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
        if (!active()) return real_##name(path, flags, mode);              \
        char buf[PATH_MAX]; const char *r;                                 \
        inside++; int c = pre_open(path, flags, buf, &r); inside--;        \
        if (!r) return real_##name(path, flags, mode);                     \
        FAILN(c, -1)                                                       \
        int fd = real_##name(path, flags, mode);                           \
        int e = errno;                                                     \
        if (fd >= 0) track(fd, r);                                         \
        after(c); errno = e;                                               \
        return fd;                                                         \
    }
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name)                                                     \
    int name(int d, const char *path, int flags, ...) {                    \
        REAL(int, name, int, const char *, int, ...);                      \
        mode_t mode = 0;                                                   \
        if (flags & (O_CREAT | O_TMPFILE)) {                               \
            va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
        if (!active() || (d != AT_FDCWD && path[0] != '/'))                \
            return real_##name(d, path, flags, mode);                      \
        char buf[PATH_MAX]; const char *r;                                 \
        inside++; int c = pre_open(path, flags, buf, &r); inside--;        \
        if (!r) return real_##name(d, path, flags, mode);                  \
        FAILN(c, -1)                                                       \
        int fd = real_##name(d, path, flags, mode);                        \
        int e = errno;                                                     \
        if (fd >= 0) track(fd, r);                                         \
        after(c); errno = e;                                               \
        return fd;                                                         \
    }
OPENATFN(openat)
OPENATFN(openat64)
static int mode_flags(const char *m) {
    int f = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) f = (f & ~O_ACCMODE) | O_RDWR;
    return f;
}
#define FOPENFN(name)                                                      \
    FILE *name(const char *path, const char *m) {                          \
        REAL(FILE *, name, const char *, const char *);                    \
        if (!active()) return real_##name(path, m);                        \
        char buf[PATH_MAX]; const char *r;                                 \
        inside++; int c = pre_open(path, mode_flags(m), buf, &r); inside--; \
        if (!r) return real_##name(path, m);                               \
        FAILN(c, NULL)                                                     \
        inside++; FILE *f = real_##name(path, m); int e = errno; inside--; \
        if (f) track(fileno(f), r);                                        \
        after(c); errno = e;                                               \
        return f;                                                          \
    }
FOPENFN(fopen)
FOPENFN(fopen64)

/* ---- data --------------------------------------------------------------------------------- */
static int known(int fd) { return fd >= 0 && fd < MAXFD && fdpath[fd]; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!active() || !known(fd)) return real_write(fd, b, n);
    char info[32]; snprintf(info, sizeof info, "%zu", n);
    int c = ask("W", fdpath[fd], info);
    FAILN(c, -1)
    if (c == 'p') { real_write(fd, b, n / 2); die(); }
    ssize_t r = real_write(fd, b, n); int e = errno;
    after(c); errno = e;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!active() || !known(fd)) return real_writev(fd, v, cnt);
    int c = ask("W", fdpath[fd], "v");
    FAILN(c, -1)
    if (c == 'p') { if (cnt > 0) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); die(); }
    ssize_t r = real_writev(fd, v, cnt); int e = errno;
    after(c); errno = e;
    return r;
}
#define PWRITEFN(name)                                                     \
    ssize_t name(int fd, const void *b, size_t n, off_t o) {               \
        REAL(ssize_t, name, int, const void *, size_t, off_t);             \
        if (!active() || !known(fd)) return real_##name(fd, b, n, o);      \
        int c = ask("W", fdpath[fd], "p");                                 \
        FAILN(c, -1)                                                       \
        if (c == 'p') { real_##name(fd, b, n / 2, o); die(); }             \
        ssize_t r = real_##name(fd, b, n, o); int e = errno;               \
        after(c); errno = e;                                               \
        return r;                                                          \
    }
PWRITEFN(pwrite)
PWRITEFN(pwrite64)
#define TRUNCFN(name)                                                      \
    int name(int fd, off_t o) {                                            \
        REAL(int, name, int, off_t);                                       \
        if (!active() || !known(fd)) return real_##name(fd, o);            \
        int c = ask("W", fdpath[fd], "trunc");                             \
        FAILN(c, -1)                                                       \
        int r = real_##name(fd, o); int e = errno;                         \
        after(c); errno = e;                                               \
        return r;                                                          \
    }
TRUNCFN(ftruncate)
TRUNCFN(ftruncate64)
static void pre_read(int fd) {
    if (active() && known(fd) && !fdread[fd]) {
        fdread[fd] = 1;
        ask("R", fdpath[fd], "");
    }
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    pre_read(fd);
    return real_read(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off_t);
    pre_read(fd);
    return real_pread64(fd, b, n, o);
}
int close(int fd) {
    REAL(int, close, int);
    if (ctl >= 0 && known(fd)) {
        if (fdlocked[fd]) notify("unlock", fdpath[fd]);
        free(fdpath[fd]); fdpath[fd] = NULL; fdlocked[fd] = 0;
    }
    return real_close(fd);
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *);
    int fd = f ? fileno(f) : -1;
    if (ctl >= 0 && known(fd)) {
        if (fdlocked[fd]) notify("unlock", fdpath[fd]);
        free(fdpath[fd]); fdpath[fd] = NULL; fdlocked[fd] = 0;
    }
    inside++; int r = real_fclose(f); inside--;
    return r;
}

/* ---- metadata ----------------------------------------------------------------------------- */
static int exists_(const char *p) { return syscall(SYS_faccessat, AT_FDCWD, p, F_OK) == 0; }
static void q_stat(const char *p) {
    char buf[PATH_MAX];
    inside++; const char *r = rel(p, buf); if (r) ask("T", r, ""); inside--;
}
#define STATFN(name)                                                       \
    int name(const char *p, struct stat *s) {                              \
        REAL(int, name, const char *, struct stat *);                      \
        if (active()) q_stat(p);                                           \
        return real_##name(p, s);                                          \
    }
STATFN(stat)
int stat64(const char *p, struct stat64 *s) {
    REAL(int, stat64, const char *, struct stat64 *);
    if (active()) q_stat(p);
    return real_stat64(p, s);
}
int __xstat(int v, const char *p, struct stat *s) {
    REAL(int, __xstat, int, const char *, struct stat *);
    if (active()) q_stat(p);
    return real___xstat(v, p, s);
}
int __xstat64(int v, const char *p, struct stat64 *s) {
    REAL(int, __xstat64, int, const char *, struct stat64 *);
    if (active()) q_stat(p);
    return real___xstat64(v, p, s);
}
int __fxstatat64(int v, int d, const char *p, struct stat64 *s, int fl) {
    REAL(int, __fxstatat64, int, int, const char *, struct stat64 *, int);
    if (active() && (d == AT_FDCWD || p[0] == '/') && !(fl & AT_SYMLINK_NOFOLLOW)) q_stat(p);
    return real___fxstatat64(v, d, p, s, fl);
}
int access(const char *p, int m) {
    REAL(int, access, const char *, int);
    if (active()) q_stat(p);
    return real_access(p, m);
}
#define META1(name, decl, call, path, opname, mutinfo)                     \
    int name decl {                                                        \
        REAL(int, name, META_ARGS);                                        \
        if (!active()) return real_##name call;                            \
        char buf[PATH_MAX];                                                \
        inside++; const char *r = rel(path, buf); int c = 'g';             \
        if (r) c = ask(opname, r, mutinfo);                                \
        inside--;                                                          \
        FAILN(c, -1)                                                       \
        int x = real_##name call; int e = errno;                           \
        if (x == 0) after(c); else if (c == 'd' || c == 'p') die();        \
        errno = e;                                                         \
        return x;                                                          \
    }
#define META_ARGS const char *, mode_t
META1(mkdir, (const char *p, mode_t m), (p, m), p, "M", exists_(p) ? "e" : "c")
#undef META_ARGS
#define META_ARGS const char *
META1(rmdir, (const char *p), (p), p, "D", "")
META1(unlink, (const char *p), (p), p, "D", "")
#undef META_ARGS
#define META_ARGS int, const char *, int
META1(unlinkat, (int d, const char *p, int f), (d, p, f), p, "D", "")
#undef META_ARGS
static int two(const char *a, const char *b, const char *op) {
    char ba[PATH_MAX], bb[PATH_MAX];
    inside++;
    const char *ra = rel(a, ba), *rb = rel(b, bb);
    int c = 'g';
    if (ra || rb) {
        char info[PATH_MAX + 8];
        snprintf(info, sizeof info, "%s|%s", syscall(SYS_faccessat, AT_FDCWD, b, F_OK) == 0 ? "e" : "c", ra ? ra : "/");
        c = ask(op, rb ? rb : "/", info);
    }
    inside--;
    return c;
}
#define TWOFN(name, op)                                                    \
    int name(const char *a, const char *b) {                               \
        REAL(int, name, const char *, const char *);                       \
        if (!active()) return real_##name(a, b);                           \
        int c = two(a, b, op);                                             \
        FAILN(c, -1)                                                       \
        int r = real_##name(a, b); int e = errno;                          \
        after(c); errno = e;                                               \
        return r;                                                          \
    }
TWOFN(rename, "V")
TWOFN(link, "V")
TWOFN(symlink, "V")
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (!active()) return real_renameat(d1, a, d2, b);
    int c = two(a, b, "V");
    FAILN(c, -1)
    int r = real_renameat(d1, a, d2, b); int e = errno;
    after(c); errno = e;
    return r;
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    if (active()) {
        char buf[PATH_MAX];
        inside++; const char *r = rel(p, buf); if (r) ask("L", r, ""); inside--;
    }
    inside++; DIR *d = real_opendir(p); inside--;
    return d;
}
int utimes(const char *p, const struct timeval t[2]) {
    REAL(int, utimes, const char *, const struct timeval *);
    if (active()) q_stat(p);
    return real_utimes(p, t);
}
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    REAL(int, utimensat, int, const char *, const struct timespec *, int);
    if (active() && p) q_stat(p);
    return real_utimensat(d, p, t, f);
}

/* ---- locks and sleeping -------------------------------------------------------------------- */
int flock(int fd, int op) {
    REAL(int, flock, int, int);
    if (!active() || !known(fd)) return real_flock(fd, op);
    if ((op & ~LOCK_NB) == LOCK_UN) {
        int c = ask("U", fdpath[fd], "");
        int r = real_flock(fd, op); int e = errno;
        fdlocked[fd] = 0;
        post(r, 0);
        after(c); errno = e;
        return r;
    }
    for (;;) {
        int c = ask("K", fdpath[fd], (op & LOCK_EX) ? "x" : "s");
        int r = real_flock(fd, op | LOCK_NB), e = errno;
        if (r == 0) fdlocked[fd] = 1;
        post(r, e);
        after(c);
        errno = e;
        if (r == 0 || (op & LOCK_NB) || (e != EWOULDBLOCK)) return r;
        ask("S", fdpath[fd], "block");
    }
}
int fcntl(int fd, int cmd, ...) {
    REAL(int, fcntl, int, int, ...);
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    if (!active() || !known(fd) || (cmd != F_SETLK && cmd != F_SETLKW && cmd != F_OFD_SETLK && cmd != F_OFD_SETLKW))
        return real_fcntl(fd, cmd, arg);
    struct flock *fl = arg;
    if (fl->l_type == F_UNLCK) {
        int c = ask("U", fdpath[fd], "");
        int r = real_fcntl(fd, cmd, arg); fdlocked[fd] = 0; post(r, 0); after(c);
        return r;
    }
    int nb = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
    for (;;) {
        int c = ask("K", fdpath[fd], fl->l_type == F_WRLCK ? "x" : "s");
        int r = real_fcntl(fd, nb, arg), e = errno;
        if (r == 0) fdlocked[fd] = 1;
        post(r, e); after(c);
        errno = e;
        if (r == 0 || nb == cmd || (e != EAGAIN && e != EACCES)) return r;
        ask("S", fdpath[fd], "block");
    }
}
/* ---- clock: a constant offset that the harness moves forward -------------------------------- */
static double clock_offset = 0;
void fsmc_advance(double seconds) { clock_offset += seconds; }
int clock_gettime(clockid_t c, struct timespec *t) {
    long r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && clock_offset != 0 && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) {
        long long ns = (long long)t->tv_sec * 1000000000LL + t->tv_nsec + (long long)(clock_offset * 1e9);
        t->tv_sec = ns / 1000000000LL;
        t->tv_nsec = ns % 1000000000LL;
    }
    return r == 0 ? 0 : -1;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *rem) {
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
    if (!active()) {
        struct timespec u = *t;
        if ((f & TIMER_ABSTIME) && clock_offset != 0) {
            long long ns = (long long)t->tv_sec * 1000000000LL + t->tv_nsec - (long long)(clock_offset * 1e9);
            if (ns < 0) ns = 0;
            u.tv_sec = ns / 1000000000LL;
            u.tv_nsec = ns % 1000000000LL;
        }
        return real_clock_nanosleep(c, f, &u, rem);
    }
    ask("S", "", "sleep");
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    REAL(int, nanosleep, const struct timespec *, struct timespec *);
    if (!active()) return real_nanosleep(t, rem);
    ask("S", "", "sleep");
    return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
    if (!active() || n != 0 || !t) return real_select(n, r, w, x, t);
    ask("S", "", "sleep");
    return 0;
}

