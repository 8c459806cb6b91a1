/* LD_PRELOAD shim: counts the operations that change files below a directory
 * and makes the k-th one fail, be cut short, or be the last thing the process
 * ever does.  Controlled from Python with ctypes (vp_arm / vp_disarm). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, COUNT = 1, FAIL = 2, FAIL_ON = 3, KILL = 4, TORN = 5, SHORT = 6 };
static volatile int mode = OFF;
static volatile long count = 0, at = -1;
static volatile int err = ENOSPC, sticky_write_only = 0;
static char dir[PATH_MAX];
static size_t dirlen = 0;
static char last[64];

void vp_arm(const char *d, int m, long k, int e)
{
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    count = 0; at = k; err = e; last[0] = 0; mode = m;
}
long vp_disarm(void) { mode = OFF; return count; }
const char *vp_last(void) { return last; }

static int under(const char *p)
{
    char buf[PATH_MAX];
    if (!dirlen || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        return strncmp(buf, dir, dirlen) == 0;
    }
    return strncmp(p, dir, dirlen) == 0;
}
static int fdunder(int fd)
{
    char l[64], buf[PATH_MAX];
    ssize_t n;
    if (!dirlen) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return strncmp(buf, dir, dirlen) == 0;
}
/* 0: go on; 1: fail with errno; 2: torn (half, then die); 3: short write */
static int point(const char *what)
{
    long k = count++;
    if (mode == COUNT) return 0;
    if (mode == FAIL_ON ? k < at : k != at) return 0;
    if (k == at) { strncpy(last, what, sizeof last - 1); }
    switch (mode) {
    case KILL: _exit(77);
    case TORN: return 2;
    case SHORT: return 3;
    default: errno = err; return 1;
    }
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

#define WRITE_BODY(call_n, n)                                           \
    if (mode && fdunder(fd)) {                                          \
        switch (point("write")) {                                       \
        case 1: return -1;                                              \
        case 2: { size_t h = (n) / 2; if (h) call_n(h); _exit(77); }    \
        case 3: { size_t h = (n) / 2; if (h) return call_n(h); errno = err; return -1; } \
        }                                                               \
    }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
#define W(h) real(fd, b, h)
    WRITE_BODY(W, n)
#undef W
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    REAL(pwrite);
#define W(h) real(fd, b, h, o)
    WRITE_BODY(W, n)
#undef W
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(pwrite64);
#define W(h) real(fd, b, h, o)
    WRITE_BODY(W, n)
#undef W
    return real(fd, b, n, o);
}
ssize_t sendfile(int fd, int in, off_t *o, size_t n)
{
    static ssize_t (*real)(int, int, off_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile");
#define W(h) real(fd, in, o, h)
    WRITE_BODY(W, n)
#undef W
    return real(fd, in, o, n);
}
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n)
{
    static ssize_t (*real)(int, int, off64_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile64");
#define W(h) real(fd, in, o, h)
    WRITE_BODY(W, n)
#undef W
    return real(fd, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned int fl)
{
    static ssize_t (*real)(int, off64_t *, int, off64_t *, size_t, unsigned int);
    if (!real) real = dlsym(RTLD_NEXT, "copy_file_range");
#define W(h) real(in, oi, fd, oo, h, fl)
    WRITE_BODY(W, n)
#undef W
    return real(in, oi, fd, oo, n, fl);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    if (mode && fdunder(fd)) switch (point("write")) { case 1: case 3: errno = err; return -1; case 2: _exit(77); }
    return real(fd, v, c);
}
#define SIMPLE(cond, what, expr)                                        \
    if (mode && (cond)) switch (point(what)) { case 1: case 3: errno = err; return -1; case 2: expr; _exit(77); } \
    return expr;

int ftruncate(int fd, off_t n) { REAL(ftruncate); SIMPLE(fdunder(fd), "truncate", real(fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); SIMPLE(fdunder(fd), "truncate", real(fd, n)) }
int rename(const char *a, const char *b) { REAL(rename); SIMPLE(under(a) || under(b), "rename", real(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); SIMPLE(under(a) || under(b), "rename", real(x, a, y, b)) }
int unlink(const char *a) { REAL(unlink); SIMPLE(under(a), "unlink", real(a)) }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); SIMPLE(d == AT_FDCWD ? under(a) : fdunder(d), "unlink", real(d, a, f)) }
int link(const char *a, const char *b) { REAL(link); SIMPLE(under(b), "link", real(a, b)) }
int mkdir(const char *a, mode_t m) { REAL(mkdir); SIMPLE(under(a), "mkdir", real(a, m)) }

#define CHANGES(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))
#define OPEN(name)                                                      \
int name(const char *p, int f, ...)                                     \
{                                                                       \
    static int (*real)(const char *, int, ...);                         \
    mode_t m = 0;                                                       \
    va_list ap;                                                         \
    if (!real) real = dlsym(RTLD_NEXT, #name);                          \
    va_start(ap, f); if (f & O_CREAT) m = va_arg(ap, mode_t); va_end(ap); \
    SIMPLE(CHANGES(f) && under(p), "open", real(p, f, m))               \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                    \
int name(int d, const char *p, int f, ...)                              \
{                                                                       \
    static int (*real)(int, const char *, int, ...);                    \
    mode_t m = 0;                                                       \
    va_list ap;                                                         \
    if (!real) real = dlsym(RTLD_NEXT, #name);                          \
    va_start(ap, f); if (f & O_CREAT) m = va_arg(ap, mode_t); va_end(ap); \
    SIMPLE(CHANGES(f) && (d == AT_FDCWD ? under(p) : fdunder(d)), "open", real(d, p, f, m)) \
}
OPENAT(openat)
OPENAT(openat64)
FILE *fopen(const char *p, const char *m)
{
    REAL(fopen);
    if (mode && strpbrk(m, "wa+") && under(p)) switch (point("open")) { case 1: case 3: errno = err; return NULL; case 2: _exit(77); }
    return real(p, m);
}
FILE *fopen64(const char *p, const char *m)
{
    REAL(fopen64);
    if (mode && strpbrk(m, "wa+") && under(p)) switch (point("open")) { case 1: case 3: errno = err; return NULL; case 2: _exit(77); }
    return real(p, m);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    REAL(fwrite);
    if (mode && fdunder(fileno(f))) switch (point("write")) { case 1: case 3: errno = err; return 0; case 2: _exit(77); }
    return real(b, s, n, f);
}
