/* LD_PRELOAD shim: counts the file-system calls which touch files below one
   directory and injects one crash, fault, short write or interrupt, or lets
   all calls of one kind fail from one point on.
   Nothing outside of this directory is ever affected. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXLOG 4096
#define MAXFD 4096
enum { OFF, COUNT, CRASH, FAULT, SHORT, SIGNAL, STUCK };

static char prefix[4096];
static size_t plen;
static int mode = OFF;
static long counter, target_op, part;
static int fault_errno;
static unsigned char tracked[MAXFD];
static struct { char op[16]; long len; int mut; } logbuf[MAXLOG];

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

void ezs_prefix(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); }
void ezs_arm(int m, long k, int err, long n) {
    counter = 0; target_op = k; fault_errno = err; part = n; mode = m;
}
long ezs_disarm(void) { mode = OFF; return counter; }
long ezs_len(long i) { return logbuf[i].len; }
int ezs_mut(long i) { return logbuf[i].mut; }
const char *ezs_op(long i) { return logbuf[i].op; }

static int inside(const char *path) {
    char buf[8192];
    if (!plen || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, 4096)) return 0;
        strcat(buf, "/");
        strncat(buf, path, 4000);
        path = buf;
    }
    return strncmp(path, prefix, plen) == 0 && (path[plen] == '/' || path[plen] == 0);
}
static int fdin(int fd) { return fd >= 0 && fd < MAXFD && tracked[fd]; }

/* 0: go on, 1: fail with errno, 2: short write */
static int point(const char *op, long len, int mut) {
    if (mode == OFF) return 0;
    long k = counter++;
    if (k < MAXLOG) {
        strncpy(logbuf[k].op, op, 15); logbuf[k].len = len; logbuf[k].mut = mut;
    }
    if (mode == STUCK && k >= target_op &&
        (part == 1 ? !strcmp(op, "write") : part == 2 ? mut :
         !strcmp(op, "read") || !strcmp(op, "open"))) { errno = fault_errno; return 1; }
    if (mode == COUNT || mode == STUCK || k != target_op) return 0;
    if (mode == CRASH) {
        if (part > 0) return 2;
        _exit(77);
    }
    if (mode == FAULT) { errno = fault_errno; return 1; }
    if (mode == SHORT) return 2;
    if (mode == SIGNAL) kill(getpid(), SIGINT);
    return 0;
}
static void torn(void) { if (mode == CRASH) _exit(77); }

static int do_open(const char *name, int dirfd, const char *path, int flags, mode_t m) {
    static int (*real)(int, const char *, int, ...);
    if (!real) real = (int (*)(int, const char *, int, ...)) dlsym(RTLD_NEXT, "openat");
    int in = (dirfd == AT_FDCWD || path[0] == '/') && inside(path);
    int mut = (flags & (O_CREAT | O_TRUNC)) != 0;
    if (in && point(mut ? "create" : name, 0, mut) == 1) return -1;
    int fd = real(dirfd, path, flags, m);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = in;
    return fd;
}
#define OPENMODE(flags, m) mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENMODE(flags, m) return do_open("open", AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENMODE(flags, m) return do_open("open", AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { OPENMODE(flags, m) return do_open("open", d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENMODE(flags, m) return do_open("open", d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open("open", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open("open", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!fdin(fd)) return real(fd, b, n);
    int r = point("write", n, 1);
    if (r == 1) return -1;
    if (r == 2) { ssize_t w = real(fd, b, part < (long) n ? part : (long) n); torn(); return w; }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (!fdin(fd)) return real(fd, b, n, o);
    int r = point("write", n, 1);
    if (r == 1) return -1;
    if (r == 2) { ssize_t w = real(fd, b, part < (long) n ? part : (long) n, o); torn(); return w; }
    return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!fdin(fd)) return real(fd, v, c);
    if (c < 1) return 0;
    return write(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (!fdin(o)) return real(o, i, off, n);
    int r = point("write", n, 1);
    if (r == 1) return -1;
    if (r == 2) { ssize_t w = real(o, i, off, part); torn(); return w; }
    return real(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!fdin(o)) return real(i, io, o, oo, n, f);
    int r = point("write", n, 1);
    if (r == 1) return -1;
    if (r == 2) { ssize_t w = real(i, io, o, oo, part, f); torn(); return w; }
    return real(i, io, o, oo, n, f);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (fdin(fd) && point("read", n, 0) == 1) return -1;
    return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pread64", int, void *, size_t, off64_t);
    if (fdin(fd) && point("read", n, 0) == 1) return -1;
    return real(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
off64_t lseek64(int fd, off64_t o, int w) {
    REAL(off64_t, "lseek64", int, off64_t, int);
    if (fdin(fd) && point("lseek", 0, 0) == 1) return -1;
    return real(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int close(int fd) {
    REAL(int, "close", int);
    if (fdin(fd)) {
        int r = point("close", 0, 1);
        tracked[fd] = 0;
        if (r == 1) { real(fd); errno = fault_errno; return -1; }
    }
    return real(fd);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off64_t);
    if (fdin(fd) && point("truncate", n, 1) == 1) return -1;
    return real(fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n) {
    REAL(int, "truncate64", const char *, off64_t);
    if (inside(p) && point("truncate", n, 1) == 1) return -1;
    return real(p, n);
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
#define PATH1(name, op, mut) int name(const char *p) { REAL(int, #name, const char *); \
    if (inside(p) && point(op, 0, mut) == 1) return -1; return real(p); }
PATH1(unlink, "unlink", 1)
PATH1(rmdir, "rmdir", 1)
PATH1(remove, "unlink", 1)
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    if ((d == AT_FDCWD || p[0] == '/') && inside(p) && point("unlink", 0, 1) == 1) return -1;
    return real(d, p, f);
}
#define PATH2(name, op) int name(const char *a, const char *b) { REAL(int, #name, const char *, const char *); \
    if ((inside(a) || inside(b)) && point(op, 0, 1) == 1) return -1; return real(a, b); }
PATH2(rename, "rename")
PATH2(link, "link")
PATH2(symlink, "symlink")
int renameat(int d, const char *a, int e, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if ((inside(a) || inside(b)) && point("rename", 0, 1) == 1) return -1;
    return real(d, a, e, b);
}
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
    if ((inside(a) || inside(b)) && point("rename", 0, 1) == 1) return -1;
    return real(d, a, e, b, f);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    if (inside(p) && point("mkdir", 0, 1) == 1) return -1;
    return real(p, m);
}
int chmod(const char *p, mode_t m) {
    REAL(int, "chmod", const char *, mode_t);
    if (inside(p) && point("chmod", 0, 1) == 1) return -1;
    return real(p, m);
}
#define STAT(name, type) int name(const char *p, struct type *s) { REAL(int, #name, const char *, struct type *); \
    if (inside(p) && point("stat", 0, 0) == 1) return -1; return real(p, s); }
STAT(stat, stat)
STAT(stat64, stat64)
STAT(lstat, stat)
STAT(lstat64, stat64)
#define FSTAT(name, type) int name(int fd, struct type *s) { REAL(int, #name, int, struct type *); \
    if (fdin(fd) && point("fstat", 0, 0) == 1) return -1; return real(fd, s); }
FSTAT(fstat, stat)
FSTAT(fstat64, stat64)
int fsync(int fd) { REAL(int, "fsync", int); if (fdin(fd) && point("fsync", 0, 1) == 1) return -1; return real(fd); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); if (fdin(fd) && point("fsync", 0, 1) == 1) return -1; return real(fd); }
int access(const char *p, int m) { REAL(int, "access", const char *, int); if (inside(p) && point("stat", 0, 0) == 1) return -1; return real(p, m); }

/* stdio streams inside of the directory run through the functions above */
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int) (long) c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t w = write((int) (long) c, b, n); return w < 0 ? 0 : w; }
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = lseek64((int) (long) c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return close((int) (long) c); }
static FILE *do_fopen(const char *name, const char *p, const char *m) {
    FILE *(*real)(const char *, const char *) = (FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, name);
    if (!inside(p)) return real(p, m);
    int plus = strchr(m, '+') != NULL;
    int fl = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY)
           : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND);
    int fd = open(p, fl, 0666);
    if (fd < 0) return NULL;
    cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
    return fopencookie((void *) (long) fd, m, f);
}
FILE *fopen(const char *p, const char *m) { return do_fopen("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64", p, m); }
