/* Fault injection at the file system calls of the code generator (preloaded).
   GENSIM_IN / GENSIM_OUT: directories whose files are subject to faults.
   GENSIM_PLAN: "cls:n:act;..."  cls: open_in open_out read write sync
     act: e<errno> (once), p<errno> (from then on), s<k> (transfer at most k octets), i (EINTR), k (the process dies here)
     cap:<octets> : the disk takes that many octets in total, then ENOSPC
   GENSIM_REPORT: receives "F cls n act" per fault that fired and "C cls n" totals.
   GENSIM_HASH: seeds getrandom. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN_IN, OPEN_OUT, READ, WRITE, SYNC, NCLS };
static const char *NAME[] = {"open_in", "open_out", "read", "write", "sync"};
static struct fault { int cls; long n; char act; long arg; } F[256];
static int nf, report = -1;
static long cnt[NCLS], cap = -1;
static char din[512], dout[512];
static unsigned char kind[4096]; /* per descriptor: 1 in, 2 out */
static uint64_t rs = 88172645463325252ull;
static int ready;

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *p = getenv("GENSIM_IN");
    if (p) snprintf(din, sizeof din, "%s/", p);
    p = getenv("GENSIM_OUT");
    if (p) snprintf(dout, sizeof dout, "%s/", p);
    p = getenv("GENSIM_HASH");
    if (p) rs ^= strtoull(p, 0, 10) * 0x9E3779B97F4A7C15ull;
    p = getenv("GENSIM_REPORT");
    if (p) report = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    p = getenv("GENSIM_PLAN");
    while (p && *p) {
        char c[16];
        long n, a = 0;
        char act;
        if (sscanf(p, "cap:%ld", &n) == 1) cap = n;
        else if (sscanf(p, "%15[a-z_]:%ld:%c%ld", c, &n, &act, &a) >= 3)
            for (int i = 0; i < NCLS; i++)
                if (!strcmp(c, NAME[i]) && nf < 256) F[nf++] = (struct fault){i, n, act, a};
        p = strchr(p, ';');
        if (p) p++;
    }
}
static void say(const char *fmt, ...) {
    if (report < 0) return;
    char b[128];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    syscall(SYS_write, report, b, n);
}
__attribute__((destructor)) static void fini(void) {
    for (int i = 0; i < NCLS; i++) say("C %s %ld\n", NAME[i], cnt[i]);
}
/* returns errno (>0), or 0; *lim: most octets to transfer */
static int gate(int cls, size_t *lim) {
    long n = cnt[cls]++;
    for (int i = 0; i < nf; i++) {
        struct fault *f = &F[i];
        if (f->cls != cls) continue;
        if (f->act == 'p' ? n < f->n : n != f->n) continue;
        say("F %s %ld %c%ld\n", NAME[cls], n, f->act, f->arg);
        switch (f->act) {
        case 'e': case 'p': return (int)f->arg;
        case 'i': return EINTR;
        case 's': if (lim && (size_t)f->arg < *lim) *lim = f->arg; break;
        case 'k': kill(getpid(), SIGKILL); for (;;) pause();
        }
    }
    if (cls == WRITE && lim && cap >= 0) {
        if (cap == 0 && *lim) { say("F write %ld cap0\n", n); return ENOSPC; }
        if (*lim > (size_t)cap) { say("F write %ld cap%ld\n", n, cap); *lim = cap; }
    }
    return 0;
}
static long ret(long r) {
    if (r < 0) { errno = -r; return -1; }
    return r;
}
static long raw_open(int dirfd, const char *path, int flags, mode_t mode) {
    long r = syscall(SYS_openat, dirfd, path, flags, mode);
    return r < 0 ? -errno : r;
}
static int classify(const char *path) {
    if (din[0] && !strncmp(path, din, strlen(din))) return 1;
    if (dout[0] && !strncmp(path, dout, strlen(dout))) return 2;
    return 0;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    init();
    char full[2048];
    const char *q = path;
    if (path[0] != '/' && getcwd(full, 1024)) {
        strncat(full, "/", sizeof full - strlen(full) - 1);
        strncat(full, path, sizeof full - strlen(full) - 1);
        q = full;
    }
    int k = classify(q);
    if (k) {
        int e = gate(k == 1 ? OPEN_IN : OPEN_OUT, 0);
        if (e) { errno = e; return -1; }
    }
    int fd = ret(raw_open(dirfd, path, flags, mode));
    if (fd >= 0 && fd < 4096) kind[fd] = k;
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int close(int fd) { if (fd >= 0 && fd < 4096) kind[fd] = 0; long r = syscall(SYS_close, fd); return r; }
static int k_of(int fd) { init(); return fd >= 0 && fd < 4096 ? kind[fd] : 0; }
ssize_t read(int fd, void *b, size_t n) {
    if (k_of(fd)) { int e = gate(READ, &n); if (e) { errno = e; return -1; } }
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    if (k_of(fd)) { int e = gate(READ, &n); if (e) { errno = e; return -1; } }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!k_of(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return read(fd, 0, 0);
}
ssize_t write(int fd, const void *b, size_t n) {
    int k = k_of(fd);
    if (k) { int e = gate(WRITE, &n); if (e) { errno = e; return -1; } }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (k && r > 0 && cap >= 0) cap -= r;
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    int k = k_of(fd);
    if (k) { int e = gate(WRITE, &n); if (e) { errno = e; return -1; } }
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
    if (k && r > 0 && cap >= 0) cap -= r;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!k_of(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return write(fd, 0, 0);
}
int fsync(int fd) {
    if (k_of(fd)) { int e = gate(SYNC, 0); if (e) { errno = e; return -1; } }
    return syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
    if (k_of(fd)) { int e = gate(SYNC, 0); if (e) { errno = e; return -1; } }
    return syscall(SYS_fdatasync, fd);
}
/* let callers fall back to read and write */
ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off_t *c, size_t d) { errno = EINVAL; return -1; }
ssize_t getrandom(void *b, size_t n, unsigned flags) {
    init();
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) {
        rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
        p[i] = rs >> 24;
    }
    return n;
}
