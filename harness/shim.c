/* Makes native replays repeatable: hash seeds and directory order are those of the symbolic run.
   (A directory may be listed in any order and hash seeds may have any value; these are instances.) */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static uint64_t seed = 1;
static int reverse;

/* faults: as in the engine (libc.rs, accept and supply) */
static char *faults;
static uint64_t nwrites, nreads, written;

static int fault(const char *k, uint64_t *v) {
    size_t n = strlen(k);
    for (char *p = faults; p && *p; p = strchr(p, '\n') ? strchr(p, '\n') + 1 : 0)
        if (!strncmp(p, k, n) && p[n] == '=') { *v = strtoull(p + n + 1, 0, 10); return 1; }
    return 0;
}

static ssize_t accept_(int f, size_t n) {
    uint64_t v, e;
    if (f != 1 || !faults || !n) return n;
    nwrites++;
    if (fault("out.intr", &v) && v == nwrites) { errno = EINTR; return -1; }
    static int once;
    if (!once && fault("out.once", &v) && v <= written) { once = 1; errno = EAGAIN; return -1; }
    size_t k = n;
    if (fault("out.limit", &v)) {
        uint64_t left = v > written ? v - written : 0;
        if (!left) { errno = fault("out.errno", &e) ? (int)e : ENOSPC; return -1; }
        if (k > left) k = left;
    }
    if (fault("out.chunk", &v) && v && k > v) k = v;
    return k;
}

ssize_t write(int f, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    ssize_t k = accept_(f, n);
    if (k < 0) return k;
    ssize_t r = real(f, b, k);
    if (f == 1 && r > 0) written += r;
    return r;
}

ssize_t writev(int f, const struct iovec *v, int c) {
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real) real = (ssize_t (*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
    if (f != 1 || !faults) return real(f, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = write(f, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}

ssize_t read(int f, void *b, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    uint64_t v;
    if (f < 3 || !faults || n <= 16) return real(f, b, n);
    if (fault("in.chunk", &v) && v && n > v) n = v;
    char l[64], p[4200] = "in.err:";
    snprintf(l, sizeof l, "/proc/self/fd/%d", f);
    ssize_t k = readlink(l, p + 7, sizeof p - 8);
    if (k > 0) {
        p[7 + k] = 0;
        if (!strncmp(p + 7, "pipe:", 5)) {
            static int pipe_ = -1; static uint64_t got;
            nreads++;
            if (fault("in.intr", &v) && v == nreads) { errno = EINTR; return -1; }
            if (pipe_ != f) { pipe_ = f; got = 0; }
            if (fault("pipe.cut", &v) && got < v && n > v - got) n = v - got;
            ssize_t r = real(f, b, n);
            if (r > 0) got += r;
            return r;
        }
        if (fault(p, &v)) {
            off_t o = lseek(f, 0, SEEK_CUR);
            if ((uint64_t)o >= v) { errno = EIO; return -1; }
            if (n > v - o) n = v - o;
        }
    }
    return real(f, b, n);
}

/* error a call on a path is to give */
static int path_fault(const char *kind, int dir, const char *path) {
    char l[64], d[4100] = "", k[8300], r[4100];
    uint64_t v;
    if (!faults || !path) return 0;
    if (path[0] != '/' && dir != AT_FDCWD) {
        snprintf(l, sizeof l, "/proc/self/fd/%d", dir);
        ssize_t n = readlink(l, d, sizeof d - 2);
        if (n < 0) return 0;
        d[n] = '/'; d[n + 1] = 0;
    }
    snprintf(k, sizeof k, "%s%s", d, path);
    if (!realpath(k, r)) return 0;
    snprintf(k, sizeof k, "%s:%s", kind, r);
    return fault(k, &v) ? (int)v : 0;
}

int open64(const char *p, int fl, ...) {
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    int e = path_fault("open.err", AT_FDCWD, p);
    if (e) { errno = e; return -1; }
    return real(p, fl, m);
}

int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict b) {
    static int (*real)(int, const char *, int, unsigned, struct statx *);
    if (!real) real = (int (*)(int, const char *, int, unsigned, struct statx *))dlsym(RTLD_NEXT, "statx");
    const char *volatile q = p;  /* it may be null: the standard library tries whether there is statx */
    int e = faults && q && *q ? path_fault("stat.err", d, q) : 0;
    if (e) { errno = e; return -1; }
    return real(d, p, fl, m, b);
}

int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
    static int (*real)(int, const char *, const struct timespec *, int);
    if (!real) real = (int (*)(int, const char *, const struct timespec *, int))dlsym(RTLD_NEXT, "utimensat");
    const char *volatile q = p;
    int e = q ? path_fault("touch.err", d, q) : 0;
    if (e) { errno = e; return -1; }
    return real(d, p, t, fl);
}

int futimens(int f, const struct timespec t[2]) {
    static int (*real)(int, const struct timespec *);
    if (!real) real = (int (*)(int, const struct timespec *))dlsym(RTLD_NEXT, "futimens");
    char l[64], p[4100];
    snprintf(l, sizeof l, "/proc/self/fd/%d", f);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n > 0) { p[n] = 0; int e = path_fault("touch.err", AT_FDCWD, p); if (e) { errno = e; return -1; } }
    return real(f, t);
}

__attribute__((constructor)) static void start(void) {
    char *s = getenv("SYMX_SEED");
    if (s) seed = strtoull(s, 0, 10);
    reverse = getenv("SYMX_REVERSE") != 0;
    s = getenv("SYMX_FAULTS");
    if (s) faults = strdup(s);
    unsetenv("SYMX_FAULTS"); unsetenv("SYMX_SEED"); unsetenv("SYMX_REVERSE"); unsetenv("LD_PRELOAD");
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    for (size_t k = 0; k < n; k++) {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        ((unsigned char *)buf)[k] = seed >> 33 & 255;
    }
    return n;
}

#define MAX 64
static struct { DIR *d; struct dirent64 **l; size_t n, k; } open_[MAX];

static int cmp(const void *a, const void *b) {
    const char *x = (*(struct dirent64 **)a)->d_name, *y = (*(struct dirent64 **)b)->d_name;
    int dx = !strcmp(x, ".") ? 0 : !strcmp(x, "..") ? 1 : 2, dy = !strcmp(y, ".") ? 0 : !strcmp(y, "..") ? 1 : 2;
    if (dx != dy) return dx - dy;
    int r = strcmp(x, y);
    return reverse ? -r : r;
}

struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = (struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64");
    int f = -1;
    for (int i = 0; i < MAX; i++) {
        if (open_[i].d == d) { f = i; break; }
        if (f < 0 && !open_[i].d) f = i;
    }
    if (f < 0) return real(d);
    if (open_[f].d != d) {
        open_[f].d = d; open_[f].l = 0; open_[f].n = open_[f].k = 0;
        struct dirent64 *e;
        while ((errno = 0, e = real(d))) {
            open_[f].l = realloc(open_[f].l, (open_[f].n + 1) * sizeof(void *));
            open_[f].l[open_[f].n] = malloc(e->d_reclen);
            memcpy(open_[f].l[open_[f].n++], e, e->d_reclen);
        }
        qsort(open_[f].l, open_[f].n, sizeof(void *), cmp);
    }
    if (faults) {
        char l[64], p[4200] = "dir.err:";
        uint64_t v;
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd(d));
        ssize_t k = readlink(l, p + 8, sizeof p - 9);
        if (k > 0) { p[8 + k] = 0; if (fault(p, &v) && v + 2 == open_[f].k) { errno = EIO; return 0; } }
    }
    if (open_[f].k == open_[f].n) { errno = 0; return 0; }
    return open_[f].l[open_[f].k++];
}

int closedir(DIR *d) {
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < MAX; i++) if (open_[i].d == d) open_[i].d = 0;
    return real(d);
}
