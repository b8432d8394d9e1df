/*
 * Simulated storage for programs which use the HDF5 library: the system calls
 * HDF5 makes on files below the scratch directory are counted, recorded and,
 * where the plan of the run says so, made to fail, to be short, or to be the
 * point at which the process is killed. Linked into the program, so that the
 * library's references to open() etc. resolve to these functions.
 *
 * Also runs the script: the list of operations the program is to perform, with
 * the data to write, and the record of what it did and what it read.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

enum { S_OPEN, S_READ, S_WRITE, S_TRUNC, S_CLOSE, S_STAT, NSITE };
static const char *const names[NSITE] = {"open", "read", "write", "truncate", "close", "stat"};
/* kinds of fault */
enum { K_ERRNO, K_SHORT, K_KILL };

/* strikes at the nth visit of a site after operation op has started, and at the repeat-1 visits after that */
typedef struct { int64_t site, op, nth, kind, err, repeat, frac, hits, seen; } Fault;

static Fault *faults;
static int nfaults;
static int64_t visits[NSITE];
static int64_t total, limit = 100000;
static int logfd = -1, resfd = -1;
static char prefix[4096];
static size_t nprefix;
static unsigned char tracked[65536];
static int current_op = -1;
static int64_t ticks;

static void out(int fd, const void *p, size_t n)
{
    const char *c = p;
    while (n) {
        long r = syscall(SYS_write, fd, c, n);
        if (r <= 0) syscall(SYS_exit_group, 96);
        c += r; n -= r;
    }
}

static void note(const char *fmt, ...)
{
    char buf[512];
    va_list ap;
    if (logfd < 0) return;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    out(logfd, buf, n);
}

/* Returns 0, or the fault which strikes at this visit. If it kills the process,
   part of the n bytes being written reach the file first */
static Fault *visit(int site, int fd, const void *buf, size_t n, int64_t off)
{
    Fault *hit = NULL;
    visits[site]++;
    if (++total > limit) {
        note("livelock\n");
        syscall(SYS_exit_group, 97);
    }
    for (int i = 0; i < nfaults; i++) {
        Fault *f = faults + i;
        if (f->site != site || current_op < f->op) continue;
        int64_t k = f->seen++;
        if (k < f->nth || k >= f->nth + f->repeat || hit) continue;
        f->hits++;
        hit = f;
        note("fault %d %s\n", i, names[site]);
        if (f->kind == K_KILL) {
            size_t m = buf && n ? (size_t)((double)n * (double)f->frac / 1000.0) : 0;
            if (m) syscall(SYS_pwrite64, fd, buf, m, off);
            note("killed\n");
            syscall(SYS_exit_group, 98);
        }
    }
    return hit;
}

static int mine(int fd) { return fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }

static int doopen(const char *path, int flags, mode_t mode)
{
    int m = nprefix && strncmp(path, prefix, nprefix) == 0;
    if (m) {
        note("%d open %s %x\n", current_op, path + nprefix, flags);
        Fault *f = visit(S_OPEN, -1, NULL, 0, 0);
        if (f) { errno = (int)f->err; return -1; }
    }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = m;
    return fd;
}

int open(const char *path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    return doopen(path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    return doopen(path, flags, mode);
}

static size_t shorten(Fault *f, size_t n)
{
    size_t k = (size_t)((double)n * (double)f->frac / 1000.0);
    if (k >= n) k = n - 1;
    return k ? k : 1;
}

ssize_t pread(int fd, void *buf, size_t n, off_t off)
{
    if (mine(fd)) {
        note("%d read %lld+%zu\n", current_op, (long long)off, n);
        Fault *f = visit(S_READ, fd, NULL, 0, 0);
        if (f) {
            if (f->kind == K_ERRNO) { errno = (int)f->err; return -1; }
            if (f->kind == K_SHORT && n > 1) n = shorten(f, n);
        }
    }
    return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return pread(fd, buf, n, off); }

ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
{
    if (mine(fd)) {
        note("%d write %lld+%zu\n", current_op, (long long)off, n);
        Fault *f = visit(S_WRITE, fd, buf, n, off);
        if (f) {
            if (f->kind == K_ERRNO) {
                if (f->err == ENOSPC && n > 1 && f->hits == 1 && f->frac > 0) n = shorten(f, n);
                else { errno = (int)f->err; return -1; }
            } else if (n > 1) n = shorten(f, n);
        }
    }
    return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }

/* HDF5 might be built without pread and pwrite */
ssize_t read(int fd, void *buf, size_t n)
{
    if (mine(fd)) {
        note("%d read %zu\n", current_op, n);
        Fault *f = visit(S_READ, fd, NULL, 0, 0);
        if (f) {
            if (f->kind == K_ERRNO) { errno = (int)f->err; return -1; }
            if (f->kind == K_SHORT && n > 1) n = shorten(f, n);
        }
    }
    return syscall(SYS_read, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n)
{
    if (mine(fd)) {
        note("%d write %zu\n", current_op, n);
        Fault *f = visit(S_WRITE, fd, NULL, 0, 0);
        if (f) {
            if (f->kind == K_ERRNO) { errno = (int)f->err; return -1; }
            if (n > 1) n = shorten(f, n);
        }
    }
    return syscall(SYS_write, fd, buf, n);
}

static int dotrunc(int fd, off_t n)
{
    if (mine(fd)) {
        note("%d truncate %lld\n", current_op, (long long)n);
        Fault *f = visit(S_TRUNC, fd, NULL, 0, 0);
        if (f) { errno = (int)f->err; return -1; }
    }
    return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return dotrunc(fd, n); }
int ftruncate64(int fd, off_t n) { return dotrunc(fd, n); }

int close(int fd)
{
    if (mine(fd)) {
        tracked[fd] = 0;
        note("%d close\n", current_op);
        Fault *f = visit(S_CLOSE, fd, NULL, 0, 0);
        if (f) { syscall(SYS_close, fd); errno = (int)f->err; return -1; }
    }
    return (int)syscall(SYS_close, fd);
}

int fstat(int fd, struct stat *st)
{
    if (mine(fd)) {
        note("%d stat\n", current_op);
        Fault *f = visit(S_STAT, fd, NULL, 0, 0);
        if (f) { errno = (int)f->err; return -1; }
    }
    return (int)syscall(SYS_fstat, fd, st);
}

/* simulated clock */
time_t time(time_t *t)
{
    time_t v = 1700000000 + (ticks++) / 1000;
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    tv->tv_sec = 1700000000 + ticks / 1000;
    tv->tv_usec = (ticks++ % 1000) * 1000;
    return 0;
}

/* ---------------------------------------------------------------- script */
static unsigned char *script;
static size_t nscript, pos;
static unsigned char *opdata;
static int64_t nopdata;

static int64_t geti(void) { int64_t v; memcpy(&v, script + pos, 8); pos += 8; return v; }

/* argv: script, result file, log file, directory of the simulated files */
void c20_start_(void)
{
    const char *s = getenv("C20_SCRIPT"), *r = getenv("C20_RESULT"), *l = getenv("C20_LOG"), *d = getenv("C20_DIR");
    if (!s || !r || !l || !d) { fprintf(stderr, "not run by the simulator\n"); _exit(95); }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, s, O_RDONLY, 0);
    struct stat st;
    if (fd < 0 || syscall(SYS_fstat, fd, &st)) _exit(95);
    nscript = st.st_size;
    script = malloc(nscript + 16);
    for (size_t k = 0; k < nscript;) {
        long n = syscall(SYS_read, fd, script + k, nscript - k);
        if (n <= 0) _exit(95);
        k += n;
    }
    syscall(SYS_close, fd);
    resfd = (int)syscall(SYS_openat, AT_FDCWD, r, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (resfd < 0 || logfd < 0) _exit(95);
    nprefix = strlen(d);
    memcpy(prefix, d, nprefix);
    prefix[nprefix++] = '/';
    nfaults = (int)geti();
    faults = calloc(nfaults + 1, sizeof *faults);
    for (int i = 0; i < nfaults; i++) {
        faults[i].site = geti(); faults[i].op = geti(); faults[i].nth = geti(); faults[i].kind = geti();
        faults[i].err = geti(); faults[i].repeat = geti(); faults[i].frac = geti();
    }
}

/* The next operation: 64 integers, a name and data */
void c20_next_(int *p, char *name, long n)
{
    if (pos >= nscript) { memset(p, 0, 64 * sizeof *p); return; }
    current_op++;
    for (int i = 0; i < 64; i++) p[i] = (int)geti();
    int64_t k = geti();
    memset(name, ' ', n);
    memcpy(name, script + pos, k);
    pos += k;
    nopdata = geti();
    opdata = script + pos;
    pos += nopdata;
    note("op %d\n", current_op);
}

void c20_fill_(void *a) { memcpy(a, opdata, nopdata); }

static void record(int64_t kind, const void *a, int64_t n)
{
    int64_t h[3] = {current_op, kind, n};
    out(resfd, h, sizeof h);
    out(resfd, a, n);
}
void c20_put_(const void *a, int64_t *n) { record(1, a, *n); }
void c20_done_(void) { note("done %d\n", current_op); record(0, "", 0); }
