/* Fault injector: counts the file-system operations that change something below a directory and lets the n-th one
 * kill the process, be torn, or fail.  Preloaded into the process under test; does nothing until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { KILL = 0, TORN = 1, ERR = 2, ERRS = 3, SHORT = 4, SCHED = 5 };
static int ask = -1, answer = -1;
static int armed, target, mode, failing;
static long count;
static char root[PATH_MAX], trace_[65536];
static int tlen;

void shim_arm(const char *dir, int n, int m) {
    strncpy(root, dir, sizeof root - 1);
    target = n; mode = m; count = 0; failing = 0; tlen = 0; trace_[0] = 0; armed = 1;
}
/* scheduler: every operation (looking at and reading results included) is announced on one pipe and waits for its turn on another */
void shim_sched(const char *dir, int out, int in) { shim_arm(dir, -1, SCHED); ask = out; answer = in; }
long shim_disarm(void) { armed = 0; return count; }
const char *shim_trace(void) { return trace_; }

static int below(const char *p) { size_t n = strlen(root); return n && !strncmp(p, root, n) && (p[n] == '/' || !p[n]); }
static int path_in(int dir, const char *p) {
    char b[PATH_MAX * 2], d[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] == '/') return below(p);
    if (dir == AT_FDCWD) { if (!getcwd(d, sizeof d)) return 0; }
    else { char l[64]; ssize_t k; snprintf(l, sizeof l, "/proc/self/fd/%d", dir); k = readlink(l, d, sizeof d - 1); if (k < 0) return 0; d[k] = 0; }
    snprintf(b, sizeof b, "%s/%s", d, p);
    return below(b);
}
static int fd_in(int fd) {
    char l[64], d[PATH_MAX]; ssize_t k;
    if (!armed) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    k = readlink(l, d, sizeof d - 1);
    if (k < 0) return 0;
    d[k] = 0;
    return below(d);
}
static void note(char c) { if (tlen < (int) sizeof trace_ - 1) { trace_[tlen++] = c; trace_[tlen] = 0; } }
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
/* 0: go on; 1: fail; 2: torn/short (data only) */
static int hit(char c, int data) {
    if (mode == SCHED) {
        static int run;
        char a;
        int keep = errno;
        if (c != 'w') run = 0;
        else if (++run > 2 && run % 24) return 0;       /* of many writes in a row, the first two and every 24th */
        while (syscall(SYS_write, ask, &c, 1) < 0 && errno == EINTR);
        while (syscall(SYS_read, answer, &a, 1) < 0 && errno == EINTR);
        errno = keep;
        count++;
        return 0;
    }
    note(c);
    count++;
    if (failing) return data ? 1 : 0;           /* the disk is full: data cannot be written, the rest works */
    if (count != target) return 0;
    if (mode == KILL) die();
    if (mode == TORN) { if (!data) die(); return 2; }
    if (mode == SHORT) { failing = 1; return data ? 2 : 1; }
    if (mode == ERRS) failing = 1;
    return 1;
}
/* the reference data and constants never change, so looking at them is no step; everything else below the root is */
static int input(const char *p) {
    const char *names[] = {"constants/tbase.int", "constants/wmo_boxes", "constants/TypicalProfile", "constants/coast", "/ctd_", "/bot_", "/argo_", 0};
    for (int i = 0; names[i]; i++) if (strstr(p, names[i])) return 1;
    return 0;
}
static void look(char c, int dir, const char *p) { if (armed && mode == SCHED && p && !input(p) && path_in(dir, p)) hit(c, 0); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
#define FAIL(v) do { errno = mode == ERR ? EIO : ENOSPC; return v; } while (0)

#define WRITING(f) ((f) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))
#define OPEN(name) int name(const char *p, int f, ...) { REAL(int, name, const char *, int, ...); mode_t m = 0; \
    if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
    if (!WRITING(f)) look('O', AT_FDCWD, p); else if (path_in(AT_FDCWD, p) && hit('o', 0) == 1) FAIL(-1); return real(p, f, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int f, ...) { REAL(int, name, int, const char *, int, ...); mode_t m = 0; \
    if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
    if (!WRITING(f)) look('O', d, p); else if (path_in(d, p) && hit('o', 0) == 1) FAIL(-1); return real(d, p, f, m); }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { REAL(int, creat, const char *, mode_t); if (path_in(AT_FDCWD, p) && hit('o', 0) == 1) FAIL(-1); return real(p, m); }

struct stat64;
#define ST(name, T) int name(const char *p, T *b) { REAL(int, name, const char *, T *); look('?', AT_FDCWD, p); return real(p, b); }
ST(stat, struct stat)
ST(stat64, struct stat64)
ST(lstat, struct stat)
ST(lstat64, struct stat64)
#define SA(name, T) int name(int d, const char *p, T *b, int f) { REAL(int, name, int, const char *, T *, int); look('?', d, p); return real(d, p, b, f); }
SA(fstatat, struct stat)
SA(fstatat64, struct stat64)
int access(const char *p, int m) { REAL(int, access, const char *, int); look('?', AT_FDCWD, p); return real(p, m); }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (fd_in(fd)) { int h = hit('w', 1);
        if (h == 1) FAIL(-1);
        if (h == 2) { ssize_t k = real(fd, b, n / 2); if (mode == TORN) die(); if (k == 0) FAIL(-1); return k; } }
    return real(fd, b, n);
}
#define PW(name, T) ssize_t name(int fd, const void *b, size_t n, T o) { REAL(ssize_t, name, int, const void *, size_t, T); \
    if (fd_in(fd)) { int h = hit('w', 1); if (h == 1) FAIL(-1); if (h == 2) { ssize_t k = real(fd, b, n / 2, o); if (mode == TORN) die(); return k; } } return real(fd, b, n, o); }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, writev, int, const struct iovec *, int);
    if (fd_in(fd)) { int h = hit('w', 1); if (h == 1) FAIL(-1); if (h == 2) { ssize_t k = real(fd, v, 1); if (mode == TORN) die(); return k; } } return real(fd, v, n); }
#define SF(name, T) ssize_t name(int o, int i, T *off, size_t n) { REAL(ssize_t, name, int, int, T *, size_t); \
    if (fd_in(o)) { int h = hit('w', 1); if (h == 1) FAIL(-1); if (h == 2) { ssize_t k = real(o, i, off, 64); if (mode == TORN) die(); return k; } } return real(o, i, off, n); }
SF(sendfile, off_t)
SF(sendfile64, off64_t)
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (fd_in(o)) { int h = hit('w', 1); if (h == 1) FAIL(-1); if (h == 2) { ssize_t k = real(i, io, o, oo, 64, f); if (mode == TORN) die(); return k; } } return real(i, io, o, oo, n, f); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if ((path_in(AT_FDCWD, a) || path_in(AT_FDCWD, b)) && hit('r', 0) == 1) FAIL(-1); return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if ((path_in(d, a) || path_in(e, b)) && hit('r', 0) == 1) FAIL(-1); return real(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); if ((path_in(d, a) || path_in(e, b)) && hit('r', 0) == 1) FAIL(-1); return real(d, a, e, b, f); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); if (path_in(AT_FDCWD, b) && hit('l', 0) == 1) FAIL(-1); return real(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int); if (path_in(e, b) && hit('l', 0) == 1) FAIL(-1); return real(d, a, e, b, f); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); if (path_in(AT_FDCWD, b) && hit('l', 0) == 1) FAIL(-1); return real(a, b); }
int unlink(const char *p) { REAL(int, unlink, const char *); if (path_in(AT_FDCWD, p) && hit('u', 0) == 1) FAIL(-1); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); if (path_in(d, p) && hit('u', 0) == 1) FAIL(-1); return real(d, p, f); }
int remove(const char *p) { REAL(int, remove, const char *); if (path_in(AT_FDCWD, p) && hit('u', 0) == 1) FAIL(-1); return real(p); }
int rmdir(const char *p) { REAL(int, rmdir, const char *); if (path_in(AT_FDCWD, p) && hit('u', 0) == 1) FAIL(-1); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (path_in(AT_FDCWD, p) && hit('m', 0) == 1) FAIL(-1); return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); if (path_in(d, p) && hit('m', 0) == 1) FAIL(-1); return real(d, p, m); }
#define FT(name, T) int name(int fd, T n) { REAL(int, name, int, T); if (fd_in(fd) && hit('t', 0) == 1) FAIL(-1); return real(fd, n); }
FT(ftruncate, off_t)
FT(ftruncate64, off64_t)
#define TR(name, T) int name(const char *p, T n) { REAL(int, name, const char *, T); if (path_in(AT_FDCWD, p) && hit('t', 0) == 1) FAIL(-1); return real(p, n); }
TR(truncate, off_t)
TR(truncate64, off64_t)
int fsync(int fd) { REAL(int, fsync, int); if (fd_in(fd) && hit('s', 0) == 1) FAIL(-1); return real(fd); }
int fdatasync(int fd) { REAL(int, fdatasync, int); if (fd_in(fd) && hit('s', 0) == 1) FAIL(-1); return real(fd); }
