/* The file system as seen by one process, with one fault (or a full disk from there on). Preloaded by C25.
   FAULT_ROOT: only paths below count. FAULT_AT: number of the call. FAULT_TOO: of a further one which fails. FAULT_KIND: none, fail, full, short, intr, kill, slow.
   FAULT_LOG: where the calls are listed. Children see the real file system. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, FAIL, FULL, SHORT, INTR, KILL, SLOW };
static char root[PATH_MAX];
static size_t root_len;
static long at = -1, too = -1;
static int kind, log_fd = -1;
static atomic_long calls;
static unsigned char mine[65536];

__attribute__((constructor)) static void init(void) {
    const char *r = getenv("FAULT_ROOT"), *a = getenv("FAULT_AT"), *k = getenv("FAULT_KIND"), *l = getenv("FAULT_LOG");
    if (r) { strncpy(root, r, PATH_MAX - 1); root_len = strlen(root); }
    if (a) at = atol(a);
    if (getenv("FAULT_TOO")) too = atol(getenv("FAULT_TOO"));
    if (k) kind = !strcmp(k, "fail") ? FAIL : !strcmp(k, "full") ? FULL : !strcmp(k, "short") ? SHORT : !strcmp(k, "intr") ? INTR : !strcmp(k, "kill") ? KILL : !strcmp(k, "slow") ? SLOW : NONE;
    if (l) log_fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    unsetenv("LD_PRELOAD"); unsetenv("FAULT_ROOT"); unsetenv("FAULT_AT"); unsetenv("FAULT_TOO"); unsetenv("FAULT_KIND"); unsetenv("FAULT_LOG");
}

static int ours(int dir, const char *p) {
    if (!root_len || !p) return 0;
    if (*p != '/') {
        if (dir != AT_FDCWD) return dir >= 0 && dir < 65536 && mine[dir];
        char cwd[PATH_MAX + 1];
        if (syscall(SYS_getcwd, cwd, PATH_MAX) < 0) return 0;
        strcat(cwd, "/");
        return !strncmp(cwd, root, root_len);
    }
    return !strncmp(p, root, root_len);
}
static int tracked(int fd) { return fd >= 0 && fd < 65536 && mine[fd]; }

/* what: r(ead), w(rite), o(pen), c(reate), x (copy, which std does not repeat when interrupted), m(etadata). Returns the fault for this call. */
static int next(char what, const char *name, const char *p, long n) {
    int e = errno;
    long i = atomic_fetch_add(&calls, 1);
    if (log_fd >= 0) {
        char b[PATH_MAX + 64];
        int len = snprintf(b, sizeof b, "%ld %c %s %ld %s\n", i, what, name, n, p ? p : "");
        syscall(SYS_write, log_fd, b, len);
    }
    errno = e;
    if (i == too) return FAIL;
    if (kind == FULL && i >= at && (what == 'w' || what == 'x' || what == 'c')) return FAIL;
    if (kind == SLOW) return what == 'r' || what == 'w' || what == 'x' ? SLOW : NONE;
    if (i != at) return NONE;
    if (kind == KILL) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
    if (kind == SHORT) return what == 'r' || what == 'w' || what == 'x' ? SHORT : NONE;
    if (kind == INTR) return what == 'r' || what == 'w' || what == 'o' ? INTR : NONE;
    return kind == FAIL ? FAIL : NONE;
}
static int code(char what) { return what == 'w' || what == 'x' || what == 'c' ? ENOSPC : EIO; }
#define FAULT(what, name, path, n) \
    switch (next(what, name, path, n)) { case FAIL: errno = code(what); return -1; case INTR: errno = EINTR; return -1; default: break; }

static int open_any(int dir, const char *p, int flags, mode_t mode, const char *name) {
    int is = ours(dir, p);
    if (is) FAULT(flags & O_CREAT ? 'c' : 'o', name, p, flags);
    int fd = syscall(SYS_openat, dir, p, flags, mode);
    if (is && fd >= 0 && fd < 65536) mine[fd] = 1;
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list v; va_start(v, flags); mode = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int flags, ...) { MODE return open_any(AT_FDCWD, p, flags, mode, "open"); }
int open64(const char *p, int flags, ...) { MODE return open_any(AT_FDCWD, p, flags, mode, "open"); }
int openat(int d, const char *p, int flags, ...) { MODE return open_any(d, p, flags, mode, "openat"); }
int openat64(int d, const char *p, int flags, ...) { MODE return open_any(d, p, flags, mode, "openat"); }
int close(int fd) { if (fd >= 0 && fd < 65536) mine[fd] = 0; return syscall(SYS_close, fd); }

#define SHORTEN(what, name, n) switch (next(what, name, 0, n)) { case FAIL: errno = code(what); return -1; case INTR: errno = EINTR; return -1; case SHORT: if (n > 1) n = (n + 1) / 2; break; case SLOW: if (n > 1) n = 1; break; default: break; }
ssize_t read(int fd, void *b, size_t n) { if (tracked(fd)) SHORTEN('r', "read", n); return syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (tracked(fd)) SHORTEN('r', "pread", n); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (tracked(fd)) SHORTEN('r', "pread", n); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { if (tracked(fd)) SHORTEN('w', "write", n); return syscall(SYS_write, fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (tracked(fd)) SHORTEN('w', "pwrite", n); return syscall(SYS_pwrite64, fd, b, n, o); }
static ssize_t vec(int nr, char what, const char *name, int fd, const struct iovec *v, int c) {
    if (tracked(fd)) {
        size_t n = 0;
        for (int i = 0; i < c; i++) n += v[i].iov_len;
        switch (next(what, name, 0, n)) {
        case FAIL: errno = code(what); return -1;
        case INTR: errno = EINTR; return -1;
        case SHORT: for (int i = 0; i < c; i++) if (v[i].iov_len) return syscall(what == 'r' ? SYS_read : SYS_write, fd, v[i].iov_base, (v[i].iov_len + 1) / 2); break;
        case SLOW: for (int i = 0; i < c; i++) if (v[i].iov_len) return syscall(what == 'r' ? SYS_read : SYS_write, fd, v[i].iov_base, 1); break;
        default: break;
        }
    }
    return syscall(nr, fd, v, c);
}
ssize_t readv(int fd, const struct iovec *v, int c) { return vec(SYS_readv, 'r', "readv", fd, v, c); }
ssize_t writev(int fd, const struct iovec *v, int c) { return vec(SYS_writev, 'w', "writev", fd, v, c); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { if (tracked(i) || tracked(o)) SHORTEN('x', "copy_file_range", n); return syscall(SYS_copy_file_range, i, a, o, b, n, f); }
ssize_t sendfile64(int o, int i, off64_t *a, size_t n) { if (tracked(i) || tracked(o)) SHORTEN('x', "sendfile", n); return syscall(SYS_sendfile, o, i, a, n); }
ssize_t sendfile(int o, int i, off_t *a, size_t n) { if (tracked(i) || tracked(o)) SHORTEN('x', "sendfile", n); return syscall(SYS_sendfile, o, i, a, n); }
ssize_t splice(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { if (tracked(i) || tracked(o)) SHORTEN('x', "splice", n); return syscall(SYS_splice, i, a, o, b, n, f); }
off64_t lseek64(int fd, off64_t o, int w) { if (tracked(fd)) FAULT('m', "lseek", 0, w); return syscall(SYS_lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) { if (tracked(fd)) FAULT('m', "lseek", 0, w); return syscall(SYS_lseek, fd, o, w); }
int ftruncate64(int fd, off64_t o) { if (tracked(fd)) FAULT('w', "ftruncate", 0, o); return syscall(SYS_ftruncate, fd, o); }
int fsync(int fd) { if (tracked(fd)) FAULT('w', "fsync", 0, 0); return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (tracked(fd)) FAULT('w', "fdatasync", 0, 0); return syscall(SYS_fdatasync, fd); }
int mkdir(const char *p, mode_t m) { if (ours(AT_FDCWD, p)) FAULT('c', "mkdir", p, 0); return syscall(SYS_mkdir, p, m); }
int rmdir(const char *p) { if (ours(AT_FDCWD, p)) FAULT('c', "rmdir", p, 0); return syscall(SYS_rmdir, p); }
int unlink(const char *p) { if (ours(AT_FDCWD, p)) FAULT('c', "unlink", p, 0); return syscall(SYS_unlink, p); }
int rename(const char *p, const char *q) { if (ours(AT_FDCWD, p)) FAULT('c', "rename", p, 0); return syscall(SYS_rename, p, q); }
int symlink(const char *p, const char *q) { if (ours(AT_FDCWD, q)) FAULT('c', "symlink", q, 0); return syscall(SYS_symlink, p, q); }
int link(const char *p, const char *q) { if (ours(AT_FDCWD, q)) FAULT('c', "link", q, 0); return syscall(SYS_link, p, q); }
int linkat(int a, const char *p, int b, const char *q, int f) { if (ours(b, q)) FAULT('c', "link", q, 0); return syscall(SYS_linkat, a, p, b, q, f); }
int fchmod(int fd, mode_t m) { if (tracked(fd)) FAULT('c', "fchmod", 0, 0); return syscall(SYS_fchmod, fd, m); }
int stat64(const char *p, struct stat64 *s) { if (ours(AT_FDCWD, p)) FAULT('m', "stat", p, 0); return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat64(const char *p, struct stat64 *s) { if (ours(AT_FDCWD, p)) FAULT('m', "lstat", p, 0); return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstat64(int fd, struct stat64 *s) { if (tracked(fd)) FAULT('m', "fstat", 0, 0); return syscall(SYS_fstat, fd, s); }
char *realpath(const char *p, char *b) {
    static char *(*real)(const char *, char *);
    if (!real) real = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
    if (ours(AT_FDCWD, p) && next('m', "realpath", p, 0) == FAIL) { errno = EIO; return 0; }
    return real(p, b);
}
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict s) {
    const char *volatile q = p; /* std asks with a null-pointer whether there is a statx at all */
    int is = q && *q ? ours(d, p) : tracked(d);
    if (is) FAULT('m', "statx", q ? q : "", 0);
    return syscall(SYS_statx, d, p, f, m, s);
}
