/* Fault injector: counts file-changing system calls below one directory and ends the process at the
 * k-th of them (before it, or after it wrote up to the first page boundary).  Loaded with LD_PRELOAD; armed from
 * Python through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[4096];
static size_t dirlen = 0;
static long crash_at = -1;     /* -1: only count */
static int torn = 0;
static volatile int armed = 0;
static long counter = 0;
static int logfd = -1;

#define REAL(name) \
    static __typeof__(name) *real_##name = NULL; \
    if (!real_##name) real_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

void mc_crash_arm(const char *d, long at, int t, int lfd)
{
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    crash_at = at;
    torn = t;
    counter = 0;
    logfd = lfd;
    armed = 1;
}
long mc_crash_disarm(void) { armed = 0; return counter; }

static int ours(const char *path)
{
    size_t n;
    char abs[8192];
    if (!path) return 0;
    if (path[0] != '/') {
        char cwd[4000];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(abs, sizeof abs, "%s/%s", cwd, path);
        path = abs;
    }
    if (strncmp(path, dir, dirlen)) return 0;
    n = strlen(path);
    if (n > 4 && !strcmp(path + n - 4, ".log")) return 0;
    return 1;
}
static int ourfd(int fd, char *buf, size_t bl)
{
    char p[64];
    ssize_t n;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    n = readlink(p, buf, bl - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return ours(buf);
}
/* bytes up to the first page boundary inside a write (0: it lies within one page): a killed process can
 * leave a system call half done only between pages */
static size_t cut(int fd, off64_t off, size_t n)
{
    if (off < 0) off = lseek64(fd, 0, SEEK_CUR);
    if (off < 0) off = 0;
    size_t left = 4096 - (size_t)(off % 4096);
    return left < n ? left : 0;
}
/* returns 1 when the operation has to be torn now */
static int tick(const char *op, const char *what, size_t n)
{
    long k = counter++;
    if (logfd >= 0) {
        char line[5000];
        const char *b = strrchr(what, '/');
        int l = snprintf(line, sizeof line, "%ld %s %s %zu\n", k, op, b ? b + 1 : what, n);
        syscall(SYS_write, logfd, line, l);
    }
    if (k == crash_at) {
        if (torn && n > 0) return 1;
        syscall(SYS_exit_group, 77);
    }
    return 0;
}
static void die(void) { syscall(SYS_exit_group, 77); }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    char p[4200];
    if (armed && fd != logfd && ourfd(fd, p, sizeof p) && tick("write", p, cut(fd, -1, n))) { real_write(fd, b, cut(fd, -1, n)); die(); }
    return real_write(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    REAL(pwrite);
    char p[4200];
    if (armed && ourfd(fd, p, sizeof p) && tick("pwrite", p, cut(fd, o, n))) { real_pwrite(fd, b, cut(fd, o, n), o); die(); }
    return real_pwrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(pwrite64);
    char p[4200];
    if (armed && ourfd(fd, p, sizeof p) && tick("pwrite64", p, cut(fd, o, n))) { real_pwrite64(fd, b, cut(fd, o, n), o); die(); }
    return real_pwrite64(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    char p[4200];
    if (armed && ourfd(fd, p, sizeof p) && tick("writev", p, c > 1 ? 2 : 0)) { real_writev(fd, v, c / 2); die(); }
    return real_writev(fd, v, c);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(sendfile);
    char p[4200];
    if (armed && ourfd(o, p, sizeof p) && tick("sendfile", p, n > 4096)) { real_sendfile(o, i, off, 4096); die(); }
    return real_sendfile(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    REAL(sendfile64);
    char p[4200];
    if (armed && ourfd(o, p, sizeof p) && tick("sendfile64", p, n > 4096)) { real_sendfile64(o, i, off, 4096); die(); }
    return real_sendfile64(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
    REAL(copy_file_range);
    char p[4200];
    if (armed && ourfd(o, p, sizeof p) && tick("copy_file_range", p, n > 4096)) { real_copy_file_range(i, io, o, oo, 4096, f); die(); }
    return real_copy_file_range(i, io, o, oo, n, f);
}
int ftruncate(int fd, off_t n)
{
    REAL(ftruncate);
    char p[4200];
    if (armed && ourfd(fd, p, sizeof p)) tick("ftruncate", p, 0);
    return real_ftruncate(fd, n);
}
int ftruncate64(int fd, off64_t n)
{
    REAL(ftruncate64);
    char p[4200];
    if (armed && ourfd(fd, p, sizeof p)) tick("ftruncate", p, 0);
    return real_ftruncate64(fd, n);
}
int truncate(const char *q, off_t n)
{
    REAL(truncate);
    if (armed && ours(q)) tick("truncate", q, 0);
    return real_truncate(q, n);
}
int rename(const char *a, const char *b)
{
    REAL(rename);
    if (armed && (ours(a) || ours(b))) tick("rename", b, 0);
    return real_rename(a, b);
}
int renameat(int x, const char *a, int y, const char *b)
{
    REAL(renameat);
    if (armed && (ours(a) || ours(b))) tick("rename", b, 0);
    return real_renameat(x, a, y, b);
}
int link(const char *a, const char *b)
{
    REAL(link);
    if (armed && (ours(a) || ours(b))) tick("link", b, 0);
    return real_link(a, b);
}
int unlink(const char *a)
{
    REAL(unlink);
    if (armed && ours(a)) tick("unlink", a, 0);
    return real_unlink(a);
}
int unlinkat(int d, const char *a, int f)
{
    REAL(unlinkat);
    if (armed && ours(a)) tick("unlink", a, 0);
    return real_unlinkat(d, a, f);
}
int remove(const char *a)
{
    REAL(remove);
    if (armed && ours(a)) tick("unlink", a, 0);
    return real_remove(a);
}
#define OPENBODY(real, ...) \
    mode_t m = 0; \
    if (f & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, f); m = va_arg(ap, mode_t); va_end(ap); } \
    if (armed && (f & (O_CREAT | O_TRUNC)) && ours(a)) tick("open", a, 0); \
    return real(__VA_ARGS__, f, m);
int open(const char *a, int f, ...) { REAL(open); OPENBODY(real_open, a) }
int open64(const char *a, int f, ...) { REAL(open64); OPENBODY(real_open64, a) }
int openat(int d, const char *a, int f, ...) { REAL(openat); OPENBODY(real_openat, d, a) }
int openat64(int d, const char *a, int f, ...) { REAL(openat64); OPENBODY(real_openat64, d, a) }
FILE *fopen(const char *a, const char *mode)
{
    REAL(fopen);
    if (armed && mode && mode[0] != 'r' && ours(a)) tick("open", a, 0);
    return real_fopen(a, mode);
}
FILE *fopen64(const char *a, const char *mode)
{
    REAL(fopen64);
    if (armed && mode && mode[0] != 'r' && ours(a)) tick("open", a, 0);
    return real_fopen64(a, mode);
}
