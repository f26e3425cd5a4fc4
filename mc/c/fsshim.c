/* LD_PRELOAD shim: counts the file-changing system calls below a directory and can fail, cut short or crash at the k-th one. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static char prefix[512]; static int armed, target, mode, count, tracked[4096]; static char names[64][24];
/* mode 1 crash before, 2 crash after, 3 partial write then crash, 4 fail once (ENOSPC), 5 fail from here on, 6 short write once, 7 short write then fail, 8 interrupt (EIO) once, 9 only the cleanup works: fail every non-unlink from here on */
void shim_arm(const char *p, int k, int m) { snprintf(prefix, sizeof prefix, "%s", p); target = k; mode = m; count = 0; armed = 1; memset(tracked, 0, sizeof tracked); }
int shim_count(void) { armed = 0; return count; }
const char *shim_name(int i) { return i < 64 ? names[i] : "?"; }
#define REAL(f) static __typeof__(f) *real; if (!real) real = dlsym(RTLD_NEXT, #f)
static int below(const char *p) {
    char b[1024];
    if (!armed || !p) return 0;
    if (p[0] != '/') { char c[512]; if (!getcwd(c, sizeof c)) return 0; snprintf(b, sizeof b, "%s/%s", c, p); p = b; }
    return !strncmp(p, prefix, strlen(prefix));
}
/* returns 0 go on, 1 fail, 2 crash after, 3 partial */
static int step(const char *nm) {
    int i = count++;
    if (i < 64) snprintf(names[i], 24, "%s", nm);
    if (mode == 0 || i < target) return 0;
    if (mode == 5 || (mode == 9 && strcmp(nm, "unlink"))) { errno = ENOSPC; return 1; }
    if (mode == 7 && i > target) { errno = ENOSPC; return 1; }
    if (i > target) return 0;
    switch (mode) {
    case 1: _exit(77);
    case 2: return 2;
    case 3: return strcmp(nm, "write") ? 2 : 3;
    case 4: errno = ENOSPC; return 1;
    case 6: case 7: return strcmp(nm, "write") ? 0 : 4;
    case 8: errno = EIO; return 1;
    }
    return 0;
}
#define WR(fl) ((fl) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))
#define OPENBODY(call, path, fl) \
    int s = 0; if (below(path) && WR(fl)) { s = step("open"); if (s == 1) return -1; } \
    int fd = call; if (fd >= 0 && fd < 4096) tracked[fd] = below(path) && WR(fl); if (s >= 2 && s < 4) _exit(77); return fd;
#define MODE(fl) mode_t md = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); md = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE(fl) REAL(open); OPENBODY(real(p, fl, md), p, fl) }
int open64(const char *p, int fl, ...) { MODE(fl) REAL(open64); OPENBODY(real(p, fl, md), p, fl) }
int openat(int d, const char *p, int fl, ...) { MODE(fl) REAL(openat); OPENBODY(real(d, p, fl, md), p, fl) }
int openat64(int d, const char *p, int fl, ...) { MODE(fl) REAL(openat64); OPENBODY(real(d, p, fl, md), p, fl) }
static int T(int fd) { return armed && fd >= 0 && fd < 4096 && tracked[fd]; }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!T(fd)) return real(fd, b, n);
    int s = step("write");
    if (s == 1) return -1;
    if (s == 3) { real(fd, b, n / 2); _exit(77); }
    if (s == 4 && n > 1) return real(fd, b, n / 2);
    ssize_t r = real(fd, b, n);
    if (s == 2) _exit(77);
    return r;
}
#define SIMPLE(nm, cond, call) { if (!(cond)) return call; int s = step(nm); if (s == 1) return -1; int r = call; if (s >= 2 && s < 4) _exit(77); return r; }
int close(int fd) { REAL(close); int t = T(fd); if (fd >= 0 && fd < 4096) tracked[fd] = 0; if (!t) return real(fd); int s = step("close"); int r = real(fd); if (s == 1) { errno = ENOSPC; return -1; } if (s >= 2 && s < 4) _exit(77); return r; }
int rename(const char *a, const char *b) { REAL(rename); SIMPLE("rename", below(b) || below(a), real(a, b)) }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); SIMPLE("rename", below(b) || below(a), real(d, a, e, b)) }
int unlink(const char *a) { REAL(unlink); SIMPLE("unlink", below(a), real(a)) }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); SIMPLE("unlink", below(a), real(d, a, f)) }
int ftruncate(int fd, off_t n) { REAL(ftruncate); SIMPLE("ftruncate", T(fd), real(fd, n)) }
int ftruncate64(int fd, off_t n) { REAL(ftruncate64); SIMPLE("ftruncate", T(fd), real(fd, n)) }
int truncate(const char *p, off_t n) { REAL(truncate); SIMPLE("truncate", below(p), real(p, n)) }
int fsync(int fd) { REAL(fsync); SIMPLE("fsync", T(fd), real(fd)) }
int link(const char *a, const char *b) { REAL(link); SIMPLE("link", below(b), real(a, b)) }
int mkdir(const char *a, mode_t m) { REAL(mkdir); SIMPLE("mkdir", below(a), real(a, m)) }
int fchmod(int fd, mode_t m) { REAL(fchmod); SIMPLE("chmod", T(fd), real(fd, m)) }
int chmod(const char *a, mode_t m) { REAL(chmod); SIMPLE("chmod", below(a), real(a, m)) }
