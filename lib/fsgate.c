/* LD_PRELOAD shim: every file-system call that touches the armed directory is
 * announced on an event pipe and waits for a verdict:
 *   'g' go on      'k' die before the call
 *   'h' (write)    perform half of the write, then die
 *   'f' (stdio, rename) the call fails with ENOSPC (writes: after half)
 * Used to enumerate crash points and interleavings of the code under test. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static int evfd = -1, gofd = -1;
static char prefix[PATH_MAX];
static char fdpath[1024][256];
static FILE *fps[64]; static char fpp[64][256];
static int armed_stat = 1;

void vp_arm(int e, int g, const char *p, int with_stat) { evfd = e; gofd = g; strncpy(prefix, p, PATH_MAX - 1); armed_stat = with_stat; }
void vp_disarm(void) { evfd = gofd = -1; }

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("VP_GATE");      /* "ev:go:with_stat:prefix" */
  int e, g, w, n = 0;
  if (s && sscanf(s, "%d:%d:%d:%n", &e, &g, &w, &n) == 3 && n) vp_arm(e, g, s + n, w);
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
static int ours(const char *p, char *out) {
  char buf[PATH_MAX];
  if (evfd < 0 || !p) return 0;
  if (p[0] != '/') { if (!getcwd(buf, sizeof buf)) return 0; size_t l = strlen(buf); if (!strcmp(p, ".")) ; else { buf[l] = '/'; strncpy(buf + l + 1, p, sizeof buf - l - 2); buf[sizeof buf - 1] = 0; } p = buf; }
  size_t n = strlen(prefix);
  if (strncmp(p, prefix, n)) return 0;
  if (out) { strncpy(out, p, 255); out[255] = 0; }
  return 1;
}
static char gate(const char *what, const char *p, long n) {
  char msg[700]; int e = errno;
  int l = snprintf(msg, sizeof msg, "%s\t%s\t%ld\n", what, p, n);
  syscall(SYS_write, evfd, msg, (size_t)l);
  char c = 'g'; long r;
  do r = syscall(SYS_read, gofd, &c, 1); while (r < 0 && errno == EINTR);
  if (r <= 0) { evfd = -1; errno = e; return 'g'; }
  if (c == 'k') die();
  errno = e; return c;
}
#define REAL(t, name, args) static t(*f) args; if (!f) f = (t(*) args)dlsym(RTLD_NEXT, name)
static void track(int fd, const char *p) { if (fd >= 0 && fd < 1024) { strncpy(fdpath[fd], p, 255); fdpath[fd][255] = 0; } }
#define ISWR(fl) (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & (O_CREAT | O_TRUNC)))
#define OPENBODY(nm) \
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } \
  REAL(int, nm, (const char *, int, ...)); char q[256]; \
  if (ours(p, q)) { gate(ISWR(fl) ? "openw" : "openr", q, fl & O_TRUNC ? 1 : 0); int fd = f(p, fl, m); track(fd, q); return fd; } \
  return f(p, fl, m);
int open(const char *p, int fl, ...) { OPENBODY("open") }
int open64(const char *p, int fl, ...) { OPENBODY("open64") }
#define OPENATBODY(nm) \
  mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } \
  REAL(int, nm, (int, const char *, int, ...)); char q[256]; \
  if ((d == AT_FDCWD || p[0] == '/') && ours(p, q)) { gate(ISWR(fl) ? "openw" : "openr", q, fl & O_TRUNC ? 1 : 0); int fd = f(d, p, fl, m); track(fd, q); return fd; } \
  return f(d, p, fl, m);
int openat(int d, const char *p, int fl, ...) { OPENATBODY("openat") }
int openat64(int d, const char *p, int fl, ...) { OPENATBODY("openat64") }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int isfd(int fd) { return evfd >= 0 && fd >= 0 && fd < 1024 && fdpath[fd][0]; }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", (int, const void *, size_t));
  if (isfd(fd)) { char c = gate("write", fdpath[fd], (long)n); if (c == 'h') { f(fd, b, n / 2); die(); } }
  return f(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, "pwrite64", (int, const void *, size_t, off_t));
  if (isfd(fd)) { char c = gate("write", fdpath[fd], (long)n); if (c == 'h') { f(fd, b, n / 2, o); die(); } }
  return f(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, "writev", (int, const struct iovec *, int));
  if (isfd(fd)) { char c = gate("write", fdpath[fd], n); if (c == 'h') die(); }
  return f(fd, v, n);
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, "read", (int, void *, size_t));
  if (isfd(fd) && armed_stat) gate("read", fdpath[fd], 0);
  return f(fd, b, n);
}
int close(int fd) {
  REAL(int, "close", (int));
  if (isfd(fd)) { gate("close", fdpath[fd], 0); fdpath[fd][0] = 0; }
  return f(fd);
}
int ftruncate64(int fd, off_t n) { REAL(int, "ftruncate64", (int, off_t)); if (isfd(fd)) gate("truncate", fdpath[fd], n); return f(fd, n); }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", (int, off_t)); if (isfd(fd)) gate("truncate", fdpath[fd], n); return f(fd, n); }
int rename(const char *a, const char *b) { REAL(int, "rename", (const char *, const char *)); char q[256]; if ((ours(b, q) || ours(a, q)) && gate("rename", q, 0) == 'f') { errno = ENOSPC; return -1; } return f(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", (int, const char *, int, const char *)); char q[256]; if (ours(b, q) || ours(a, q)) gate("rename", q, 0); return f(x, a, y, b); }
int link(const char *a, const char *b) { REAL(int, "link", (const char *, const char *)); char q[256]; if (ours(b, q)) gate("link", q, 0); return f(a, b); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", (const char *, const char *)); char q[256]; if (ours(b, q)) gate("link", q, 0); return f(a, b); }
int unlink(const char *a) { REAL(int, "unlink", (const char *)); char q[256]; if (ours(a, q)) gate("unlink", q, 0); return f(a); }
int unlinkat(int d, const char *a, int fl) { REAL(int, "unlinkat", (int, const char *, int)); char q[256]; if (ours(a, q)) gate("unlink", q, 0); return f(d, a, fl); }
int remove(const char *a) { REAL(int, "remove", (const char *)); char q[256]; if (ours(a, q)) gate("unlink", q, 0); return f(a); }
int mkdir(const char *a, mode_t m) { REAL(int, "mkdir", (const char *, mode_t)); char q[256]; if (ours(a, q)) gate("mkdir", q, 0); return f(a, m); }
int stat(const char *p, struct stat *s) { REAL(int, "stat", (const char *, struct stat *)); char q[256]; if (armed_stat && ours(p, q)) gate("stat", q, 0); return f(p, s); }
int stat64(const char *p, struct stat64 *s) { REAL(int, "stat64", (const char *, struct stat64 *)); char q[256]; if (armed_stat && ours(p, q)) gate("stat", q, 0); return f(p, s); }
/* stdio of C programs: the library's internal calls bypass the symbols above */
#define FOPENBODY(nm) REAL(FILE *, nm, (const char *, const char *)); char q[256]; \
  if (ours(p, q)) { int w = mo[0] != 'r' || strchr(mo, '+'); char c = gate(w ? "openw" : "openr", q, mo[0] == 'w'); if (c == 'f') { errno = ENOSPC; return 0; } \
    FILE *r = f(p, mo); if (r) for (int i = 0; i < 64; i++) if (!fps[i]) { fps[i] = r; strcpy(fpp[i], q); break; } return r; } \
  return f(p, mo);
FILE *fopen(const char *p, const char *mo) { FOPENBODY("fopen") }
FILE *fopen64(const char *p, const char *mo) { FOPENBODY("fopen64") }
static int fpidx(FILE *s) { if (evfd >= 0 && s) for (int i = 0; i < 64; i++) if (fps[i] == s) return i; return -1; }
size_t fwrite(const void *b, size_t z, size_t n, FILE *s) {
  REAL(size_t, "fwrite", (const void *, size_t, size_t, FILE *));
  int i = fpidx(s);
  if (i >= 0) { char c = gate("write", fpp[i], (long)(z * n));
    if (c == 'h') { f(b, 1, z * n / 2, s); fflush(s); die(); }
    if (c == 'f') { f(b, 1, z * n / 2, s); fflush(s); errno = ENOSPC; return n / 2 == n ? 0 : n / 2; }
    size_t r = f(b, z, n, s); fflush(s); return r; }
  return f(b, z, n, s);
}
int fclose(FILE *s) {
  REAL(int, "fclose", (FILE *));
  int i = fpidx(s);
  if (i >= 0) { char c = gate("close", fpp[i], 0); fps[i] = 0; if (c == 'f') { f(s); errno = ENOSPC; return EOF; } }
  return f(s);
}
