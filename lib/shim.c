/* Interposer for the tools: numbers their file-system calls and, at a chosen one, kills the
   process, makes the call fail, sends a signal, or waits for the driver.  Environment:
     SHIM_CAT   which calls count: M (changing), R (reading), L (locking); default "M"
     SHIM_LOG   file: one line per counted call
     SHIM_KILL  n          die (SIGKILL) instead of performing call n
     SHIM_KILLB n          perform half of call n if it is a write, then die
     SHIM_FAIL  n:errno    call n fails;  n+:errno every call from n on fails
     SHIM_SIG   n:sig      raise sig just before call n
     SHIM_PAUSE n,n,..     before call n: create FILE.at.n and wait for FILE.go.n (SHIM_SYNC=FILE)
   Only the tools themselves are affected, not what they start. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <sys/file.h>
#include <sys/time.h>
#include <sys/uio.h>

static int on = -1, logfd = -1, busy;
static long n, kill_at, killb_at, fail_at, fail_all, fail_no, sig_at, sig_no;
static char cat[8] = "M";
static const char *pauses, *syncf;

static long num(const char *s, long *second) {
  char *e; long v;
  if (!s) return 0;
  v = strtol(s, &e, 10);
  if (*e == '+') { fail_all = 1; e++; }
  if (*e == ':' && second) *second = strtol(e + 1, 0, 10);
  return v;
}
static void init(void) {
  const char *p = program_invocation_short_name;
  on = 0;
  if (strcmp(p, "pkgadd") && strcmp(p, "pkgrm") && strcmp(p, "pkginfo") && strcmp(p, "cards")) return;
  on = 1;
  if (getenv("SHIM_CAT")) snprintf(cat, sizeof cat, "%s", getenv("SHIM_CAT"));
  kill_at = num(getenv("SHIM_KILL"), 0);
  killb_at = num(getenv("SHIM_KILLB"), 0);
  fail_at = num(getenv("SHIM_FAIL"), &fail_no);
  sig_at = num(getenv("SHIM_SIG"), &sig_no);
  pauses = getenv("SHIM_PAUSE"); syncf = getenv("SHIM_SYNC");
  if (getenv("SHIM_LOG")) logfd = syscall(SYS_openat, AT_FDCWD, getenv("SHIM_LOG"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
static int paused_at(long k) {
  const char *p = pauses;
  while (p && *p) { char *e; long v = strtol(p, &e, 10); if (v == k) return 1; p = *e ? e + 1 : e; }
  return 0;
}
/* 0: go on; 1: fail with errno set; 2: half of it, then die */
static int hit(char c, const char *what, const char *path) {
  if (on < 0) init();
  if (!on || busy || !strchr(cat, c)) return 0;
  busy = 1;
  int e0 = errno;
  n++;
  if (logfd >= 0) {
    char b[4400]; int l = snprintf(b, sizeof b, "%ld %c %s %s\n", n, c, what, path ? path : "");
    syscall(SYS_write, logfd, b, l);
  }
  if (kill_at == n) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
  if (sig_at == n) raise(sig_no);
  if (pauses && syncf && paused_at(n)) {
    char b[256]; struct timespec t = {0, 300000};
    snprintf(b, sizeof b, "%s.at.%ld", syncf, n);
    syscall(SYS_close, syscall(SYS_openat, AT_FDCWD, b, O_WRONLY | O_CREAT, 0644));
    snprintf(b, sizeof b, "%s.go.%ld", syncf, n);
    while (syscall(SYS_faccessat, AT_FDCWD, b, F_OK)) nanosleep(&t, 0);
  }
  errno = e0;
  busy = 0;
  if (killb_at == n) return 2;
  if (fail_at && (fail_at == n || (fail_all && n > fail_at))) { errno = fail_no; return 1; }
  return 0;
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
#define REAL(f) static __typeof__(&f) r; if (!r) r = (__typeof__(&f))dlsym(RTLD_NEXT, #f)
static char *fds[256];
static int named(int fd, const char *p) {
  if (on > 0 && fd >= 0 && fd < 256) { int e = errno; free(fds[fd]); fds[fd] = strdup(p); errno = e; }
  return fd;
}
static const char *fdname(int fd, char *b, int len) {
  if (fd >= 0 && fd < 256 && fds[fd]) snprintf(b, len, "%s", fds[fd]); else snprintf(b, len, "fd%d", fd);
  return b;
}
static int isfile(int fd) {
  struct stat s;
  return fd > 2 && !syscall(SYS_fstat, fd, &s) && (S_ISREG(s.st_mode) || S_ISDIR(s.st_mode));
}

#define OPENLIKE(f) int f(const char *p, int fl, ...) { REAL(f); mode_t m = 0; \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
  if (hit((fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) ? 'M' : 'R', "open", p) == 1) return -1; return named(r(p, fl, m), p); }
OPENLIKE(open) OPENLIKE(open64)
#define OPENATLIKE(f) int f(int d, const char *p, int fl, ...) { REAL(f); mode_t m = 0; \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
  if (hit((fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) ? 'M' : 'R', "openat", p) == 1) return -1; return named(r(d, p, fl, m), p); }
OPENATLIKE(openat) OPENATLIKE(openat64)
int creat(const char *p, mode_t m) { REAL(creat); if (hit('M', "creat", p) == 1) return -1; return named(r(p, m), p); }
int creat64(const char *p, mode_t m) { REAL(creat64); if (hit('M', "creat", p) == 1) return -1; return named(r(p, m), p); }
#define FOPENLIKE(f) FILE *f(const char *p, const char *m) { REAL(f); \
  if (hit(strpbrk(m, "wa+") ? 'M' : 'R', "fopen", p) == 1) return 0; FILE *f_ = r(p, m); if (f_) named(fileno(f_), p); return f_; }
FOPENLIKE(fopen) FOPENLIKE(fopen64)
ssize_t write(int fd, const void *b, size_t l) {
  REAL(write); char nm[4200]; int h;
  if (!isfile(fd)) return r(fd, b, l);
  h = hit('M', "write", fdname(fd, nm, sizeof nm));
  if (h == 1) return -1;
  if (h == 2) { r(fd, b, l / 2); die(); }
  return r(fd, b, l);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(writev); char nm[4200]; int h;
  if (!isfile(fd)) return r(fd, v, c);
  h = hit('M', "writev", fdname(fd, nm, sizeof nm));
  if (h == 1) return -1;
  if (h == 2) { if (c) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); die(); }
  return r(fd, v, c);
}
/* stdio: the driver's view of a buffered write is the flush at close */
int fclose(FILE *f) { REAL(fclose); char nm[4200];
  if (on != 0 && f && isfile(fileno(f)) && (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY && hit('M', "fclose", fdname(fileno(f), nm, sizeof nm)) == 1) { int e = errno; r(f); errno = e; return EOF; }
  return r(f); }
size_t fwrite(const void *b, size_t s, size_t k, FILE *f) { REAL(fwrite); char nm[4200];
  if (f != stdout && f != stderr && isfile(fileno(f))) {
    int h = hit('M', "fwrite", fdname(fileno(f), nm, sizeof nm));
    if (h == 1) { f->_flags |= 0x20; return 0; }   /* the error flag of the stream */
    if (h == 2) { r(b, 1, s * k / 2, f); fflush(f); die(); }
  }
  return r(b, s, k, f); }
char *fgets(char *b, int n, FILE *f) { REAL(fgets);
  char nm[4200];
  if (strchr(cat, 'G') && f != stdin && isfile(fileno(f)) && hit('G', "fgets", fdname(fileno(f), nm, sizeof nm)) == 1) { f->_flags |= 0x20; return 0; }
  return r(b, n, f); }
ssize_t read(int fd, void *b, size_t l) {
  REAL(read); char nm[4200];
  if (strchr(cat, 'R') && isfile(fd) && hit('R', "read", fdname(fd, nm, sizeof nm)) == 1) return -1;
  return r(fd, b, l);
}
int fsync(int fd) { REAL(fsync); char nm[4200]; if (hit('M', "fsync", fdname(fd, nm, sizeof nm)) == 1) return -1; return r(fd); }
int close(int fd) { REAL(close); return r(fd); }
#define P1(f, c) int f(const char *p) { REAL(f); if (hit(c, #f, p) == 1) return -1; return r(p); }
P1(unlink, 'M') P1(rmdir, 'M') P1(remove, 'M') P1(chdir, 'R')
int unlinkat(int d, const char *p, int fl) { REAL(unlinkat); if (hit('M', "unlinkat", p) == 1) return -1; return r(d, p, fl); }
int rename(const char *a, const char *b) { REAL(rename); if (hit('M', "rename", b) == 1) return -1; return r(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if (hit('M', "renameat", b) == 1) return -1; return r(d, a, e, b); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (hit('M', "mkdir", p) == 1) return -1; return r(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); if (hit('M', "mkdirat", p) == 1) return -1; return r(d, p, m); }
int symlink(const char *a, const char *b) { REAL(symlink); if (hit('M', "symlink", b) == 1) return -1; return r(a, b); }
int link(const char *a, const char *b) { REAL(link); if (hit('M', "link", b) == 1) return -1; return r(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(linkat); if (hit('M', "linkat", b) == 1) return -1; return r(d, a, e, b, f); }
int chmod(const char *p, mode_t m) { REAL(chmod); if (hit('M', "chmod", p) == 1) return -1; return r(p, m); }
int fchmod(int fd, mode_t m) { REAL(fchmod); char nm[4200]; if (hit('M', "fchmod", fdname(fd, nm, sizeof nm)) == 1) return -1; return r(fd, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(fchmodat); if (hit('M', "fchmodat", p) == 1) return -1; return r(d, p, m, f); }
int chown(const char *p, uid_t u, gid_t g) { REAL(chown); if (hit('M', "chown", p) == 1) return -1; return r(p, u, g); }
int lchown(const char *p, uid_t u, gid_t g) { REAL(lchown); if (hit('M', "lchown", p) == 1) return -1; return r(p, u, g); }
int fchown(int fd, uid_t u, gid_t g) { REAL(fchown); char nm[4200]; if (hit('M', "fchown", fdname(fd, nm, sizeof nm)) == 1) return -1; return r(fd, u, g); }
int futimens(int fd, const struct timespec t[2]) { REAL(futimens); char nm[4200]; if (hit('M', "futimens", fdname(fd, nm, sizeof nm)) == 1) return -1; return r(fd, t); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(utimensat); if (hit('M', "utimensat", p) == 1) return -1; return r(d, p, t, f); }
int ftruncate(int fd, off_t l) { REAL(ftruncate); char nm[4200]; if (hit('M', "ftruncate", fdname(fd, nm, sizeof nm)) == 1) return -1; return r(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); char nm[4200]; if (hit('M', "ftruncate", fdname(fd, nm, sizeof nm)) == 1) return -1; return r(fd, l); }
DIR *opendir(const char *p) { REAL(opendir); if (hit('R', "opendir", p) == 1) return 0; DIR *d_ = r(p); if (d_) named(dirfd(d_), p); return d_; }
struct dirent *readdir(DIR *d) { REAL(readdir); char nm[4200];
  if (strchr(cat, 'R') && hit('R', "readdir", fdname(dirfd(d), nm, sizeof nm)) == 1) return 0; return r(d); }
struct dirent64 *readdir64(DIR *d) { REAL(readdir64); char nm[4200];
  if (strchr(cat, 'R') && hit('R', "readdir", fdname(dirfd(d), nm, sizeof nm)) == 1) return 0; return r(d); }
#define STATLIKE(f, S) int f(const char *p, struct S *s) { REAL(f); if (hit('R', #f, p) == 1) return -1; return r(p, s); }
int access(const char *p, int m) { REAL(access); if (hit('R', "access", p) == 1) return -1; return r(p, m); }
int faccessat(int d, const char *p, int m, int fl) { REAL(faccessat); if (hit('R', "access", p) == 1) return -1; return r(d, p, m, fl); }
STATLIKE(stat, stat) STATLIKE(lstat, stat) STATLIKE(stat64, stat64) STATLIKE(lstat64, stat64)
/* only the database, a directory, counts as the lock */
int flock(int fd, int o) { REAL(flock); char nm[64]; struct stat s; if (syscall(SYS_fstat, fd, &s) || !S_ISDIR(s.st_mode)) return r(fd, o); snprintf(nm, sizeof nm, "%s", o & LOCK_UN ? "UN" : o & LOCK_EX ? "EX" : "SH"); if (hit('L', "flock", nm) == 1) return -1; return r(fd, o); }
