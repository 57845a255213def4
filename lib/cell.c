/* cell ROOT INNER_UID CWD PROG ARGS...   -- run PROG in a user namespace, chrooted into ROOT.
   stdin/out/err are inherited; the environment is the caller's. */
#define _GNU_SOURCE
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
static void wr(const char *f, const char *s, int must) {
  int fd = open(f, O_WRONLY);
  if (fd < 0 || write(fd, s, strlen(s)) < 0) { if (must) { perror(f); _exit(125); } }
  if (fd >= 0) close(fd);
}
int main(int c, char **v) {
  char b[64];
  if (c < 5) return 125;
  uid_t u = getuid(); gid_t g = getgid();
  if (unshare(CLONE_NEWUSER)) { perror("unshare"); return 125; }
  wr("/proc/self/setgroups", "deny", 0);
  snprintf(b, sizeof b, "%s %d 1\n", v[2], u); wr("/proc/self/uid_map", b, 1);
  snprintf(b, sizeof b, "%s %d 1\n", v[2], g); wr("/proc/self/gid_map", b, 1);
  if (chroot(v[1])) { perror("chroot"); return 125; }
  if (chdir(v[3])) { perror("chdir"); return 125; }
  umask(022);
  if (getenv("CELL_PRELOAD")) setenv("LD_PRELOAD", getenv("CELL_PRELOAD"), 1);
  execv(v[4], v + 4);
  perror("execv");
  return 125;
}
