/* Stand-in for the packager in a cell: records the environment it is called in, then does what
   /bl/plan/<port> says: publishes files and index entries and exits with the given status. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
static char buf[1 << 16];
static void copy(const char *a, const char *b) {
  struct stat st; char x[4096], y[4096];
  if (lstat(a, &st)) return;
  if (S_ISDIR(st.st_mode)) {
    mkdir(b, 0755);
    DIR *d = opendir(a); struct dirent *e;
    while (d && (e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
      snprintf(x, sizeof x, "%s/%s", a, e->d_name); snprintf(y, sizeof y, "%s/%s", b, e->d_name); copy(x, y); }
    if (d) closedir(d);
  } else if (S_ISREG(st.st_mode)) {
    int i = open(a, O_RDONLY), o = open(b, O_WRONLY | O_CREAT | O_TRUNC, 0644), n;
    while ((n = read(i, buf, sizeof buf)) > 0) write(o, buf, n);
    close(i); close(o);
  }
}
static void move(const char *from, const char *to) { /* every <coll>/<file> below from */
  DIR *d = opendir(from), *s; struct dirent *e, *f; char x[4096], y[4096];
  while (d && (e = readdir(d))) if (e->d_name[0] != '.') {
    snprintf(x, sizeof x, "%s/%s", from, e->d_name); s = opendir(x);
    while (s && (f = readdir(s))) if (strcmp(f->d_name, ".") && strcmp(f->d_name, "..")) {
      snprintf(x, sizeof x, "%s/%s/%s", from, e->d_name, f->d_name); snprintf(y, sizeof y, "%s/%s/%s", to, e->d_name, f->d_name); rename(x, y); }
    if (s) closedir(s);
  }
  if (d) closedir(d);
}
static int names(const struct dirent *e) { return e->d_name[0] != '.'; }
static void index_of(const char *c) {
  char x[4096]; struct dirent **l; int n, i;
  snprintf(x, sizeof x, "/depot/%s/.REPO", c); FILE *o = fopen(x, "w");
  snprintf(x, sizeof x, "/bl/blocks/%s", c); n = scandir(x, &l, names, alphasort);
  for (i = 0; i < n; i++) { snprintf(x, sizeof x, "/bl/blocks/%s/%s", c, l[i]->d_name); FILE *f = fopen(x, "r"); size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, k, o); fclose(f); }
  fclose(o);
}
int main(int c, char **v) {
  char w[4096], x[4096], y[4096]; int n = 0, rc = 0, i;
  if (!getcwd(w, sizeof w)) return 99;
  for (;; n++) { snprintf(x, sizeof x, "/bl/env%d", n); if (access(x, F_OK)) break; }
  mkdir(x, 0755);
  snprintf(y, sizeof y, "%s/call", x); FILE *f = fopen(y, "w"); if (!f) return 98;
  fprintf(f, "%s\n", w); for (i = 1; i < c; i++) fprintf(f, "%s%s", i > 1 ? " " : "", v[i]); fprintf(f, "\n"); fclose(f);
  for (i = 0; i < 3; i++) { const char *p[] = {"/var", "/var/lib", "/var/lib/pkg"}; snprintf(y, sizeof y, "%s%s", x, p[i]); mkdir(y, 0755); }
  snprintf(y, sizeof y, "%s/usr", x); mkdir(y, 0755);
  snprintf(y, sizeof y, "%s/var/lib/pkg/DB", x); copy("/var/lib/pkg/DB", y);
  snprintf(y, sizeof y, "%s/usr/share", x); copy("/usr/share", y);
  snprintf(y, sizeof y, "%s/slog", x); copy("/slog", y);
  const char *p = strrchr(w, '/') + 1;
  snprintf(x, sizeof x, "/bl/plan/%s/rc", p); f = fopen(x, "r"); if (!f) return 2;
  fscanf(f, "%d", &rc); fclose(f);
  printf("building %s\n", p);
  if (rc) return rc;
  snprintf(x, sizeof x, "/bl/plan/%s/gone", p); f = fopen(x, "r");
  while (f && fscanf(f, "%4000s", y) == 1) { snprintf(x, sizeof x, "/bl/blocks/%s", y); unlink(x); }
  if (f) fclose(f);
  snprintf(x, sizeof x, "/bl/plan/%s/blocks", p); move(x, "/bl/blocks");
  snprintf(x, sizeof x, "/bl/plan/%s/files", p); move(x, "/depot");
  struct dirent **l; n = scandir("/bl/blocks", &l, names, alphasort);
  for (i = 0; i < n; i++) index_of(l[i]->d_name);
  return 0;
}
