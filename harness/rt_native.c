// Native counterpart of sx's harness interface: the harness is compiled and
// linked with the real program; symbolic inputs come from a file; files live in
// a scratch directory (argv[2]); every program run is a child process.
#define _GNU_SOURCE
#include "vx.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
int mm_main(int, char **);
void vx_main(int);
static unsigned char *g_in;
static size_t g_inn, g_pos;
static char *g_out;
static size_t g_outn;
static char g_dir[4000];
static unsigned long long g_h = 1469598103934665603ull;
unsigned long vx_run_steps;
int vx_runs;
static FILE *rep; // report stream, a private copy of the original stdout
__attribute__((destructor)) static void fin(void) {}
static void done(int code) { fflush(rep); _exit(code); }
void vx_libc_init(void) {}
void vx_sym(void *p, size_t n, const char *name) {
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = g_pos < g_inn ? g_in[g_pos++] : 0;
}
void vx_sym_set(void *p, size_t n, const char *set, size_t m, const char *name) { vx_sym(p, n, name); }
void vx_assume(int c) { if (!c) { fprintf(rep, "ASSUME-FAIL\n"); done(20); } }
void vx_assert(int c, const char *msg) { if (!c) { fprintf(rep, "ASSERT-FAIL %s\n", msg); done(10); } }
void vx_cover(const char *t) { fprintf(rep, "COVER %s\n", t); }
void vx_finding(const char *t) { fprintf(rep, "FINDING %s\n", t); }
long vx_conc(long v) { return v; }
void vx_print(const char *s) { fprintf(rep, "PRINT %s\n", s); }
int vx_symbolic(void) { return 0; }
void vx_reset_globals(void) {}
void vx_budget(unsigned long n) {}
void vx_digest(const void *p, size_t n) {
  for (size_t i = 0; i < n; i++) g_h = (g_h ^ ((const unsigned char *)p)[i]) * 1099511628211ull;
}
// deterministic clock, as in the symbolic library
clock_t clock(void) { return 0; }
time_t time(time_t *t) { if (t) *t = 1705312800; return 1705312800; }
struct tm *localtime(const time_t *t) {
  static struct tm x;
  x.tm_hour = 10; x.tm_mday = 15; x.tm_mon = 0; x.tm_year = 124; x.tm_wday = 1; x.tm_yday = 14;
  return &x;
}
int g_system_calls;
int system(const char *c) { // never run commands: only "cat" is imitated
  if (!c) return 1;
  g_system_calls++;
  if (!strncmp(c, "cat ", 4)) {
    FILE *f = fopen(c + 4, "r");
    if (!f) return 1;
    int ch;
    fflush(stdout);
    while ((ch = fgetc(f)) != EOF) putchar(ch);
    fclose(f);
  }
  return 0;
}
static char *slurp(const char *n, size_t *len) {
  FILE *f = fopen(n, "rb");
  if (!f) return NULL;
  fseek(f, 0, SEEK_END);
  long l = ftell(f);
  rewind(f);
  char *b = malloc(l + 1);
  if (fread(b, 1, l, f) != (size_t)l) l = 0;
  b[l] = 0;
  fclose(f);
  if (len) *len = l;
  return b;
}
void vfs_put(const char *n, const char *d, size_t len) {
  FILE *f = fopen(n, "wb");
  if (!f) { fprintf(rep, "CANNOT-WRITE %s\n", n); done(21); }
  fwrite(d, 1, len, f);
  fclose(f);
}
char *vfs_get(const char *n, size_t *len) { return slurp(n, len); }
void vfs_delete(const char *n) { unlink(n); }
int vfs_count(void) {
  DIR *d = opendir(".");
  int n = 0;
  for (struct dirent *e; (e = readdir(d));) if (e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}
// crash points: the child reports each file-system step by running the hook itself
void (*vfs_hook)(int op, const char *a, const char *b);
int vfs_fail_open_w;
int vfs_open_files;
int __real_rename(const char *, const char *);
int __real_remove(const char *);
FILE *__real_fopen(const char *, const char *);
static int g_inchild;
int vfs_failed(void) {
  char p[4200];
  snprintf(p, sizeof p, "%s/failed", g_dir);
  return access(p, F_OK) == 0;
}
int __wrap_rename(const char *a, const char *b) {
  int r = __real_rename(a, b);
  if (!r && g_inchild && vfs_hook) vfs_hook(2, a, b);
  return r;
}
int __wrap_remove(const char *a) {
  int r = __real_remove(a);
  if (!r && g_inchild && vfs_hook) vfs_hook(3, a, NULL);
  return r;
}
FILE *__wrap_fopen(const char *n, const char *m) {
  if (g_inchild && (m[0] == 'w' || m[0] == 'a') && vfs_fail_open_w && --vfs_fail_open_w == 0) {
    char p[4200];
    snprintf(p, sizeof p, "%s/failed", g_dir);
    FILE *x = __real_fopen(p, "w");
    if (x) fclose(x);
    return NULL;
  }
  FILE *f = __real_fopen(n, m);
  if (f && g_inchild && (m[0] == 'w' || m[0] == 'a') && vfs_hook) vfs_hook(1, n, NULL);
  return f;
}
int vx_catch(int (*f)(int, char **), int argc, char **argv) {
  char fi[4200], fo[4200];
  snprintf(fo, sizeof fo, "%s/out", g_dir);
  snprintf(fi, sizeof fi, "%s/in", g_dir);
  fflush(rep);
  pid_t p = fork();
  if (!p) {
    int i = open(fi, O_RDONLY | O_CREAT, 0600), o = open(fo, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(i, 0);
    dup2(o, 1);
    alarm(20);
    g_inchild = 1;
    int r = f(argc, argv);
    g_inchild = 0;
    exit(r);
  }
  int st;
  waitpid(p, &st, 0);
  free(g_out);
  g_out = slurp(fo, &g_outn);
  if (WIFSIGNALED(st)) {
    fprintf(rep, WTERMSIG(st) == SIGALRM ? "CRASH no end within 20 s\n" : "CRASH signal %d\n", WTERMSIG(st));
    done(11);
  }
  if (WEXITSTATUS(st) == 99) { fprintf(rep, "CRASH sanitizer report\n"); done(11); }
  if (WEXITSTATUS(st) == 10) done(10); // an assertion inside the hook
  return WEXITSTATUS(st);
}
int run_mm(int argc, char **argv, const char *in, size_t inlen) {
  char fi[4200];
  snprintf(fi, sizeof fi, "%s/in", g_dir);
  FILE *f = fopen(fi, "wb");
  fwrite(in, 1, inlen, f);
  fclose(f);
  int r = vx_catch(mm_main, argc, argv);
  vx_runs++;
  vx_digest(g_out, g_outn);
  return r;
}
char *run_out(size_t *len) { if (len) *len = g_outn; return g_out; }
int main(int argc, char **argv) { // variant inputs scratchdir
  if (argc < 4) return 22;
  rep = fdopen(dup(1), "w");
  setvbuf(rep, NULL, _IOLBF, 0);
  g_in = (unsigned char *)slurp(argv[2], &g_inn);
  char fs[4200];
  if (!g_in || !realpath(argv[3], g_dir)) return 22;
  snprintf(fs, sizeof fs, "%s/fs", g_dir);
  mkdir(fs, 0700);
  if (chdir(fs)) return 22;
  vx_main(atoi(argv[1]));
  fprintf(rep, "DIGEST %llu\nEND\n", g_h);
  done(0);
}
