// A small C library for programs run by sx: memory-backed files, a recorded
// stdout, character classification by table (so that it does not branch),
// the printf family, and the usual string functions.  Functions named __c_x are
// the general versions behind the engine's native x.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <time.h>
#include <wchar.h>

void *malloc(size_t);
void *realloc(void *, size_t);
void free(void *);
void *memcpy(void *, const void *, size_t);
void *memset(void *, int, size_t);
size_t strlen(const char *);
int strcmp(const char *, const char *);
int strncmp(const char *, const char *, size_t);
char *strcpy(char *, const char *);
char *strchr(const char *, int);
void vx_assume(int);
void vx_assert(int, const char *);
void exit(int);

// ---- strings -------------------------------------------------------------------
size_t __c_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int __c_strcmp(const char *a, const char *b) {
  while (*a && *a == *b) { a++; b++; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int __c_strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) {
    if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
int __c_memcmp(const void *x, const void *y, size_t n) {
  const unsigned char *a = x, *b = y;
  for (; n; n--, a++, b++)
    if (*a != *b) return (int)*a - (int)*b;
  return 0;
}
char *__c_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *__c_strchr(const char *s, int c) {
  for (;; s++) {
    if (*s == (char)c) return (char *)s;
    if (!*s) return NULL;
  }
}
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strrchr(const char *s, int c) {
  const char *r = NULL;
  for (;; s++) {
    if (*s == (char)c) r = s;
    if (!*s) return (char *)r;
  }
}
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *s = p;
  for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s;
  return NULL;
}
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
  char *p = d + strlen(d);
  while (n-- && *s) *p++ = *s++;
  *p = 0;
  return d;
}
char *strstr(const char *h, const char *n) {
  if (!*n) return (char *)h;
  for (; *h; h++) {
    if (*h != *n) continue;
    size_t i = 1;
    while (n[i] && h[i] == n[i]) i++;
    if (!n[i]) return (char *)h;
  }
  return NULL;
}
size_t strcspn(const char *s, const char *r) { size_t i = 0; for (; s[i]; i++) if (strchr(r, s[i])) break; return i; }
size_t strspn(const char *s, const char *r) { size_t i = 0; for (; s[i]; i++) if (!strchr(r, s[i])) break; return i; }
char *strpbrk(const char *s, const char *r) { for (; *s; s++) if (strchr(r, *s)) return (char *)s; return NULL; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; return memcpy(malloc(n), s, n); }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
char *strtok_r(char *s, const char *d, char **sv) {
  if (!s) s = *sv;
  s += strspn(s, d);
  if (!*s) { *sv = s; return NULL; }
  char *e = s + strcspn(s, d);
  if (*e) *e++ = 0;
  *sv = e;
  return s;
}
char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }
char *strerror(int e) { return "error"; }
static int g_errno;
int *__errno_location(void) { return &g_errno; }
void perror(const char *s) {}

// ---- ctype (tables indexed -128..255, as in glibc's C locale) -------------------
#define UP 1
#define LO 2
#define DG 4
#define SP 8
#define PU 16
#define XD 32
#define BL 64
#define CN 128
static unsigned char ctab[384];
static signed short upt[384], lot[384];
static int ct_init;
static void ctinit(void) {
  for (int c = -128; c < 256; c++) {
    unsigned char f = 0;
    if (c >= 'A' && c <= 'Z') f |= UP;
    if (c >= 'a' && c <= 'z') f |= LO;
    if (c >= '0' && c <= '9') f |= DG;
    if (c == ' ' || (c >= 9 && c <= 13)) f |= SP;
    if (c == ' ' || c == 9) f |= BL;
    if (c > 32 && c < 127 && !(f & (UP | LO | DG))) f |= PU;
    if ((f & DG) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) f |= XD;
    if ((c >= 0 && c < 32) || c == 127) f |= CN;
    ctab[c + 128] = f;
    upt[c + 128] = (f & LO) ? c - 32 : c;
    lot[c + 128] = (f & UP) ? c + 32 : c;
  }
  ct_init = 1;
}
void vx_libc_init(void) { ctinit(); }
#define CT(c) ctab[(c) + 128]
int isalpha(int c) { return CT(c) & (UP | LO); }
int isupper(int c) { return CT(c) & UP; }
int islower(int c) { return CT(c) & LO; }
int isdigit(int c) { return CT(c) & DG; }
int isxdigit(int c) { return CT(c) & XD; }
int isspace(int c) { return CT(c) & SP; }
int isblank(int c) { return CT(c) & BL; }
int ispunct(int c) { return CT(c) & PU; }
int isalnum(int c) { return CT(c) & (UP | LO | DG); }
int isgraph(int c) { return CT(c) & (UP | LO | DG | PU); }
int isprint(int c) { return (CT(c) & (UP | LO | DG | PU)) | (c == ' '); }
int iscntrl(int c) { return CT(c) & CN; }
int toupper(int c) { return upt[c + 128]; }
int tolower(int c) { return lot[c + 128]; }
int strcasecmp(const char *a, const char *b) {
  while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; }
  return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
int strncasecmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) {
    int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
    if (x != y) return x - y;
    if (!*a) return 0;
  }
  return 0;
}

// ---- numbers --------------------------------------------------------------------
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
unsigned long strtoul(const char *s, char **e, int base) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  int neg = 0, any = 0;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0;
  for (;; p++) {
    int d;
    if (*p >= '0' && *p <= '9') d = *p - '0';
    else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
    else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
    else break;
    if (d >= base) break;
    if (v > (ULONG_MAX - d) / base) v = ULONG_MAX; else v = v * base + d;
    any = 1;
  }
  if (e) *e = (char *)(any ? p : s);
  return neg ? -v : v;
}
long strtol(const char *s, char **e, int base) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  int neg = 0, any = 0;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0, lim = neg ? 0x8000000000000000ul : 0x7ffffffffffffffful;
  int ov = 0;
  for (;; p++) {
    int d;
    if (*p >= '0' && *p <= '9') d = *p - '0';
    else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
    else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
    else break;
    if (d >= base) break;
    any = 1;
    if (ov || v > (lim - d) / base) { v = lim; ov = 1; } else v = v * base + d;
  }
  if (e) *e = (char *)(any ? p : s);
  return neg ? (long)-v : (long)v;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
double strtod(const char *s, char **e) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  int neg = 0, any = 0;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  double v = 0;
  for (; *p >= '0' && *p <= '9'; p++) { v = v * 10 + (*p - '0'); any = 1; }
  if (*p == '.') {
    p++;
    double f = 0, sc = 1;
    for (; *p >= '0' && *p <= '9'; p++) { f = f * 10 + (*p - '0'); sc *= 10; any = 1; }
    v += f / sc;
  }
  if (any && (*p == 'e' || *p == 'E')) {
    char *q;
    long x = strtol(p + 1, &q, 10);
    if (q != p + 1) {
      p = q;
      for (; x > 0; x--) v *= 10;
      for (; x < 0; x++) v /= 10;
    }
  }
  if (e) *e = (char *)(any ? p : s);
  return neg ? -v : v;
}
double atof(const char *s) { return strtod(s, NULL); }
void qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) { // stable merge sort
  if (n < 2) return;
  char *a = base;
  size_t h = n / 2;
  qsort(a, h, w, cmp);
  qsort(a + h * w, n - h, w, cmp);
  char *t = malloc(n * w);
  size_t i = 0, j = h, k = 0;
  while (i < h && j < n)
    if (cmp(a + i * w, a + j * w) <= 0) { memcpy(t + k++ * w, a + i * w, w); i++; }
    else { memcpy(t + k++ * w, a + j * w, w); j++; }
  for (; i < h; i++) memcpy(t + k++ * w, a + i * w, w);
  for (; j < n; j++) memcpy(t + k++ * w, a + j * w, w);
  memcpy(a, t, n * w);
  free(t);
}
void *bsearch(const void *key, const void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  size_t l = 0, u = n;
  while (l < u) {
    size_t i = (l + u) / 2;
    const char *p = (const char *)base + i * w;
    int c = cmp(key, p);
    if (c < 0) u = i;
    else if (c > 0) l = i + 1;
    else return (void *)p;
  }
  return NULL;
}
static unsigned long g_rand = 1;
int rand(void) { g_rand = g_rand * 1103515245 + 12345; return (int)((g_rand >> 16) & 0x7fff); }
void srand(unsigned s) { g_rand = s; }
char *getenv(const char *n) { return NULL; }

// ---- time -----------------------------------------------------------------------
clock_t clock(void) { return 0; }
time_t time(time_t *t) { if (t) *t = 1705312800; return 1705312800; }
static struct tm g_tm;
struct tm *localtime(const time_t *t) {
  g_tm.tm_sec = 0; g_tm.tm_min = 0; g_tm.tm_hour = 10; g_tm.tm_mday = 15; g_tm.tm_mon = 0;
  g_tm.tm_year = 124; g_tm.tm_wday = 1; g_tm.tm_yday = 14; g_tm.tm_isdst = 0;
  return &g_tm;
}
struct tm *gmtime(const time_t *t) { return localtime(t); }
double difftime(time_t a, time_t b) { return (double)(a - b); }

// ---- files ----------------------------------------------------------------------
#define MAXF 96
typedef struct { char *name; char *data; size_t len, cap; int live; } VF;
static VF g_f[MAXF];
static int g_nf;
typedef struct _IO_FILE { VF *f; size_t pos; int rd, wr, eof, std, err, unget; } FILE;
static FILE g_std[3];
FILE *stdin = &g_std[0], *stdout = &g_std[1], *stderr = &g_std[2];
static VF g_stdv[3];
void (*vfs_hook)(int op, const char *a, const char *b); // called after 1 create/truncate, 2 rename, 3 remove, 4 close of a written file
int vfs_fail_open_w;  // n > 0: the n-th open for writing fails
static int g_failed;
int vfs_failed(void) { return g_failed; }
int vfs_open_files;

static VF *vfind(const char *n) {
  for (int i = 0; i < g_nf; i++)
    if (g_f[i].live && !strcmp(g_f[i].name, n)) return &g_f[i];
  return NULL;
}
static VF *vnew(const char *n) {
  VF *v = NULL;
  for (int i = 0; i < g_nf && !v; i++)
    if (!g_f[i].live) v = &g_f[i];
  if (!v) {
    vx_assert(g_nf < MAXF, "internal: too many files");
    v = &g_f[g_nf++];
  }
  size_t l = strlen(n) + 1;
  v->name = memcpy(malloc(l), n, l);
  v->data = NULL;
  v->len = v->cap = 0;
  v->live = 1;
  return v;
}
static void vput(VF *v, size_t pos, const char *p, size_t n) {
  if (!n) return;
  if (pos + n > v->cap) {
    size_t c = v->cap ? v->cap : 512;
    while (c < pos + n) c *= 2;
    v->data = realloc(v->data, c);
    v->cap = c;
  }
  if (pos > v->len) memset(v->data + v->len, 0, pos - v->len);
  memcpy(v->data + pos, p, n);
  if (pos + n > v->len) v->len = pos + n;
}
void vfs_put(const char *n, const char *d, size_t len) {
  VF *v = vfind(n);
  if (!v) v = vnew(n);
  v->len = 0;
  vput(v, 0, d, len);
}
char *vfs_get(const char *n, size_t *len) { // NULL if there is no such file; data is NUL-terminated
  VF *v = vfind(n);
  if (!v) return NULL;
  char z = 0;
  size_t l = v->len;
  vput(v, l, &z, 1);
  v->len = l;
  if (len) *len = l;
  return v->data;
}
int vfs_count(void) { int n = 0; for (int i = 0; i < g_nf; i++) n += g_f[i].live; return n; }
void vfs_delete(const char *n) { VF *v = vfind(n); if (v) v->live = 0; }
const char *vfs_name(int k) { for (int i = 0; i < g_nf; i++) if (g_f[i].live && k-- == 0) return g_f[i].name; return NULL; }
void vfs_stdin(const char *d, size_t n) {
  g_stdv[0].len = 0;
  vput(&g_stdv[0], 0, d, n);
  g_std[0].f = &g_stdv[0]; g_std[0].pos = 0; g_std[0].eof = 0; g_std[0].rd = 1; g_std[0].std = 1; g_std[0].unget = -1;
  for (int i = 1; i < 3; i++) {
    g_stdv[i].len = 0;
    g_std[i].f = &g_stdv[i]; g_std[i].pos = 0; g_std[i].wr = 1; g_std[i].std = 1; g_std[i].unget = -1;
  }
}
char *vfs_stdout(size_t *len) {
  char z = 0;
  size_t l = g_stdv[1].len;
  vput(&g_stdv[1], l, &z, 1);
  g_stdv[1].len = l;
  if (len) *len = l;
  return g_stdv[1].data;
}
FILE *fopen(const char *n, const char *mode) {
  if (!n[0]) return NULL;
  int w = mode[0] == 'w', a = mode[0] == 'a', plus = 0;
  for (const char *m = mode; *m; m++) if (*m == '+') plus = 1;
  for (const char *p = n; *p; p++) if (*p == '/') { // no directories
    if (!vfind(n)) { g_errno = 2; return NULL; }
  }
  VF *v = vfind(n);
  if (!v && !w && !a) { g_errno = 2; return NULL; }
  if (w || a) {
    if (strlen(n) > 255) return NULL;
    if (vfs_fail_open_w && --vfs_fail_open_w == 0) { g_failed = 1; return NULL; }
  }
  if (!v) v = vnew(n);
  if (w) v->len = 0;
  FILE *f = malloc(sizeof(FILE));
  f->f = v; f->pos = a ? v->len : 0; f->rd = mode[0] == 'r' || plus; f->wr = w || a || plus; f->eof = 0; f->std = 0; f->err = 0; f->unget = -1;
  vfs_open_files++;
  if ((w || a) && vfs_hook) vfs_hook(1, v->name, NULL);
  return f;
}
int fclose(FILE *f) {
  if (f->std) return 0;
  VF *v = f->f;
  int wr = f->wr;
  f->f = NULL;
  free(f);
  vfs_open_files--;
  if (wr && vfs_hook) vfs_hook(4, v->name, NULL);
  return 0;
}
int feof(FILE *f) { return f->eof; }
int ferror(FILE *f) { return f->err; }
void clearerr(FILE *f) { f->eof = f->err = 0; }
int fflush(FILE *f) { return 0; }
int setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
void setbuf(FILE *f, char *b) {}
void rewind(FILE *f) { f->pos = 0; f->eof = 0; }
long ftell(FILE *f) { return (long)f->pos; }
int fseek(FILE *f, long o, int wh) {
  long b = wh == 0 ? 0 : wh == 1 ? (long)f->pos : (long)f->f->len;
  if (b + o < 0) return -1;
  f->pos = b + o;
  f->eof = 0;
  return 0;
}
int fgetc(FILE *f) {
  if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
  if (!f->f || f->pos >= f->f->len) { f->eof = 1; return -1; }
  return (unsigned char)f->f->data[f->pos++];
}
int getc(FILE *f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, FILE *f) { f->unget = c; f->eof = 0; return c; }
char *fgets(char *s, int n, FILE *f) {
  int i = 0;
  while (i < n - 1) {
    int c = fgetc(f);
    if (c == -1) break;
    s[i++] = (char)c;
    if (c == '\n') break;
  }
  if (!i) return NULL;
  s[i] = 0;
  return s;
}
size_t fread(void *p, size_t sz, size_t n, FILE *f) {
  size_t want = sz * n, have = f->f && f->pos < f->f->len ? f->f->len - f->pos : 0;
  if (want > have) { want = have; f->eof = 1; }
  if (want) memcpy(p, f->f->data + f->pos, want);
  f->pos += want;
  return sz ? want / sz : 0;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) {
  if (!f->wr) { f->err = 1; return 0; }
  vput(f->f, f->std ? f->f->len : f->pos, p, sz * n);
  f->pos += sz * n;
  return n;
}
int fputc(int c, FILE *f) { char ch = (char)c; fwrite(&ch, 1, 1, f); return (unsigned char)ch; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { fwrite(s, 1, strlen(s), f); return 1; }
int puts(const char *s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
int remove(const char *n) {
  VF *v = vfind(n);
  if (!v) { g_errno = 2; return -1; }
  v->live = 0;
  if (vfs_hook) vfs_hook(3, n, NULL);
  return 0;
}
int unlink(const char *n) { return remove(n); }
int rename(const char *a, const char *b) {
  VF *v = vfind(a), *w = vfind(b);
  if (!v || !b[0]) { g_errno = 2; return -1; }
  if (v == w) return 0;
  for (const char *p = b; *p; p++) if (*p == '/') return -1;
  if (w) w->live = 0;
  size_t l = strlen(b) + 1;
  v->name = memcpy(malloc(l), b, l);
  if (vfs_hook) vfs_hook(2, a, b);
  return 0;
}
char g_system_log[256];
int g_system_calls;
int system(const char *c) {
  if (!c) return 1;
  g_system_calls++;
  strncpy(g_system_log, c, 255);
  if (!strncmp(c, "cat ", 4)) {
    VF *v = vfind(c + 4);
    if (!v) return 1;
    fwrite(v->data, 1, v->len, stdout);
  }
  return 0;
}
int isatty(int fd) { return 0; }
int fileno(FILE *f) { return 0; }

// ---- printf ----------------------------------------------------------------------
typedef struct { FILE *f; char *b; size_t cap, n; } Sink;
static void sput(Sink *k, const char *p, size_t n) {
  if (k->f) fwrite(p, 1, n, k->f);
  else if (k->b) {
    if (k->n < k->cap) {
      size_t m = k->cap - k->n;
      memcpy(k->b + k->n, p, n < m ? n : m);
    }
  }
  k->n += n;
}
static void spad(Sink *k, char c, int n) { while (n-- > 0) sput(k, &c, 1); }
static int fmtu(char *end, unsigned long v, int base, int up) {
  int n = 0;
  do {
    int d = (int)(v % base);
    *--end = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10);
    v /= base;
    n++;
  } while (v);
  return n;
}
static int vfmt(Sink *k, const char *f, va_list ap) {
  while (*f) {
    const char *q = f;
    while (*q && *q != '%') q++;
    if (q != f) sput(k, f, q - f);
    f = q;
    if (!*f) break;
    f++;
    int minus = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) {
      if (*f == '-') minus = 1;
      else if (*f == '0') zero = 1;
      else if (*f == '+') plus = 1;
      else if (*f == ' ') space = 1;
      else if (*f == '#') alt = 1;
      else break;
    }
    if (*f == '*') {
      width = va_arg(ap, int);
      if (width < 0) { minus = 1; width = -width; }
      f++;
    } else
      while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') {
      f++;
      prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      else
        while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
    }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') {
      if (*f != 'h') lng++;
      else lng--;
      f++;
    }
    char buf[400], *end = buf + 400, *p;
    int n = 0;
    char sign = 0;
    char c = *f++;
    switch (c) {
    case 'd': case 'i': {
      long v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int);
      if (lng == -1) v = (short)v;
      if (lng == -2) v = (signed char)v;
      unsigned long u = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v;
      sign = v < 0 ? '-' : plus ? '+' : space ? ' ' : 0;
      n = fmtu(end, u, 10, 0);
      goto num;
    }
    case 'u': case 'x': case 'X': case 'o': {
      unsigned long u = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
      if (lng == -1) u = (unsigned short)u;
      if (lng == -2) u = (unsigned char)u;
      n = fmtu(end, u, c == 'u' ? 10 : c == 'o' ? 8 : 16, c == 'X');
      if (alt && u && c != 'u') { if (c != 'o') end[-n - 1] = c, n++; end[-n - 1] = '0'; n++; }
      goto num;
    }
    case 'p': {
      unsigned long u = (unsigned long)va_arg(ap, void *);
      n = fmtu(end, u, 16, 0);
      end[-n - 1] = 'x'; end[-n - 2] = '0';
      n += 2;
      goto num;
    }
    num: {
      p = end - n;
      int z = prec > n ? prec - n : 0;
      int tot = n + z + (sign ? 1 : 0);
      if (zero && !minus && prec < 0 && width > tot) { z += width - tot; tot = width; }
      if (!minus) spad(k, ' ', width - tot);
      if (sign) sput(k, &sign, 1);
      spad(k, '0', z);
      sput(k, p, n);
      if (minus) spad(k, ' ', width - tot);
      break;
    }
    case 'c': {
      char ch = (char)va_arg(ap, int);
      if (!minus) spad(k, ' ', width - 1);
      sput(k, &ch, 1);
      if (minus) spad(k, ' ', width - 1);
      break;
    }
    case 's': {
      const char *s = va_arg(ap, const char *);
      if (!s) s = "(null)";
      size_t l = prec >= 0 ? strnlen(s, prec) : strlen(s);
      if (!minus) spad(k, ' ', width - (int)l);
      sput(k, s, l);
      if (minus) spad(k, ' ', width - (int)l);
      break;
    }
    case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
      double v = va_arg(ap, double);
      if (prec < 0) prec = 6;
      if (v < 0) { sign = '-'; v = -v; }
      else if (plus) sign = '+';
      double sc = 1;
      for (int i = 0; i < prec; i++) sc *= 10;
      unsigned long ip = (unsigned long)v;
      unsigned long fp = (unsigned long)((v - (double)ip) * sc + 0.5);
      if ((double)fp >= sc) { ip++; fp = 0; }
      n = 0;
      if (prec) {
        int m = fmtu(end, fp, 10, 0);
        while (m < prec) { end[-m - 1] = '0'; m++; }
        end[-m - 1] = '.';
        n = m + 1;
      }
      n += fmtu(end - n, ip, 10, 0);
      prec = -1;
      goto num;
    }
    case '%': sput(k, "%", 1); break;
    case 0: f--; break;
    default: sput(k, "%", 1); sput(k, &c, 1);
    }
  }
  return (int)k->n;
}
int vfprintf(FILE *f, const char *fmt, va_list ap) { Sink k = {f, NULL, 0, 0}; return vfmt(&k, fmt, ap); }
int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int vsnprintf(char *b, size_t n, const char *fmt, va_list ap) {
  Sink k = {NULL, b, n, 0};
  int r = vfmt(&k, fmt, ap);
  if (n) b[k.n < n ? k.n : n - 1] = 0;
  return r;
}
int vsprintf(char *b, const char *fmt, va_list ap) {
  Sink k = {NULL, b, (size_t)1 << 40, 0};
  int r = vfmt(&k, fmt, ap);
  b[k.n] = 0;
  return r;
}
int printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int sprintf(char *b, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsprintf(b, fmt, ap); va_end(ap); return r; }
int snprintf(char *b, size_t n, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(b, n, fmt, ap); va_end(ap); return r; }
size_t strftime(char *s, size_t max, const char *fmt, const struct tm *tm) { if (max) s[0] = 0; return 0; }
