// Harness interface.  The same harness source is executed symbolically by sx
// (rt_sym.c) and, for replays, natively against the real program (rt_native.c).
#pragma once
#include <stddef.h>
void vx_sym(void *p, size_t n, const char *name);
void vx_sym_set(void *p, size_t n, const char *set, size_t setlen, const char *name);
void vx_assume(int c);
void vx_assert(int c, const char *msg);
void vx_cover(const char *tag);
void vx_finding(const char *id); // a recorded defect was observed
void vx_digest(const void *p, size_t n); // bytes compared between the symbolic and the native run
void vx_libc_init(void);
long vx_conc(long v);          // split into one path per feasible value
void vx_print(const char *s);
int vx_symbolic(void);
void vx_reset_globals(void);
void vx_budget(unsigned long n);
int vx_catch(int (*f)(int, char **), int argc, char **argv);

// files and program runs
void vfs_put(const char *n, const char *d, size_t len);
char *vfs_get(const char *n, size_t *len);
void vfs_delete(const char *n);
int run_mm(int argc, char **argv, const char *in, size_t inlen); // exit status
char *run_out(size_t *len);   // standard output of the last run
