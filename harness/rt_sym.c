#include "vx.h"
#include <string.h>
int mm_main(int, char **);
void vfs_stdin(const char *d, size_t n);
char *vfs_stdout(size_t *len);
extern int vfs_open_files;
unsigned long vx_run_steps = 40000000;
int vx_runs;
int run_mm(int argc, char **argv, const char *in, size_t inlen) {
  if (!vx_runs) vx_libc_init();
  vx_reset_globals();
  vfs_stdin(in, inlen);
  vx_budget(vx_run_steps);
  int r = vx_catch(mm_main, argc, argv);
  vx_budget(400000000);
  vx_runs++;
  size_t n;
  char *o = vfs_stdout(&n);
  vx_digest(o, n);
  return r;
}
char *run_out(size_t *len) { return vfs_stdout(len); }
