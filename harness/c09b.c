// SAVE PROOF with many labels: the numbers of compressed proofs get more letters.
#define TX 30000
#define RM_ST 700
#define RM_LEN 4
#define RM_LAB 700
#define RM_STACK 700
#define RM_STEPS 1500
#define RM_LOG 12000
#include "db.h"
extern unsigned long vx_run_steps;
static const char *const FM[] = {"compressed", "compressed / old_compression", "compressed / fast", "packed"};
static const int CNT[2][12] = {{14, 15, 16, 17, 18, 113, 114, 115, 116, 117, 118, 119}, {612, 613, 614, 615, 616, 617, 618, 619, 620, 617, 618, 619}};
static Txt A, B;
void vx_main(int v) {
  vx_libc_init();
  vx_run_steps = 1000000000;
  static Txt s;
  char b[30], c;
  vx_sym_set(&c, 1, "abcdefghijkl", v ? 9 : 12, "labels");
  int n = CNT[v][(char)vx_conc(c) - 'a'];
  tx(&T, "$c |- W $. $v r $. wr $f W r $. z $a |- r $. ${ f $e |- r $.\n");
  for (int i = 1; i <= n; i++) { sprintf(b, "x%d $a |- r $.\n", i); tx(&T, b); }
  tx(&T, "$} ${ f2 $e |- r $. g2 $e |- r $. y $a |- r $. $} t $p |- r $=\n wr wr wr");
  for (int i = 1; i <= n; i++) tx(&T, " wr");
  tx(&T, " z");
  vx_sym_set(&c, 1, "ab", v ? 1 : 2, "order");
  c = (char)vx_conc(c);
  for (int i = 1; i <= n; i++) { sprintf(b, " x%d%s", c == 'a' ? i : n + 1 - i, i % 20 ? "" : "\n"); tx(&T, b); }
  vx_sym_set(&c, 1, v ? "b" : "abc", v ? 1 : 3, "tail");
  c = (char)vx_conc(c);
  tx(&T, c == 'a' ? " wr wr z x1 y wr z y $.\n" : c == 'b' ? " wr wr wr z x2 x1 y wr wr wr z x2 x1 y $.\n" : " wr wr z x2 y wr wr z x2 y $.\n");
  tx(&s, "read t.mm\nsave proof * / ");
  vx_sym_set(&c, 1, "0123", 4, "f");
  tx(&s, FM[(char)vx_conc(c) - '0']);
  tx(&s, "\nwrite source o.mm\nerase\nread o.mm\nverify proof *\nexit\n");
  vfs_put("t.mm", T.b, T.n);
  ref_check(&R, T.b, T.n);
  static char log[sizeof r_log];
  int ln = r_logn, err = R.err;
  memcpy(log, r_log, r_logn);
  vx_assert(err == R_OK, "ref: the proof is wrong");
  db_run(s.b);
  db_compare();
  size_t m;
  char *o = vfs_get("o.mm", &m);
  vx_assert(o != 0, "the source was not written");
  strip(&A, T.b, T.n);
  strip(&B, o, m);
  vx_assert(A.n == B.n && !memcmp(A.b, B.b, A.n), "saving a proof changed another part of the source");
  R.ext = 1;
  ref_check(&R, o, m);
  vx_assert(R.err == err && r_logn == ln && !memcmp(r_log, log, ln), "a saved proof has other steps");
}
