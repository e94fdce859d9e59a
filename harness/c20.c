// The width of the screen changes where lines are broken, never what they say or what is saved.
#include "db.h"
static Txt A, B, S, D1, D2;
static void squeeze(Txt *d, const char *s, size_t n, int words) { // without white space; words: one space between words
  d->n = 0;
  int sp = 0;
  for (size_t i = 0; i < n; i++) {
    if (s[i] == ' ' || s[i] == '\n') { sp = 1; continue; }
    if (!words && s[i] == '-') continue; // lines of them depend on the width
    if (sp && words && d->n) d->b[d->n++] = ' ';
    sp = 0;
    d->b[d->n++] = s[i];
  }
  d->b[d->n] = 0;
}
// commands before which the width is set, and whether words stay whole
static const struct { const char *pre, *cmd; int from; } CMD[] = {
  {"", "show statement u / comment", 5}, {"", "show statement * / full", 5}, {"", "show statement *", 5}, {"", "show statement * / comment", 5}, {"", "show labels *", 5},
  {"", "show proof *", 5}, {"", "show proof * / all / lemmon / renumber", 5}, {"", "show proof * / reverse / all", 5},
  {"save proof */compressed\n", "show proof * / normal", 5}, {"", "show proof * / packed", 5}, {"", "show proof * / explicit", 5},
  {"", "show proof alongerlabelforthetheorem / statement_summary", 5}, {"", "show proof alongerlabelforthetheorem / detailed_step 5", 5},
  {"", "show trace_back alongerlabelforthetheorem", 5}, {"", "show usage ax", 5},
  {"", "search * 'p'", 5}, {"", "search * 'ption' / comments", 95}, {"prove u\n", "show new_proof", 7},
  {"prove u\n", "show new_proof / all / lemmon", 7}, {"prove u\n", "match all\n\n", 7}, {"prove u\ninitialize all\n", "unify all", 7}, {"prove u\n", "improve all", 7},
  {"", "verify proof alongerlabelforthetheorem", 5}, {"", "show statement xyz", 5}, {"", "help show proof", 80}};
#define NCMD (sizeof CMD / sizeof CMD[0])
static void one(int k, int w, Txt *d, int words) {
  S.n = 0;
  char b[32];
  tx(&S, "read t.mm\n");
  tx(&S, CMD[k].pre);
  int l = 2;
  for (const char *c = CMD[k].pre; *c; c++) l += *c == '\n';
  sprintf(b, "set width %d\n", w);
  tx(&S, b);
  tx(&S, CMD[k].cmd);
  tx(&S, "\nset width 79\nexit\nexit\n");
  mm_script(S.b);
  size_t n;
  const char *o = out_seg(l + 1, &n);
  vx_assert(o != 0 && !out_has("?BUG"), "the program does not get to the end");
  squeeze(d, o, n, words);
}
static const char *const FMT[] = {"normal", "packed", "compressed", "explicit", "explicit / packed"};
static char log_[sizeof r_log];
void vx_main(int v) {
  T.n = S.n = A.n = B.n = 0;
  unsigned char w;
  if (v <= 1) { // v 0: the commands, v 1: a description
    tx(&T, "$c ( ) W |- $. $v p q r $. wp $f W p $. wq $f W q $. wr $f W r $. wi $a W ( p q ) $.\n$( The first axiom has a description of more than one line, such as this\n   one. $)\nax $a |- ( p ( q p ) ) $. ${ m1 $e |- p $. m2 $e |- ( p q ) $. mp $a |- q $. $}\n"
      "$( Short description. $) alongerlabelforthetheorem $p |- ( r ( ( p ( q ( r r ) ) ) r ) ) $= wr wp wq wr wr wi wi wi ax $.\n");
    if (v == 1) {
      tx(&T, "$( ");
      for (int i = 0; i < 10; i++) txk(&T, i % 3 == 2 ? "^ a^" : i == 6 ? "^ \n^" : "a", "c");
      txk(&T, "c^ b^^ \n^ $) u $p |- ( r r ) $= ? $.\n", "c");
    } else tx(&T, "${ h $e |- p $. $( description $)\nu $p |- ( r r ) $= wr wr wr wi ? ? mp $. $}\n");
    vfs_put("t.mm", T.b, T.n);
    unsigned char k = 0;
    if (v == 0) {
      vx_sym(&k, 1, "command");
      vx_assume(k < NCMD);
      k = (unsigned char)vx_conc(k);
    }
    vx_sym(&w, 1, "width");
    vx_assume(w >= 5 && w <= (v ? 12 : 100));
    if (v == 0 && (k == 5 || k == 6 || k == 7 || k == 17 || k == 18)) vx_assume(w >= 60);
    w = (unsigned char)vx_conc(w);
    if (w < CMD[k].from) return;
    one(k, w, &D1, v);
    one(k, 200, &D2, v);
    vx_assert(D1.n == D2.n && !memcmp(D1.b, D2.b, D1.n), "the text depends on the width of the screen");
    vx_cover("shown");
    return;
  }
  // v 2: saved proofs, v 3: with REWRAP
  static const unsigned char LEN[] = {2, 20, 77, 78, 79, 100}, IND[] = {0, 30, 72, 90};
  char c[3];
  vx_sym_set(c, 1, "abcdef", v == 2 ? 6 : 3, "label");
  vx_sym_set(c + 1, 1, "abcd", 4, "indentation");
  vx_sym_set(c + 2, 1, "abcde", v == 2 ? 5 : 1, "format");
  c[0] = (char)vx_conc(c[0]); c[1] = (char)vx_conc(c[1]); c[2] = (char)vx_conc(c[2]);
  int len = LEN[c[0] - 'a'], ind = IND[c[1] - 'a'];
  char lab[128];
  memset(lab, 'x', len);
  lab[len] = 0;
  tx(&T, "$c ( ) W |- $. $v p q r $. wp $f W p $. wq $f W q $. wr $f W r $. $( Formation. $) wi $a W ( p q ) $.\n");
  if (v == 3) tx(&T, "$( The first axiom, with a description of more than one line, an address such as\n http://us.metamath.org/mpeuni/mmset.html , a formula ` ( p ( q p ) ) ` and a label ~ ax , and\nand more.  (Contributed by NM, 5-Aug-1993.) $)\n");
  tx(&T, lab);
  tx(&T, " $a |- ( p ( q p ) ) $. ${ m1 $e |- p $. m2 $e |- ( p q ) $. $( Modus ponens. $) mp $a |- q $. $}\n$( Another axiom. $)\n");
  tx(&T, lab);
  tx(&T, "1 $a |- ( p ( q p ) ) $.\n");
  for (int i = 0; i < ind; i++) tx(&T, " ");
  if (v == 3) tx(&T, "$( A theorem.  (Contributed by NM, 6-Aug-1993.) $)\n");
  tx(&T, "t $p |- ( q ( p ( q p ) ) ) $= wp wq wp wi wi wq wp wq wp wi wi wi wp wq ");
  tx(&T, lab);
  tx(&T, "1 wp wq wp wi wi wq ");
  tx(&T, lab);
  tx(&T, " mp $.\n");
  vfs_put("t.mm", T.b, T.n);
  ref_check(&R, T.b, T.n);
  vx_assert(R.err == R_OK, "the database is invalid");
  int ln = r_logn;
  memcpy(log_, r_log, r_logn);
  vx_sym(&w, 1, "width");
  vx_assume(w >= 5 && w <= 82);
  w = (unsigned char)vx_conc(w);
  sprintf(S.b, "read t.mm\nset width %d\nsave proof t / %s\nwrite source o.mm%s\nset width 79\nerase\nread o.mm\nverify proof *\nexit\n", w, FMT[c[2] - 'a'], v == 3 ? " / rewrap" : "");
  mm_script(S.b);
  vx_assert(!out_has("?BUG") && out_has("All proofs in the database were verified"), "a proof saved with this width is not valid");
  size_t n;
  char *o = vfs_get("o.mm", &n);
  vx_assert(o != 0, "the source was not written");
  R.ext = 1;
  ref_check(&R, o, n);
  vx_assert(R.err == R_OK && r_logn == ln && !memcmp(r_log, log_, ln), "a proof saved with this width has other steps");
  if (v == 2) {
    strip(&A, T.b, T.n);
    strip(&B, o, n);
    vx_assert(A.n == B.n && !memcmp(A.b, B.b, A.n), "saving a proof changed another part of the source");
  } else { // the same words, proofs apart
    for (int i = 0; i < 2; i++) {
      Txt *d = i ? &B : &A, *x = i ? &D2 : &D1;
      squeeze(d, i ? o : T.b, i ? n : T.n, 1);
      size_t k = 0;
      x->n = 0;
      while (k < d->n) {
        txn(x, d->b + k, 1);
        if (k && d->b[k - 1] == '$' && d->b[k] == '=') while (k + 1 < d->n && !(d->b[k] == '$' && d->b[k + 1] == '.')) k++;
        else k++;
      }
    }
    vx_assert(D1.n == D2.n && !memcmp(D1.b, D2.b, D1.n), "rewrapping changed more than line ends");
  }
  vx_cover("saved");
}
