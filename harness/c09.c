// SAVE PROOF converts proofs between formats without changing what they say, or anything else in the source.
#include "db.h"
#define P0 "$c ( ) W |- $. $v p q r s $. wp $f W p $. wq $f W q $. wr $f W r $. ws $f W s $. wi $a W ( p q ) $.\n"
#define AX "ax $a |- ( p ( q p ) ) $. ${ m1 $e |- p $. m2 $e |- ( p q ) $. mp $a |- q $. $}\n"
static const char *const FM[] = {"/ normal", "/ compressed", "/ packed", "/ explicit", "/ explicit / packed", "/ compressed / old_compression",
  "/ compressed / fast", "/ packed / fast"};
static Txt A, B;
void vx_main(int v) {
  vx_libc_init();
  static Txt s;
  tx(&s, "read t.mm\n");
  int twice = 0;
  switch (v) {
  case 0: // letters
    tx(&T, P0 AX);
    txf(&T, "  t $p |- ( ( r r ) ( ( r r ) ( r r ) ) ) $= ( wi ax ) A^AZ^^ABZD^^ABZD^^ABCDE^^ABCDE^^ABCDE^^ABCDE ^^BC ^^C ^ $.\n", "p");
    break;
  case 1: // steps
    tx(&T, P0 AX "${ e1 $e |- ( r r ) $.\n t $p |- ( s ( r r ) ) $= ");
    static const char *const L[] = {"wr wr wi ", "ws wr wr wi wi ", "e1 ", "ws ax ", "mp ", "? ", "wr wr wi ws ax ", ""};
    static const char *const C[] = {"05", "157", "25", "0567", "35", "457", "45"};
    for (int i = 0; i < 7; i++) {
      char c;
      vx_sym_set(&c, 1, C[i], strlen(C[i]), "s");
      c = (char)vx_conc(c);
      tx(&T, L[c - '0']);
    }
    tx(&T, "$. $}\n");
    break;
  case 2: // unknown steps and layout
    tx(&T, P0 AX);
    txf(&T, "  t $p |- ( ( r r ) ( s ( r r ) ) ) $= ( wi^ \n^ ax^ \n^)^ \n^A^A?Z^^AC? ^^C \nE^^BZE^^ \nD^^ZD^^?D ^^E?D ^ $. $( c $) $v x $.\n", "p");
    break;
  case 3: // long proofs are wrapped; label lists in several lines
    tx(&T, P0 "z $a |- r $. ${ f $e |- r $. t1longlonglong $a |- r $. t2longlonglonglong $a |- r $. t3longlonglonglonglong $a |- r $. t4long $a |- r $. t5lo $a |- r $. t6-longlonglong $a |- r $. t7.longlonglonglong $a |- r $. g $e |- r $. j $a |- r $. $}\n");
    txf(&T, "  t $p |- r $= wr wr wr wr wr wr wr wr wr wr wr wr wr z t^16^long^l-^onglong t^27^longlonglonglong t3longlonglonglonglong t4long wr wr wr z t^15^lo^n ^^g ^ t4long j t^16^long^l-^onglong t2longlonglonglong wr wr wr wr wr wr wr wr z t1longlonglong t4long t4long t4long t^45^lo^n ^^g ^ t4long t4long j t4long t4long t5lo t5lo $.\n", "p");
    break;
  case 4: // two theorems, one saved; comments and layout stay; numbers of two letters
    tx(&T, P0 AX "$( x $. $) ${ a1 $e |- ( r s ) $. a2 $e |- r $. $( c $) u $p |- s $= wr ws a2 a1 mp $. $}\n");
    txf(&T, "z $a |- r $. ${ f $e |- r $. x1 $a |- r $. x2 $a |- r $. x3 $a |- r $. x4 $a |- r $. x5 $a |- r $. x6 $a |- r $. x7 $a |- r $. x8 $a |- r $. x9 $a |- r $. x10 $a |- r $. x11 $a |- r $. x12 $a |- r $. x13 $a |- r $. x14 $a |- r $. x15 $a |- r $. x16 $a |- r $. x17 $a |- r $. x18 $a |- r $. x19 $a |- r $. x20 $a |- r $. x21 $a |- r $. x22 $a |- r $. g $e |- r $. y $a |- r $. $}\n"
        "  $( t $) t^ \n^$( d $) $p^ \n^|- r $( $) $=\n ( z x1 x2 x3 x4 x5 x6 x7 x8 x9 x10 x11 x12 x13 x14 x15 x16 x17 x18 x19 x20 x21 x22 y ) AAAAAAABZ^CDT^U^ABD^UFUE^CT^U^ACD^UFUE $. $( q $)^ \n^ y2 $a |- r $.\n", "p");
    break;
  case 5: // hypotheses; dummy variables; a theorem with nothing but a hypothesis
    tx(&T, P0 AX);
    txf(&T, "${ h1 $e |- r $. h2 $e |- ( r s ) $. h3 $e |- p $. t $p |- ^srp^ $= ( mp ) ^BC^ ^CB^^DF^^E^^G^ $. v $p |- ^rp^ $= ^hw^^123rspq ^ $. $}\n", "p");
    break;
  case 6: // an explicit proof names the hypotheses, in any order
    txf(&T, "$c ( ) W |- $. $v p q r s $. w^34^ $f W p $. w^34^ $f W ^pq^ $. wr $f W r $. ws $f W s $. ${ m^12^ $e |- p $. m^12^ $e |- ( p q ) $. mp $a |- q $. $}\n"
      "${ h1 $e |- r $. h2 $e |- ( r s ) $. t $p |- s $= w^34^=w^rs^ ^wm^^34^=w^s^ m^12^=h^12^ m2^==:^h^12^ t=mp $. $}\n", "p");
    R.ext = 1;
    tx(&s, "verify proof *\nexit\n");
    break;
  case 7: // a packed proof with free local labels
    tx(&T, P0 AX);
    txf(&T, "t $p |- ( ( r r ) ( ( r r ) ( r r ) ) ) $= wr wr ^12^:wi ^12a^ ^3w1^:ax $.\n", "p");
    R.ext = 1;
    tx(&s, "verify proof *\nexit\n");
    break;
  case 8: // stray punctuation: no verdict is claimed, but the program goes on
    tx(&T, P0 AX);
    txf(&T, "t $p |- ( ( r r ) ( ( r r ) ( r r ) ) ) $= wr^ :=^wr^ :=?^ wi^ :=^wr^ :=(^wr^ ):=^ wi^ :=?^ ax^ :=?^ $.\n", "p");
    vfs_put("t.mm", T.b, T.n);
    tx(&s, "verify proof *\nshow proof t\nsave proof t / explicit\nshow proof t / explicit\nexit\n");
    db_run(s.b);
    vx_cover(db_reject ? "rejected" : "accepted");
    return;
  }
  char c;
  if (R.ext) {
    vfs_put("t.mm", T.b, T.n);
    ref_check(&R, T.b, T.n);
    if (R.err == R_STRUCT) return;
    db_run(s.b);
    db_compare();
    return;
  }
  vx_sym_set(&c, 1, "01234567", 8, "f");
  c = (char)vx_conc(c);
  tx(&s, v == 4 ? "save proof t " : "save proof * ");
  tx(&s, FM[c - '0']);
  if (v == 1 || v == 2) {
    vx_sym_set(&c, 1, "0125", 4, "f");
    c = (char)vx_conc(c);
    tx(&s, "\nsave proof * ");
    tx(&s, FM[c - '0']);
  }
  tx(&s, "\nwrite source o.mm\nerase\nread o.mm\nverify proof *\nexit\n");
  vfs_put("t.mm", T.b, T.n);
  ref_check(&R, T.b, T.n);
  static char log[sizeof r_log];
  int ln = r_logn, err = R.err;
  memcpy(log, r_log, r_logn);
  if (err == R_STRUCT || err == R_PROOF) return; // nothing is claimed
  db_run(s.b);
  db_compare();
  size_t n;
  char *o = vfs_get("o.mm", &n);
  vx_assert(o != 0, "the source was not written");
  strip(&A, T.b, T.n);
  strip(&B, o, n);
  vx_assert(A.n == B.n && !memcmp(A.b, B.b, A.n), "saving a proof changed another part of the source");
  R.ext = 1;
  ref_check(&R, o, n);
  vx_assert(R.err == err, "a saved proof has another verdict");
  vx_assert(r_logn == ln && !memcmp(r_log, log, ln), "a saved proof has other steps");
}
