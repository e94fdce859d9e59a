// WRITE SOURCE / EXTRACT writes a valid database with exactly the selected assertions and those their proofs need.
#include "db.h"
static Txt S, W, A, B;
static Ref R2;
static char need[RM_ST];
static int refs(int k, int mark) { // assertions named in the proof of k
  RSt *s = &R.st[k];
  const char *p = s->pb;
  int any = 0;
  while (p < s->pe) {
    while (p < s->pe && r_ws(*p)) p++;
    const char *b = p;
    while (p < s->pe && !r_ws(*p)) p++;
    RTok t = {b, (int)(p - b)};
    if (!t.n || r_is(t, "$.")) continue;
    int j = r_findlabel(&R, t);
    if (j >= 0 && (R.st[j].kind == 'a' || R.st[j].kind == 'p')) { need[j] |= (char)mark; any = 1; }
  }
  return any;
}
static int match(RTok t, const char *pat) { // a list of labels and label*
  while (*pat) {
    int n = 0;
    while (pat[n] && pat[n] != ',') n++;
    if (pat[n - 1] == '*' ? t.n >= n - 1 && !memcmp(t.p, pat, n - 1) : t.n == n && !memcmp(t.p, pat, n)) return 1;
    pat += n + (pat[n] == ',');
  }
  return 0;
}
static int text(const char *p, const char *e, Txt *d) { // words
  d->n = 0;
  int sp = 0;
  for (; p < e; p++) {
    if (r_ws(*p)) { sp = 1; continue; }
    if (sp && d->n) d->b[d->n++] = ' ';
    sp = 0;
    d->b[d->n++] = *p;
  }
  return (int)d->n;
}
static int fmlsame(RExpr *x, RExpr *y) {
  if (x->n != y->n) return 0;
  for (int i = 0; i < x->n; i++) if (!r_same(R.sym[x->s[i]].t, R2.sym[y->s[i]].t)) return 0;
  return 1;
}
static void check(const char *pat, int compressed) {
  for (int k = 0; k < R.nst; k++) need[k] = (R.st[k].kind == 'a' || R.st[k].kind == 'p') && match(R.st[k].label, pat);
  for (int k = R.nst - 1; k >= 0; k--) if (need[k] && R.st[k].kind == 'p') refs(k, 1);
  size_t n;
  char *o = vfs_get("o.mm", &n);
  vx_assert(o != 0, "the extract was not written");
  ref_check(&R2, o, n);
  vx_assert(R2.err == R_OK, "the extract is not a valid database");
  int k = 0;
  for (int j = 0; j < R2.nst; j++) {
    RSt *b = &R2.st[j];
    while (k < R.nst && !r_same(R.st[k].label, b->label)) {
      vx_assert(!need[k], "a statement that is needed is missing");
      k++;
    }
    vx_assert(k < R.nst, "the extract has a statement that is not in the database, or in another order");
    RSt *a = &R.st[k];
    vx_assert(a->kind == b->kind && fmlsame(&a->x, &b->x), "an extracted statement is not the same");
    if (a->kind == 'a' || a->kind == 'p') {
      vx_assert(need[k], "the extract has an assertion that is not needed");
      vx_assert(a->nh == b->nh && a->nd == b->nd, "an extracted assertion has another frame");
      for (int i = 0; i < a->nh; i++) vx_assert(r_same(R.st[a->h[i]].label, R2.st[b->h[i]].label), "an extracted assertion has other hypotheses");
      for (int i = 0; i < a->nd; i++) {
        int f = 0;
        for (int m = 0; m < b->nd && !f; m++)
          f = (r_same(R.sym[a->da[i]].t, R2.sym[b->da[m]].t) && r_same(R.sym[a->db[i]].t, R2.sym[b->db[m]].t)) ||
              (r_same(R.sym[a->da[i]].t, R2.sym[b->db[m]].t) && r_same(R.sym[a->db[i]].t, R2.sym[b->da[m]].t));
        vx_assert(f, "an extracted assertion has other distinct variable conditions");
      }
    }
    if (a->kind == 'p' && !compressed) {
      text(a->pb, a->pe, &A);
      text(b->pb, b->pe, &B);
      vx_assert(A.n == B.n && !memcmp(A.b, B.b, A.n), "an extracted theorem has another proof");
    }
    k++;
  }
  for (; k < R.nst; k++) vx_assert(!need[k], "a statement that is needed is missing");
  for (int i = 0; i < R.nsym; i++) { // all symbols stay declared, for the typesetting definitions
    int f = 0;
    for (int j = 0; j < R2.nsym && !f; j++) f = r_same(R.sym[i].t, R2.sym[j].t) && R.sym[i].isvar == R2.sym[j].isvar;
    vx_assert(f, "a symbol is not declared in the extract");
  }
}
static void choose(Txt *d, const char *const *alt, int n, const char *name) {
  char c;
  vx_sym_set(&c, 1, "0123456789", n, name);
  tx(d, alt[(char)vx_conc(c) - '0']);
}
#define ALT(d, name, ...) do { static const char *const a_[] = {__VA_ARGS__}; choose(d, a_, sizeof a_ / sizeof *a_, name); } while (0)
static const char HD[] = "$( A database $)\n";
static const char *run(const char *pat, const char *fmt) {
  vfs_put("t.mm", T.b, T.n);
  ref_check(&R, T.b, T.n);
  vx_assert(R.err == R_OK, "ref: the database is invalid");
  S.n = 0;
  tx(&S, "read t.mm\n");
  if (*fmt) { tx(&S, "save proof * / "); tx(&S, fmt); tx(&S, "\n"); }
  tx(&S, "write source o.mm / extract ");
  tx(&S, pat);
  tx(&S, "\nerase\nread o.mm\nverify proof *\nwrite source o2.mm / extract ");
  tx(&S, pat);
  tx(&S, "\nexit / force\n");
  db_run(S.b);
  vx_assert(!db_reject && db_summary, "the extract is not valid");
  return pat;
}
void vx_main(int v) {
  T.n = W.n = 0;
  if (v == 0 || v == 3) { // scopes and references
    tx(&T, HD);
    tx(&T, "$c W |- $. $c A B f $. $v x y $. wx $f W x $. wy $f W y $. wA $a W A $. wB $a W B $. wf $a W f x y $.\na0 $a |- f x x $. aA $a |- A $.\n"
      "${ h $e |- x $. r0 $a |- f x x $. $}\n${ $d x y $. d0 $a |- f x y $. $}\n"
      "${ $v z $. wz $f W z $. ${ $d x z $. e1 $e |- f x z $. r1 $a |- z $. $} t0 $p |- f z z $= wz a0 $. $( Unused. $) tu $p |- f z A $= ");
    ALT(&T, "tu", "wz wA d0", "wA wz t9");
    if (has(T.b, T.n, "t9")) { T.n -= 8; tx(&T, "wz wA d0"); }
    tx(&T, " $. $}\n${ $v u w $. wu $f W u $. ww $f W w $. $d x u $. $( A comment. $) t3 $p |- f x u $= wx wu d0 $.\n  ${ k $e |- f u u $. $d u w $. rk $a |- f A A $. $} $}\nt1 $p |- f A A $= ");
    ALT(&T, "t1", "wA a0", "wA wA d0", "wA t0", "wA aA r0");
    tx(&T, " $.\n${ $v z $. wz2 $f W z $. t2 $p |- f B B $= ");
    ALT(&T, "t2", "wB a0", "wB wB t3", "wB t0");
    tx(&T, " $. t5 $p |- f A A $= ");
    ALT(&T, "t5", "t1", "wz2 wy a0 t9", "wA wA t3");
    if (has(T.b + T.n - 10, 10, "t9")) { T.n -= 12; tx(&T, "t1"); }
    tx(&T, " $. $}\nt6 $p |- B $= ");
    ALT(&T, "t6", "wA wB wA wB d0 r1", "wB wB t2 r1");
    tx(&T, " $.\n");
  } else if (v == 1) { // comments
    tx(&T, "$c A B $. a1 $a A $.\n$( Text. $)\na2 $a A B $.\na_3 $a B A $. t0 $p A $= a1 $.\n$( Words ");
    tx(&W, "Words ");
    for (int i = 0; i < 3; i++) {
      static const char *const BL[] = {"and", "~ a1 ", "~ a2 ", "~ t0\n", "~~ a2", "` ~ a2 `", "~ http://a.b/a2", "~ a_3 ,", "` `` ~ a2 `", "~ t ,", "a ~~ ~ a1 b"};
      static const char *const EX[] = {"and", "~ a1 ", 0, "~ t0\n", "~~ a2", "` ~ a2 `", "~ http://a.b/a2", 0, "` `` ~ a2 `", "~ t ,", "a ~~ ~ a1 b"};
      unsigned char c;
      vx_sym(&c, 1, "block");
      vx_assume(c < sizeof BL / sizeof *BL);
      c = (unsigned char)vx_conc(c);
      tx(&T, BL[c]);
      if (EX[c]) tx(&W, EX[c]);
      else { // a link to a statement that is not extracted
        const char *l = c == 2 ? "a2" : "a_3";
        tx(&W, l);
        tx(&W, " ~ http://us.metamath.org/mpeuni/");
        tx(&W, l);
        tx(&W, ".html");
        if (c == 7) tx(&W, " ,");
      }
      tx(&T, i == 1 ? "\n " : " ");
      tx(&W, " ");
    }
    tx(&T, "$)\nt $p A $= t0 $.\n");
  } else if (v == 4) { // each symbol declared on its own; where it occurs
    tx(&T, HD);
    tx(&T, "$c |- $.\n");
    ALT(&T, "types", "$c W $. $c set $. $c V $.", "$c W set $. $c V $.", "$c W V $. $c set $.");
    tx(&T, " $c A $. $c B $. $c f $. $c g $. $c U $.\n");
    ALT(&T, "variables", "$v p $. $v q $. $v x $. $v y $. $v z $.", "$v p q $. $v x y z $.", "$v q x $. $v p y $. $v z $.");
    tx(&T, "\nwp $f W p $. wq $f W q $. vx $f set x $. vy $f set y $. vz $f V z $.\nwa $a W A $. wf $a W f x $. wg $a W g y z $. wu $a W U $. $( Discard. $) wb $a W B $.\nax $a |- p $.\n"
      "${ m1 $e |- p $. m2 $e |- q $. mp $a |- p $. $}\n${ $d x y $. d1 $a |- f x $. $}\n${ $d x y $. m3 $e |- f y $. d2 $a |- f x $. $}\n${ ");
    ALT(&T, "scope", "", "$v s $. ws $f set s $. ", "$d x y $. ");
    ALT(&T, "hypothesis", "", "h $e |- B $. ", "h $e |- f y $. ", "h $e |- g y z $. ");
    static const char *const P[] = {"p $= wp ax", "A $= wa ax", "f x $= vx wf ax", "g x z $= vx vz wg ax", "A $= wa vx wf wa ax vx wf ax mp", "A $= wa vy vz wg wa ax vy vz wg ax mp", "f x $= vx d1", "f x $= vx vy vy d1 d2", "U $= wu ax"};
    tx(&T, "t $p |- ");
    choose(&T, P, 7 + 1 + 1, "theorem");
    if (has(T.b + T.n - 24, 24, "d2") && !has(T.b, T.n, "$d x y $. t") && !has(T.b, T.n, "$d x y $. h")) return;
    tx(&T, " $. $}\n");
    tx(&T, "u $p |- U $= wu ax $.\n");
  } else { // the first line, section headings, typesetting
    ALT(&T, "first", "", "$( One line. $)\n", "$( Two\n lines. $)\n", "$( One. $) $( Two,\n three. $)\n", "\n\n$( Later. $)\n", "$( Extracted from: x $)\n", "  $( Indented $)\n");
    tx(&T, "$c A B $.\n");
    static const char *const HE[] = {"", "$(\n###############################################################################\n  Huge\n###############################################################################\n$)\n",
      "$(\n#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*\n  Big\n#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*\n$)\n",
      "$(\n=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=\n  Small\n=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=\n$)\n"};
    static const char *const ST[] = {"$( A. $)\nb1 $a A $.\n", "$( B. $)\na1 $a A $.\n", "$( C. $)\nb2 $a A B $.\n", "$( D. $)\nt $p A $= a1 $.\n"};
    int h[4], lev = 9, hd = 0;
    for (int i = 0; i < 4; i++) {
      unsigned char c;
      vx_sym(&c, 1, "heading");
      vx_assume(c < (i == 0 ? 2 : 4));
      h[i] = (unsigned char)vx_conc(c);
      tx(&T, HE[h[i]]);
      tx(&T, ST[i]);
    }
    tx(&T, "$( $t htmldef \"A\" as \"a\"; htmldef \"B\" as \"b\"; $)\n");
    check(run("t", ""), 0);
    size_t n;
    char *o = vfs_get("o.mm", &n);
    static const char *const TI[] = {"", "Huge", "Big", "Small"};
    for (int l = 1; l < 4; l++) {
      int want = 0;
      for (int i = 0; i < 4; i++) {
        if (h[i] != l) continue;
        int any = 0;
        for (int j = i; j < 4 && (j == i || !h[j] || h[j] > l); j++) any |= j == 1 || j == 3;
        want += any;
      }
      vx_assert(count_of(o, n, TI[l]) == want, "the extract has other section headings than those of the sections it contains");
    }
    vx_assert(has(o, n, "htmldef \"A\" as \"a\"; htmldef \"B\" as \"b\";"), "the typesetting definitions are lost");
    (void)lev; (void)hd;
    vx_cover("extracted");
    return;
  }
  if (v == 1) {
    check(run("t", ""), 0);
    size_t n, i;
    char *o = vfs_get("o.mm", &n);
    for (i = 0; i + 6 < n && strncmp(o + i, "$( Words", 8); i++) ;
    size_t e = i;
    while (e + 2 < n && strncmp(o + e, "$)", 2)) e++;
    text(o + i + 2, o + e, &A);
    text(W.b, W.b + W.n, &B);
    vx_assert(A.n == B.n && !memcmp(A.b, B.b, B.n), "a description is changed");
    vx_cover("extracted");
    return;
  }
  unsigned char c;
  static const char *const PAT[] = {"t1", "t2", "t5", "t6", "t*", "t1,t3", "*", "rk", "wf,r1", "tu", "h", "t2,a0,t5"};
  vx_sym(&c, 1, "labels");
  vx_assume(c < (v == 4 ? 6 : sizeof PAT / sizeof *PAT));
  c = (unsigned char)vx_conc(c);
  if (v == 4) check(run((const char *const[]){"t", "u", "*", "t,wb", "t", "t"}[c], c == 4 ? "compressed" : c == 5 ? "normal" : ""), c == 4);
  else check(run(PAT[c], v == 3 ? "compressed" : ""), v == 3);
  // extracting again changes nothing
  size_t n;
  char *o = vfs_get("o.mm", &n);
  strip(&A, o, n);
  text(A.b, A.b + A.n, &W);
  o = vfs_get("o2.mm", &n);
  strip(&A, o, n);
  text(A.b, A.b + A.n, &B);
  vx_assert(W.n == B.n && !memcmp(W.b, B.b, W.n), "extracting again changes the extract");
  vx_cover("extracted");
}
