// ERASE resets the program: what follows does not depend on what happened before. Commands that only show things change nothing.
#define TX 40000
#include "db.h"
static Txt S, D, F1, F2;
#define DEFS "htmltitle \"T\"; htmlhome '<A HREF=\"x.html\"><IMG SRC=\"x.gif\"></A>'; htmldir \"h/\"; althtmldir \"a/\"; htmlbibliography \"b.html\"; htmlvarcolor \"vars\"; "
static const char A_[] =
  "$(\n#*#*\n  Part of A\n#*#* $)\n$c ( ) wff |- $.\n$v p q r s $.\nwp $f wff p $. wq $f wff q $. wr $f wff r $. ws $f wff s $.\nwi $a wff ( p q ) $.\n"
  "$( Axiom of A.  (Contributed by X, 1-Jan-2000.) (New usage is discouraged.) $)\nax $a |- ( p ( q p ) ) $.\n"
  "${ m1 $e |- p $. m2 $e |- ( p q ) $. $d p q $. mp $a |- q $. $}\n"
  "$(\n#*#*\n  Mathboxes\n#*#* $)\nmathbox $a |- ( p p ) $.\n$(\n#*#*\n  Mathbox for Foo\n#*#* $)\n"
  "$( Theorem of A ` p ` ~ ax . (Contributed by X, 1-Jan-2000.) $)\nt $p |- ( r ( s r ) ) $= wr ws ax $.\n"
  "${ e $e |- p $. $( Another. $) u $p |- ( q p ) $= wp wq wp wi e ? mp $. $}\n"
  "$( $t " DEFS "exthtmllabel \"t\"; exthtmltitle \"Ext\"; exthtmlhome '<A HREF=\"e.html\"><IMG SRC=\"e.gif\"></A>'; exthtmlbibliography \"e.html\"; htmldef \"(\" as \"<A>\"; htmldef \")\" as \"</A>\"; htmldef \"wff\" as \"A_W\"; htmldef \"|-\" as \"A_|-\"; htmldef \"p\" as \"A_p\"; htmldef \"q\" as \"A_q\"; htmldef \"r\" as \"A_r\"; htmldef \"s\" as \"A_s\"; "
  "althtmldef \"(\" as \"<A>\"; althtmldef \")\" as \"</A>\"; althtmldef \"wff\" as \"A_W\"; althtmldef \"|-\" as \"A_|-\"; althtmldef \"p\" as \"A_p\"; althtmldef \"q\" as \"A_q\"; althtmldef \"r\" as \"A_r\"; althtmldef \"s\" as \"A_s\"; "
  "latexdef \"(\" as \"A\"; latexdef \")\" as \"A\"; latexdef \"wff\" as \"A\"; latexdef \"|-\" as \"A\"; latexdef \"p\" as \"A\"; latexdef \"q\" as \"A\"; latexdef \"r\" as \"A\"; latexdef \"s\" as \"A\"; $)\n";
static const char B_[] =
  "$( Header of B $)\n$c wff |- ( ) [ $.\n$v s r q $. $v p $.\n$(\n#*#*\n  Part of B\n#*#* $)\nws $f wff s $. wr $f wff r $. wq $f wff q $.\nwi $a wff ( s r ) $.\n"
  "$( Axiom of B.  (Contributed by Y, 2-Feb-2002.) $)\nax $a |- ( r ( s r ) ) $.\n"
  "${ m1 $e |- r $. m2 $e |- ( r s ) $. $d r s $. mp $a |- s $. $}\n"
  "$(\n#*#*\n  Second part of B\n#*#* $)\n"
  "$( Theorem of B ` r ` ~ ax . (Contributed by Y, 3-Mar-2003.) $)\nu $p |- ( r ( s r ) ) $= ws wr ax $.\n"
  "${ e $e |- s $. $( Another of B. $) t $p |- ( r s ) $= wr ws wi ws e wr ws ax mp $. $}\nv $p |- ( r ( s ( r s ) ) ) $= ? $.\n";
static const char BT[] = "$( $t " DEFS "htmldef \"(\" as \"<B>\"; htmldef \")\" as \"</B>\"; htmldef \"wff\" as \"B_W\"; htmldef \"|-\" as \"B_|-\"; htmldef \"[\" as \"B_p\"; htmldef \"p\" as \"B_p\"; htmldef \"q\" as \"B_q\"; htmldef \"r\" as \"B_r\"; htmldef \"s\" as \"B_s\"; "
  "althtmldef \"(\" as \"<B>\"; althtmldef \")\" as \"</B>\"; althtmldef \"wff\" as \"B_W\"; althtmldef \"|-\" as \"B_|-\"; althtmldef \"[\" as \"B_[\"; althtmldef \"p\" as \"B_p\"; althtmldef \"q\" as \"B_q\"; althtmldef \"r\" as \"B_r\"; althtmldef \"s\" as \"B_s\"; "
  "latexdef \"(\" as \"B\"; latexdef \")\" as \"B\"; latexdef \"wff\" as \"B\"; latexdef \"|-\" as \"B\"; latexdef \"p\" as \"B\"; latexdef \"[\" as \"B\"; latexdef \"q\" as \"B\"; latexdef \"r\" as \"B\"; latexdef \"s\" as \"B\"; $)\n";
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
// what a session may have done before
static const char *const H[] = {
  "verify proof *\nsearch * '|- $*'\nshow labels *", "show statement t / alt_html\nshow proof t / lemmon", "show statement * / html", "prove u\nassign last ax / no_unify\nimprove all\nsave new_proof / compressed\nundo\n_exit_pa / force",
  "save proof * / compressed / fast\nshow proof * / all", "write source o.mm / rewrap", "write source o.mm / extract t", "prove u\n_exit_pa / force", "markup x.in x.out / html",
  "show trace_back t\nshow usage ax / recursive\nshow trace_back t / count_steps\nshow discouraged", "verify markup *\nshow statement u / full", "open tex x.tex\nshow statement t / tex\nclose tex", "write theorem_list / alt_html", "read b.mm\nread none.mm", "erase\nread b.mm\nverify proof *", "erase\nread bad.mm\nverify proof *",
  "prove t\nminimize_with *\nsave new_proof / packed\n_exit_pa / force\nsave proof t / normal"};
#define NH 17
// what follows
static const struct { const char *s; int n; const char *file; } Q[] = {
  {"verify proof *\nshow statement * / full\nshow labels *\nshow labels =\nshow labels %\nshow proof * / all / lemmon\n", 6, 0},
  {"show statement * / alt_html\n", 1, "u.html"},
  {"show statement t / html\nshow statement mp / html\n", 2, "mp.html"},
  {"markup x.in x.out / html\n", 1, "x.out"},
  {"write theorem_list / alt_html / theorems_per_page 2\n", 1, "mmtheorems.html"},
  {"show statement =\nshow trace_back * / axioms\nshow usage ax / recursive\nsearch * 's' / all\nsearch * 'Y' / comments\nverify markup *\nshow discouraged\nshow trace_back t / count_steps\n", 8, 0},
  {"save proof * / compressed\nwrite source o.mm / rewrap\n", 2, "o.mm"},
  {"write source o.mm / extract t,v\n", 1, "o.mm"},
  {"prove v\nshow new_proof\nundo\nredo\nassign last ax\nshow new_proof / all\nundo\nundo\nunify all\nimprove all\nexit / force\n", 11, 0},
  {"prove t\nminimize_with *\ndelete all\nshow new_proof / all\nassign last =\nassign last u / override\nexit / force\nwrite source o.mm\n", 8, "o.mm"},
  {"open tex x.tex\nshow statement t / tex\nclose tex\n", 3, "x.tex"},
};
#define NQ 11
static void run(const char *s, int bt, const char *f) {
  if (f) vfs_delete(f);

  vfs_put("a.mm", A_, strlen(A_));
  D.n = 0;
  tx(&D, B_);
  if (bt) tx(&D, BT);
  vfs_put("b.mm", D.b, D.n);
  vfs_put("bad.mm", "$c a $. $v a $. x $a b $. $p $= $.", 34);
  vfs_put("x.in", "Text ` r ` and ~ t .\n", 21);
  vfs_put("mmset.html", "", 0);
  mm_script(s);
}
// the output from the k-th last prompt on
static const char *tail(int k, size_t *len) {
  size_t n;
  char *o = run_out(&n);
  vx_assert(!has(o, n, "?BUG"), "the program reports an internal bug");
  for (size_t i = n; i-- > 0;) {
    if (o[i] != 'M' || (strncmp(o + i, "MM> ", 4) && strncmp(o + i, "MM-PA> ", 7))) continue;
    if (k-- > 0) continue;
    static Txt t[2];
    static int k2;
    Txt *d = &t[k2++ & 1];
    d->n = 0;
    while (i < n) { // that the typesetting definitions are read is not an effect
      size_t e = i, p = i;
      while (e < n && o[e] != '\n') e++;
      if (e < n) e++;
      while (p + 4 < e && !strncmp(o + p, "MM> ", 4)) p += 4;
      if (e - p > 30 && (!strncmp(o + p, "Reading definitions from $t", 27) || has(o + p, e - p, " typesetting statements were read"))) txn(d, o + i, p - i);
      else txn(d, o + i, e - i);
      i = e;
    }
    *len = d->n;
    return d->b;
  }
  *len = 0;
  return 0;
}
static void file(Txt *f, const char *name) {
  f->n = 0;
  size_t n;
  char *d = name ? vfs_get(name, &n) : 0;
  if (name) vx_assert(d != 0, "a file was not written");
  if (d) txn(f, d, n);
}
static Txt O1;
#define FIRST "show statement ax / alt_html\n" // reads the typesetting definitions, with a message
void vx_main(int v) {
  vx_libc_init();
  static char cmd[1000];
  int q = pick(NQ), bt = v == 0 ? pick(2) : 1;
  if (!bt && (q >= 1 && q <= 4)) return;
  if ((!bt || v == 1) && q == 10) return;
  size_t n;
  S.n = 0;
  tx(&S, "read b.mm\n");
  if (v == 1) tx(&S, FIRST);
  tx(&S, Q[q].s);
  tx(&S, "exit\nexit\n");
  run(S.b, bt, Q[q].file);
  const char *o = tail(Q[q].n + (v == 0), &n);
  vx_assert(o != 0, "too few prompts");
  txn(&O1, o, n);
  file(&F1, Q[q].file);
  S.n = 0;
  if (v == 0) {
    tx(&S, "read a.mm\n");
    for (int i = 0; i < 2; i++) {
      int h = pick(i ? 8 : NH);
      if (q == 10 && (h == 1 || h == 2 || h == 8 || h == 12)) return; // TeX and HTML in one session is documented not to work
      tx(&S, H[h]);
      tx(&S, "\n");
    }
    tx(&S, "erase\ny\n");
    tx(&S, "read b.mm\n");
  } else {
    tx(&S, "read b.mm\n" FIRST);
    static const int ok[] = {0, 1, 2, 7, 9, 6, 8, 10, 10, 11, 12};
    for (int i = 0; i < 1; i++) {
      int h = pick(11 + 3);
      if ((h == 3 || h > 10) && (q == 0 || q == 5)) return; // PROVE sets =
      tx(&S, h < 11 ? H[ok[h]] : h == 11 ? "prove v\nassign last ax\nundo\nexit" : h == 12 ? "prove t\nminimize_with *\ndelete all\nexit / force" : "prove v\nassign last ax\nimprove all\nexit / force");
      tx(&S, "\n");
    }
  }
  tx(&S, Q[q].s);
  tx(&S, "exit\nexit\n");
  run(S.b, bt, Q[q].file);
  o = tail(Q[q].n + (v == 0), &n);
  vx_assert(o != 0, "too few prompts");
  size_t k = 0;
  while (k < n && k < O1.n && o[k] == O1.b[k]) k++;
  vx_assert(n == O1.n && k == n, v == 0 ? "what was done before ERASE changes what is said later" : "a command that only shows things changes what is said later");
  file(&F2, Q[q].file);
  vx_assert(F1.n == F2.n && !memcmp(F1.b, F2.b, F1.n), v == 0 ? "what was done before ERASE changes what is written later" : "a command that only shows things changes what is written later");
  vx_cover("same");
}
