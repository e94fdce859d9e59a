// After changes to proofs or the layout, the program says and writes what it would if it had read the written source.
#define TX 40000
#include "db.h"
static Txt S, D, F1, F2;
#define DEFS "htmltitle \"T\"; htmlhome '<A HREF=\"x.html\"><IMG SRC=\"x.gif\"></A>'; htmldir \"h/\"; althtmldir \"a/\"; htmlbibliography \"b.html\"; htmlvarcolor \"vars\"; "
static const char A_[] =
  "$( A database.  $)\n$(\n#*#*\n  Part one\n#*#* $)\n$c ( ) W |- $.\n$v p q r s $.\nwp $f W p $. wq $f W q $. wr $f W r $. ws $f W s $.\nwi $a W ( p q ) $.\n"
  "$( Axiom. (Contributed by X, 1-Jan-2000.) $)\nax $a |- ( p ( q p ) ) $.\n"
  "${ m1 $e |- p $. m2 $e |- ( p q ) $. mp $a |- q $. $}\n"
  "$(\n#*#*\n  Mathboxes\n#*#* $)\nmathbox $a |- ( p p ) $.\n"
  "  ${\n$(\n#*#*\n  Mathbox for Foo\n#*#* $)   e $e |- p $. $( Theorem of a very long description that does not fit on a line ` p ` ~ ax . $)\n    u $p |- ( q p ) $= "
  "";
static const char A2[] = " $.\n $}\n$( Another theorem $)\nt $p |- ( r ( s r ) ) $= wr ws ax $.\n  $(\n#*#*\n  Mathbox for Bar\n#*#* $)\n   ${  f $e |- ( p p ) $.\n  $( Last. $)\n     v $p |- ( s ( p p ) ) $= wp wp wi ws f u $.\n$}\n";
static const char BT[] = "$( $t " DEFS "htmldef \"(\" as \"<B>\"; htmldef \")\" as \"</B>\"; htmldef \"W\" as \"B_W\"; htmldef \"|-\" as \"B_|-\"; htmldef \"p\" as \"B_p\"; htmldef \"q\" as \"B_q\"; htmldef \"r\" as \"B_r\"; htmldef \"s\" as \"B_s\";\n"
  "althtmldef \"(\" as \"<B>\"; althtmldef \")\" as \"</B>\"; althtmldef \"W\" as \"B_W\"; althtmldef \"|-\" as \"B_|-\"; althtmldef \"p\" as \"B_p\"; althtmldef \"q\" as \"B_q\"; althtmldef \"r\" as \"B_r\"; althtmldef \"s\" as \"B_s\";\n"
  "latexdef \"(\" as \"B\"; latexdef \")\" as \"B\"; latexdef \"W\" as \"B\"; latexdef \"|-\" as \"B\"; latexdef \"p\" as \"B\"; latexdef \"q\" as \"B\"; latexdef \"r\" as \"B\"; latexdef \"s\" as \"B\"; $)\n";
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
// what may change the source in memory
static const char *const H[] = {
  "prove u\n%save new_proof\n_exit_pa / force", "prove u\n%save new_proof / compressed\n_exit_pa / force", "save proof * / compressed", "save proof * / normal", "save proof u / packed / fast",
  "write source p.mm / rewrap", "prove v\nexpand u\nsave new_proof / packed\nundo\n_exit_pa / force", "prove t\ndelete all\nsave new_proof\n_exit_pa / force", "prove t\nminimize_with *\nsave new_proof / explicit\n_exit_pa / force", "write source p.mm / format"};
#define NH 10
// what follows
static const struct { const char *s; int n; const char *file; } Q[] = {
  {"verify proof *\nshow statement *\nshow statement * / comment\nshow labels *\nshow proof * / all / lemmon\nshow proof * / essential\nshow proof * / compressed\n", 7, 0},
  {"show statement * / alt_html\n", 1, "u.html"},
  {"show statement * / html\n", 1, "v.html"},
  {"write theorem_list / alt_html / theorems_per_page 2\n", 1, "mmtheorems.html"},
  {"write theorem_list / alt_html / theorems_per_page 2\n", 1, "mmtheorems3.html"},
  {"show trace_back * / axioms\nshow usage ax / recursive\nsearch * 's' / all\nsearch * 'theorem' / comments\nverify markup * / verbose\n", 5, 0},
  {"save proof * / compressed\nwrite source p.mm / rewrap\n", 2, "p.mm"},
  {"save proof * / normal\nwrite source p.mm\n", 2, "p.mm"},
  {"write source p.mm / extract t,v\n", 1, "p.mm"},
  {"prove v\nshow new_proof\nminimize_with *\nexpand u\nshow new_proof / all\nsave new_proof / normal\nexit / force\nwrite source p.mm\n", 8, "p.mm"},
  {"prove u\nshow new_proof / all\nassign last ax\nimprove all\nsave new_proof / compressed\nexit / force\nwrite source p.mm\n", 7, "p.mm"},
};
#define NQ 11
static void db(void) {
  vfs_put("t.mm", T.b, T.n);
  vfs_put("mmset.html", "", 0);
}
// the output from the k-th last prompt on
static const char *tail(int k, size_t *len) {
  size_t n;
  char *o = run_out(&n);
  vx_assert(!has(o, n, "?BUG"), "the program reports an internal bug");
  for (size_t i = n; i-- > 0;) {
    if (o[i] != 'M' || (strncmp(o + i, "MM> ", 4) && strncmp(o + i, "MM-PA> ", 7))) continue;
    if (k-- > 0) continue;
    static Txt t[2];
    static int k2;
    Txt *d = &t[k2++ & 1];
    d->n = 0;
    while (i < n) { // that the typesetting definitions are read is not an effect
      size_t e = i, p = i;
      while (e < n && o[e] != '\n') e++;
      if (e < n) e++;
      while (p + 4 < e && !strncmp(o + p, "MM> ", 4)) p += 4;
      if (e - p > 30 && (!strncmp(o + p, "Reading definitions from $t", 27) || has(o + p, e - p, " typesetting statements were read"))) txn(d, o + i, p - i);
      else for (size_t k = i; k < e; k++) { // the line numbers are those of the file that was read
        txn(d, o + k, 1);
        if (k >= i + 5 && !strncmp(o + k - 4, "line ", 5)) while (k + 1 < e && o[k + 1] >= '0' && o[k + 1] <= '9') k++;
      }
      i = e;
    }
    *len = d->n;
    return d->b;
  }
  *len = 0;
  return 0;
}
static void file(Txt *f, const char *name) {
  f->n = 0;
  size_t n;
  char *d = name ? vfs_get(name, &n) : 0;
  if (name) vx_assert(d != 0, "a file was not written");
  if (d) txn(f, d, n);
}
static Txt O1;
void vx_main(int v) {
  vx_libc_init();
  tx(&T, A_);
  static const char *const PU[] = {"wp wq wp wi e ? mp", "wp wq wp wi e wp wq ax mp", "( wi ax mp ) ABADCABEF", "?"};
  tx(&T, PU[v ? 0 : pick(4)]);
  tx(&T, A2);
  tx(&T, BT);
  int q = pick(NQ);
  S.n = 0;
  tx(&S, "read t.mm\n");
  for (int i = 0; i <= v; i++) {
    static const int second[] = {2, 5, 6, 7, 1};
    const char *h = H[i ? second[pick(5)] : pick(NH)];
    for (; *h; h++) {
      if (*h != '%') { txn(&S, h, 1); continue; }
      static const char *const C[] = {"improve all\n", "assign last ax\n", "delete all\nassign last mp\n", "delete all\nassign last mp\nundo\nundo\n"};
      tx(&S, C[pick(i ? 2 : 4)]);
    }
    tx(&S, "\n");
  }
  tx(&S, "write source o.mm\n");
  tx(&S, Q[q].s);
  tx(&S, "exit\nexit\n");
  db();
  if (Q[q].file) vfs_delete(Q[q].file);
  mm_script(S.b);
  size_t n;
  const char *o = tail(Q[q].n, &n);
  vx_assert(o != 0, "too few prompts");
  txn(&O1, o, n);
  file(&F1, Q[q].file);
  o = vfs_get("o.mm", &n);
  D.n = 0;
  txn(&D, o, n);
  vfs_put("t.mm", D.b, D.n);
  S.n = 0;
  tx(&S, "read t.mm\n");
  tx(&S, Q[q].s);
  tx(&S, "exit\nexit\n");
  if (Q[q].file) vfs_delete(Q[q].file);
  mm_script(S.b);
  o = tail(Q[q].n, &n);
  vx_assert(o != 0, "too few prompts");
  size_t k = 0;
  while (k < n && k < O1.n && o[k] == O1.b[k]) k++;
  if (n != O1.n || k != n) {
    vfs_put("dbg1", O1.b, O1.n);
    vfs_put("dbg2", o, n);
  }
  vx_assert(n == O1.n && k == n, "the database in memory does not behave like the one that was written");
  file(&F2, Q[q].file);
  vx_assert(F1.n == F2.n && !memcmp(F1.b, F2.b, F1.n), "the database in memory does not lead to the same output as the one that was written");
  vx_cover("same");
}
