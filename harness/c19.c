// The end of the input ends the program; a command file is as good as typing; the log file holds what the screen shows.
#include "db.h"
#define DB "$c ( ) W |- $. $v p q r $. wp $f W p $. wq $f W q $. wr $f W r $. wi $a W ( p q ) $.\nax $a |- ( p ( q p ) ) $. ${ m1 $e |- p $. m2 $e |- ( p q ) $. mp $a |- q $. $}\nt $p |- ( r ( r r ) ) $= wr wr ax $.\nu $p |- ( r r ) $= wr wr wr wi ? ? mp $.\n"
#define DB2 "ay $a |- ( p q ) $.\nz $p |- ( r r r r ) $= ? $.\n"
static Txt S, A, B, C;
static void ending(const char *s, size_t n) { // whatever was typed before
  char *av[2] = {"metamath", 0};
  int r = run_mm(1, av, s, n);
  size_t l;
  char *o = run_out(&l);
  vx_assert(r == 0, "the program fails at the end of its input");
  vx_assert(!has(o, l, "*BUG") && !has(o, l, "?BUG"), "the program reports a bug at the end of its input");
}
static const char *const SESS[] = {
  "set height 3\nread t.mm\nshow statement * / full\n\n\nB\n\nq\nshow labels *\nS\nset height 20\nhelp\n\nhelp read\nexit\n",
  "set scroll continuous\nread t.mm\nprove u\nshow new_proof\ndelete step 5\nassign last mp\nunify all / interactive\nimprove all\nassign first ax\nexit\nn\nsave new_proof / normal\nexit\nset width 30\nexit\nn\nerase\ny\nread t.mm\nexit\n",
  "tools\nadd \"a.txt\" \"x\" \"y\"\ncount a.txt \"\"\nsubstitute a.txt\n\nswap a.txt \"\ntype a.txt\nexit\nread t.mm\nsearch * 'p\nshow\nsubmit c.txt\nsubmit\nopen log l.txt\nexit\n",
  "set scroll continuous\nread t.mm\nprove u\ninitialize all\ninitialize all\nunify all/interactive\n\nx\nq\nassign last ax\na\nreplace first ax\n1\nq\nexit\ny\nset height 2\nset scroll prompted\nshow proof u / all\nx\nsx\nQ\nexit\n",
  "set scroll continuous\nread t.mm\nprove u\nmatch all\nfoo\nax mp\nax\nmatch step 5 / max_essential_hyp 3\n\nexit\nn\nexit\ny\nprove z\nassign last ay / no_unify\nunify step 3\nr\nx\nr\nq\nunify all / interactive\nr\n\nlet variable $1 = 'r r'\nreplace 1 ay\na\nexit\ny\nexit\n"};
static const char *const BLOCK[] = {
  "show labels *\n", "read t.mm\n", "verify proof *\n", "  SHOW  proof t/lemmon / all\n", "! comment\n", "tools\ncount \"t.mm\" \"r\"\nexit\n",
  "prove t\ndelete all\nassign last ax\nexit\ny\n", "foo\n", "show\nlabels\n*\n\n", "show \"x\n", "submit d.txt\n", "prove u\ndelete all\nimprove all\nsave new_proof/compressed\nexit / force\n", "show trace_back t /axioms\nshow statement t/full\nshow usage ax\n"};
#define NB 13
static size_t skip(const char *b, size_t n, size_t i) { while (i < n && b[i] != '\n') i++; return i < n ? i + 1 : n; }
static void file(Txt *t, const char *f) {
  size_t n;
  const char *b = vfs_get(f, &n);
  vx_assert(b != 0, "there is no log file");
  t->n = 0;
  txn(t, b, n);
}
// lines of b without the first and last ones
static void inner(Txt *t, int first, int last) {
  size_t i = 0, e = t->n;
  while (first--) i = skip(t->b, t->n, i);
  while (last--) { if (e) e--; while (e > i && t->b[e - 1] != '\n') e--; }
  memmove(t->b, t->b + i, e - i);
  t->n = e - i;
  t->b[t->n] = 0;
}
static const char LOGGED[] = "set scroll continuous\nread t.mm\nshow labels *\n! comment\nprove u\nassign last ax\nexit\ny\ntools\ncount t.mm 'r'\nexit\nset echo on\nverify proof *\nprove t\ndelete all\nexit\nx\nsave new_proof\nexit\nexit\nn\nfoo\n";
static void logged(void) { // the log is the screen with the lines typed, wherever these end
  size_t n = strlen(LOGGED);
  unsigned short cut;
  vx_sym(&cut, 2, "cut");
  vx_assume(cut <= n);
  tx(&S, "open log l.txt\n");
  txn(&S, LOGGED, vx_conc(cut));
  ending(S.b, S.n);
  char *o = run_out(&n);
  size_t p = 0, i = 15; // position in the screen and in the input
  while (p < n && strncmp(o + p, "The log file", 12)) p++;
  while (p < n) {
    static const char *const PR[] = {"MM> ", "MM-PA> ", "TOOLS> ", "<N>? "};
    int k;
    for (k = 0; k < 4; k++) if (p + strlen(PR[k]) <= n && !strncmp(o + p, PR[k], strlen(PR[k]))) break;
    if (k == 4) { txn(&A, o + p++, 1); continue; }
    txn(&A, PR[k], strlen(PR[k]));
    p += strlen(PR[k]);
    if (i == S.n) continue; // the program types EXIT or Y itself
    size_t e = skip(S.b, S.n, i);
    txn(&A, S.b + i, e - i);
    if (S.b[e - 1] != '\n') txn(&A, "\n", 1);
    i = e;
  }
  file(&B, "l.txt");
  A.b[A.n] = B.b[B.n] = 0;
  vfs_put("dbg1", A.b, A.n);
  vfs_put("dbg2", B.b, B.n);
  vx_assert(A.n == B.n && !memcmp(A.b, B.b, A.n), "the log is not what the screen shows with the lines typed");
  vx_cover("ended");
}
void vx_main(int v) {
  T.n = S.n = A.n = B.n = C.n = 0;
  tx(&T, DB);
  if (v == 7) tx(&T, DB2);
  vfs_put("t.mm", T.b, T.n);
  if (v == 8) { logged(); return; }
  if (v < 4 || v == 7) {
    vfs_put("a.txt", "x\nxy\n", 5);
    vfs_put("c.txt", "show labels *\nshow\nprove t\nset height 2\nhelp", 43);
    const char *s = SESS[v == 7 ? 4 : v];
    size_t n = strlen(s);
    unsigned short cut;
    vx_sym(&cut, 2, "cut");
    vx_assume(cut <= n);
    ending(s, (size_t)vx_conc(cut));
    vx_cover("ended");
    return;
  }
  if (v == 4) { // any bytes in a line
    tx(&S, "set scroll continuous\n");
    vx_sym(S.b + S.n, 3, "line");
    S.n += 3;
    vx_assume((S.b[S.n - 3] | 32) != 'd' && (S.b[S.n - 2] | 32) != 'd' && (S.b[S.n - 1] | 32) != 'd' && S.b[S.n - 3] && S.b[S.n - 2] && S.b[S.n - 1]); // a null character ends a line; DBG tests the report of bugs
    tx(&S, "\nread t.mm\n");
    ending(S.b, S.n);
    vx_cover("ended");
    return;
  }
  static const char nested[] = "show labels *\n! nested\nverify proof *";
  vfs_put("d.txt", nested, sizeof nested - 1);
  Txt *c = &C;
  int nb = v == 5 ? 3 : 2;
  tx(c, "erase\nread t.mm\n");
  for (int i = 0; i < nb; i++) {
    char k;
    vx_sym_set(&k, 1, "abcdefghijklm", NB, "block");
    tx(c, BLOCK[(char)vx_conc(k) - 'a']);
  }
  tx(c, "erase\ny\n");
  // as a command file, perhaps with other line ends
  char cr = 'n', last = 'y';
  if (v == 6) { vx_sym_set(&cr, 1, "nr", 2, "cr"); vx_sym_set(&last, 1, "yn", 2, "last newline"); cr = (char)vx_conc(cr); last = (char)vx_conc(last); }
  for (size_t i = 0; i < c->n; i++) {
    if (c->b[i] == '\n' && cr == 'r') tx(&A, "\r");
    if (c->b[i] == '\n' && i + 1 == c->n && last == 'n') break;
    txn(&A, c->b + i, 1);
  }
  vfs_put("c.txt", A.b, A.n);
  tx(&S, "erase\nopen log l1\n");
  tx(&S, c->b);
  tx(&S, "close log\nerase\nopen log l2\nsubmit c.txt\nclose log\nsubmit c.txt/silent\nread t.mm\nexit\n");
  mm_script(S.b);
  size_t n;
  char *o = run_out(&n);
  vx_assert(!has(o, n, "?BUG"), "the program reports a bug");
  file(&A, "l1");
  inner(&A, 1, 2); // "was opened"; "close log" and "was closed"
  file(&B, "l2");
  inner(&B, 3, 3); // in addition submit and the two messages about the file
  vx_assert(A.n == B.n && !memcmp(A.b, B.b, A.n), "a command file does something else than the same commands typed in");
  // the screen: the same without the commands, which the terminal shows
  size_t p = 0, i = 0;
  const char *sc = has(o, n, "was opened") ? o : 0;
  vx_assert(sc != 0, "the log file is not opened");
  while (p < n && strncmp(o + p, "The log file", 12)) p++;
  p = skip(o, n, p);
  size_t q = 0; // position in the commands
  while (i < A.n) {
    if (p < n && o[p] == A.b[i]) { p++; i++; continue; }
    // here a command was typed
    while (q < C.n && C.b[q] != '\n') { vx_assert(i < A.n && A.b[i] == C.b[q], "the log differs from the screen"); i++; q++; }
    vx_assert(i < A.n && A.b[i] == '\n', "the log differs from the screen");
    i++; q++;
  }
  vx_cover("submitted");
}
