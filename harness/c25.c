// Commands may be abbreviated, in any case, with any blanks and quotes, and asked for word by word, with the same effect.
#define TX 40000
#include "db.h"
static Txt S, D, A, L, alt, want, F;
static const char DB[] = "$c ( ) W |- $. $v p q r $. wp $f W p $. wq $f W q $. wr $f W r $. wi $a W ( p q ) $.\n"
  "$( First axiom. $)\nax $a |- ( p ( q p ) ) $. ${ m1 $e |- p $. m2 $e |- ( p q ) $. mp $a |- q $. $}\n"
  "$( A theorem. $) t $p |- ( r ( p r ) ) $= wr wp ax $.\n${ h $e |- q $. u $p |- ( p q ) $= wq wp wq wi h ? mp $. $}\n";
// capital letters: keywords; * before a word: asked for when it is missing
static const struct { const char *pre, *cmd; int seg, tools; const char *file; } C[] = {
  {"", "SHOW STATEMENT ax / FULL", 2}, {"", "SHOW PROOF t / LEMMON / RENUMBER / ALL", 2}, {"", "SHOW LABELS a* / ALL / LINEAR", 2}, {"", "SEARCH * \"( p\" / ALL / JOIN", 2},
  {"", "SHOW TRACE_BACK t / ESSENTIAL / AXIOMS", 2}, {"", "SHOW USAGE ax / RECURSIVE", 2}, {"", "VERIFY PROOF * / SYNTAX_ONLY", 2}, {"", "SAVE PROOF t / COMPRESSED", 2}, {"", "SET ECHO ON", 2},
  {"", "SET UNDO 5", 2}, {"", "SET SCROLL PROMPTED", 2}, {"", "HELP SHOW STATEMENT", 2}, {"", "WRITE SOURCE o.mm / REWRAP", 2, 0, "o.mm"}, {"", "ERASE", 2}, {"", "SET EMPTY_SUBSTITUTION ON", 2}, {"", "SHOW MEMORY", 2},
  {"prove u\n", "SHOW NEW_PROOF / UNKNOWN", 3}, {"prove u\n", "DELETE STEP 5", 3}, {"prove u\n", "DELETE FLOATING_HYPOTHESES", 3}, {"prove u\n", "ASSIGN LAST ax / NO_UNIFY", 3}, {"prove u\n", "IMPROVE ALL / DEPTH 1", 3},
  {"prove u\n", "SAVE NEW_PROOF / NORMAL", 3}, {"prove u\n", "INITIALIZE ALL", 3}, {"prove u\n", "LET STEP 3 = \"W q\"", 3},
  {"tools\n", "ADD f.txt \"a\" \"b\"", 3, 1, "f.txt"}, {"tools\n", "REVERSE f.txt", 3, 1, "f.txt"}, {"tools\n", "COUNT f.txt \"x\"", 3, 1}, {"tools\n", "TYPE f.txt ALL", 3, 1}, {"tools\n", "BREAK f.txt \"(,)\"", 3, 1, "f.txt"},
  {"", "MARKUP f.txt g.txt / HTML", 2, 0, "g.txt"}, {"", "SHOW PROOF t / NORMAL", 2}, {"prove u\n", "MINIMIZE_WITH ax / VERBOSE", 3}, {"prove u\n", "REPLACE 5 mp", 3}, {"", "SET HEIGHT 20", 2},
  {"", "OPEN LOG x.log", 2}, {"", "SET ROOT_DIRECTORY \"d/\"", 2}, {"", "SET SEARCH_LIMIT 100", 2}, {"", "SET UNIFICATION_TIMEOUT 100", 2}, {"", "SET JEREMY_HENTY_FILTER OFF", 2}, {"", "SET DISCOURAGEMENT OFF", 2},
  {"", "SET CONTRIBUTOR \"X Y\"", 2}, {"", "VERIFY MARKUP * / DATE_SKIP / VERBOSE", 2}, {"", "MORE f.txt", 2}, {"", "FILE SEARCH f.txt \"x\"", 2}, {"", "SHOW DISCOURAGED", 2}, {"", "SHOW SOURCE ax", 2},
  {"prove u\n", "MATCH ALL", 3}, {"prove u\n", "UNIFY STEP 6", 3}, {"prove u\nassign last t\n", "UNDO", 4}, {"prove u\n", "EXPAND ax", 3}, {"prove u\n", "LET VARIABLE $1 = \"W q\"", 3},
  {"tools\n", "SUBSTITUTE f.txt \"x\" \"y\" \"a\" \"\"", 3, 1, "f.txt"}, {"tools\n", "SWAP f.txt \"b\"", 3, 1, "f.txt"}, {"tools\n", "INSERT f.txt \"b\" 2", 3, 1, "f.txt"}, {"tools\n", "CLEAN f.txt \"U,E\"", 3, 1, "f.txt"},
  {"tools\n", "DELETE f.txt \"a\" \"x\"", 3, 1, "f.txt"}, {"tools\n", "NUMBER g.txt 1 3 1", 3, 1, "g.txt"}, {"tools\n", "SORT f.txt \"b\"", 3, 1, "f.txt"}, {"tools\n", "UNDUPLICATE f.txt", 3, 1, "f.txt"},
  {"tools\n", "UNIQUE f.txt", 3, 1, "f.txt"}, {"tools\n", "COPY f.txt g.txt", 3, 1, "g.txt"}, {"tools\n", "MATCH f.txt \"x\" \"Y\"", 3, 1, "f.txt"}, {"tools\n", "RIGHT f.txt", 3, 1, "f.txt"},
  {"tools\n", "ADD f.txt \"it's \" \" 'x \"", 3, 1, "f.txt"}, {"tools\n", "SUBSTITUTE f.txt \"x\" \"a'b\" ALL \"\"", 3, 1, "f.txt"}, {"", "SEARCH * \"( p'\" / COMMENTS", 2},
  {"tools\n", "ADD f.txt '\"' 'x\"y'", 3, 1, "f.txt"}};
#define NC (int)(sizeof C / sizeof C[0])
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int keyword(const char *w) { return *w >= 'A' && *w <= 'Z'; }
// the words of the command
static char W[12][24];
static int nw, sp[12];
static void split(const char *c) {
  for (nw = 0; *c; nw++) {
    int n = 0;
    char q = *c == '"' || *c == '\'' ? *c : ' ';
    if (q != ' ') W[nw][n++] = *c++;
    while (*c && *c != q) W[nw][n++] = *c++;
    if (q != ' ') W[nw][n++] = *c++;
    W[nw][n] = 0;
    while (*c == ' ') c++;
  }
}
// runs the command line; what it says
static void run(int k, const char *line, Txt *d) {
  vfs_put("t.mm", DB, strlen(DB));
  vfs_put("f.txt", "a(x\nbb\nx x\n", 11);
  vfs_delete("o.mm");
  vfs_delete("g.txt");
  S.n = 0;
  tx(&S, "read t.mm\n");
  tx(&S, C[k].pre);
  tx(&S, line);
  tx(&S, "\n");
  if (C[k].cmd[0] == 'E') tx(&S, "show labels *\n");
  tx(&S, C[k].tools ? "exit\nexit\n" : "_exit_pa / force\nset scroll continuous\nshow settings\nexit\n");
  mm_script(S.b);
  size_t n;
  const char *o = out_seg(C[k].seg, &n);
  d->n = 0;
  vx_assert(o != 0 && !out_has("?BUG"), "the program does not get to the command");
  txn(d, o, n);
}
static void settings(Txt *d) { // what follows the last prompt
  size_t n, b = 0;
  char *o = run_out(&n);
  for (size_t i = 0; i + 4 < n; i++) if (!strncmp(o + i, "MM> ", 4)) b = i;
  if (n - b < 20) for (size_t i = 0; i < b; i++) if (!strncmp(o + i, "(SET ECHO", 9)) { b = i; break; }
  txn(d, o + b, n - b);
}
static int squash(Txt *d, const char *s, size_t n) { // one blank between words
  d->n = 0;
  for (size_t i = 0; i < n; i++) {
    if (s[i] == ' ' || s[i] == '\n') { if (d->n && d->b[d->n - 1] != ' ') d->b[d->n++] = ' '; }
    else d->b[d->n++] = s[i];
  }
  d->b[d->n] = 0;
  return d->n;
}
static void same(int k, Txt *a, Txt *b) {
  if (a->n != b->n || memcmp(a->b, b->b, a->n)) {
    vfs_put("dbg1", a->b, a->n);
    vfs_put("dbg2", b->b, b->n);
  }
  vx_assert(a->n == b->n && !memcmp(a->b, b->b, a->n), "the command does not do the same as the one written out");
}
static void getfile(int k, Txt *f) {
  f->n = 0;
  size_t n;
  char *d = C[k].file ? vfs_get(C[k].file, &n) : 0;
  if (d) txn(f, d, n);
}
static void line(Txt *d, int upto) {
  d->n = 0;
  for (int i = 0; i < upto; i++) { if (i) tx(d, " "); tx(d, W[i]); }
}
void vx_main(int v) {
  vx_libc_init();
  int k = pick(NC);
  static Txt full, fset, other, oset, ffile, ofile;
  split(C[k].cmd);
  line(&L, nw);
  run(k, L.b, &full);
  settings(&fset);
  getfile(k, &ffile);
  if (v == 0) { // one keyword is abbreviated
    int p = pick(nw);
    if (!keyword(W[p])) return;
    if ((p == 2 && !strcmp(W[0], "TYPE")) || (p == 4 && !strcmp(W[0], "SUBSTITUTE"))) return; // an argument
    if (p == 1 && (!strcmp(W[1], "LAST") || (!strcmp(W[1], "ALL") && strcmp(W[0], "TYPE")))) return; // an argument
    int m = 1 + pick(strlen(W[p]));
    char save[24];
    strcpy(save, W[p]);
    strcpy(W[p], "XYZ"); // asks for the alternatives
    line(&L, nw);
    run(k, L.b, &other);
    squash(&alt, other.b, other.n);
    strcpy(W[p], save);
    W[p][m] = 0;
    int cs = pick(3);
    line(&L, nw);
    { // only this word
      size_t b = 0;
      for (int i = 0; i < p; i++) b += strlen(W[i]) + 1;
      for (int i = 0; i < m; i++) if (cs == 0 || (cs == 1 && i % 2)) L.b[b + i] += 'A' <= L.b[b + i] && L.b[b + i] <= 'Z' ? 32 : 0;
    }
    run(k, L.b, &other);
    settings(&oset);
    getfile(k, &ofile);
    // which alternatives begin like this?
    const char *a = alt.b;
    while (*a && strncmp(a, "?Expected ", 10)) a++;
    vx_assert(*a != 0, "an unknown keyword is not reported");
    a += 10;
    int hits = 0, exact = 0;
    static char list[20][30];
    while (*a && *a != '.') {
      int n = 0;
      char w[30];
      while (*a && *a != ' ' && *a != ',' && *a != '.' && n < 29) w[n++] = *a++;
      w[n] = 0;
      while (*a == ' ' || *a == ',') a++;
      if (!strcmp(w, "or")) continue;
      if (!strncmp(w, save, m)) {
        if ((int)strlen(w) == m) exact = 1;
        strcpy(list[hits++], w);
      }
    }
    vx_assert(hits > 0, "the keyword is not among the alternatives");
    if (hits == 1 || exact) {
      if (!strcmp(list[0], save) || exact) {
        vx_cover("abbreviated");
        if (exact && m < (int)strlen(save)) return; // another keyword
        same(k, &full, &other);
        same(k, &fset, &oset);
        same(k, &ffile, &ofile);
      }
    } else {
      vx_cover("ambiguous");
      squash(&D, other.b, other.n);
      const char *q = D.b;
      while (*q == '^' || *q == ' ') q++;
      want.n = 0;
      tx(&want, "?Ambiguous keyword - please specify ");
      for (int i = 0; i < hits; i++) {
        if (i) tx(&want, hits == 2 ? " or " : i == hits - 1 ? ", or " : ", ");
        tx(&want, list[i]);
      }
      tx(&want, ". ");
      vx_assert(!strcmp(q, want.b), "an ambiguous keyword is not reported with the alternatives");
    }
  } else if (v == 1) { // blanks, quotes and case of all keywords
    L.n = 0;
    txk(&L, "^ \t^", "b");
    char q;
    vx_sym_set(&q, 1, "-'\"", 3, "quote");
    q = (char)vx_conc(q);
    int cs = pick(2), bl = pick(3);
    for (int i = 0; i < nw; i++) {
      int slash = !C[k].tools && (W[i][0] == '/' || W[i][0] == '=') && !W[i][1];
      if (i && !(bl == 1 && (slash || (!C[k].tools && (W[i - 1][0] == '/' || W[i - 1][0] == '='))))) tx(&L, bl == 2 ? " \t " : " ");
      if (W[i][0] == '"' || W[i][0] == '\'') {
        static char b[24];
        strcpy(b, W[i]);
        if (q == '\'' && b[0] == '"' && !strchr(b, q)) b[0] = b[strlen(b) - 1] = q;
        tx(&L, b);
      } else if (q != '-' && !slash && (W[i][0] != 'H' || i)) {
        txn(&L, &q, 1);
        tx(&L, W[i]);
        txn(&L, &q, 1);
      } else tx(&L, W[i]);
      if (cs && keyword(W[i])) for (size_t j = L.n - strlen(W[i]) - (q != '-' && !slash); j < L.n; j++) if (L.b[j] >= 'A' && L.b[j] <= 'Z') L.b[j] += 32;
    }
    if (bl == 2) tx(&L, " ");
    run(k, L.b, &other);
    settings(&oset);
    getfile(k, &ofile);
    same(k, &full, &other);
    same(k, &fset, &oset);
    same(k, &ffile, &ofile);
    vx_cover("written differently");
  } else { // the rest is asked for
    int p = 1 + pick(nw);
    if (p == nw || C[k].cmd[0] == 'H' || !strcmp(C[k].cmd, "MATCH ALL")) return; // asks further questions
    for (int i = 0; i <= p; i++) if (W[i][0] == '/') return; // what follows is optional
    for (int i = p; i < nw; i++) if (W[i][0] == '"' || W[i][0] == '\'') { size_t l = strlen(W[i]); memmove(W[i], W[i] + 1, l); W[i][l - 2] = 0; }
    line(&L, p);
    for (int i = p; i < nw; i++) {
      if (!strcmp(W[i], "=") || (i == 1 && ((!strcmp(W[0], "SAVE") && !C[k].pre[0]) || !strcmp(W[0], "FILE")))) continue; // the only possibility is not asked for
      tx(&L, "\n");
      tx(&L, W[i]);
    }
    tx(&L, "\n\n");
    run(k, L.b, &other);
    settings(&oset);
    getfile(k, &ofile);
    size_t n = full.n;
    vx_assert(other.n >= n, "the answers do not have the effect of the command");
    int found = 0;
    for (size_t i = 0; i + n <= other.n && !found; i++) found = !memcmp(other.b + i, full.b, n);
    if (!found) { vfs_put("dbg1", full.b, full.n); vfs_put("dbg2", other.b, other.n); }
    vx_assert(found, "the answers do not have the effect of the command");
    if (!C[k].tools) same(k, &fset, &oset);
    same(k, &ffile, &ofile);
    vx_cover("asked");
  }
}
