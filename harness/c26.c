// VERIFY MARKUP warns exactly when a convention is broken.
#define TX 40000
#include "db.h"
static Txt S, D;
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
static void def(Txt *t, const char *tok) {
  static const char *const k[] = {"latexdef", "htmldef", "althtmldef"};
  for (int i = 0; i < 3; i++) {
    tx(t, k[i]);
    tx(t, " '");
    tx(t, tok);
    tx(t, "' as 'X';\n");
  }
}
static const char *const TOK[] = {"W", "|-", "(", ")", "p", "q", "r"};
static void head(Txt *t) {
  t->n = 0;
  tx(t, "$( $t\n");
  for (int i = 0; i < 7; i++) def(t, TOK[i]);
}
#define CV "$c W |- ( ) $. $v p q r $.\nwp $f W p $. wq $f W q $. wr $f W r $.\nwi $a W ( p q ) $.\n"
static const char *O; static size_t on;
static int warned(const char *opt) { // does the command warn?
  vfs_put("t.mm", D.b, D.n);
  S.n = 0;
  tx(&S, "read t.mm\nverify markup *");
  tx(&S, opt);
  tx(&S, "\nexit\n");
  mm_script(S.b);
  O = out_seg(2, &on);
  vx_assert(O != 0 && !out_has("?BUG") && !out_has("?Error"), "the database is not read, or the command does not end");
  int w = has(O, on, "?Warning"), e = has(O, on, "No errors were found.");
  vx_assert(w != e, "warnings and the final verdict disagree");
  return w;
}
#define is_warned(opt, want) do { int want_ = (want); \
    if (warned(opt)) vx_assert(want_, "a warning although no convention is broken"); \
    else vx_assert(!want_, "no warning although a convention is broken"); \
  } while (0)
// dates
static const char MON[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
static int dig(int c) { return c >= '0' && c <= '9'; }
static long date(const char *s, int n) { // increasing with the day; -1: not a date
  int i = 0, d = 0, m = -1, y = 0;
  while (i < n && dig(s[i]) && i < 2) d = d * 10 + s[i++] - '0';
  if (!i || s[0] == '0' || d > 31 || n < i + 6 || s[i++] != '-') return -1;
  for (int k = 0; k < 12; k++) if (s[i] == MON[3 * k] && s[i + 1] == MON[3 * k + 1] && s[i + 2] == MON[3 * k + 2]) m = k;
  i += 3;
  if (m < 0 || s[i++] != '-' || n - i < 3 || n - i > 6 || s[i] == '0') return -1;
  while (i < n && dig(s[i])) y = y * 10 + s[i++] - '0';
  if (i != n) return -1;
  return (long)y * 500 + m * 40 + d;
}
static const char *const TAG[] = {"(Contributed by ", "(Revised by ", "(Proof shortened by "};
// the text after the tag's name, up to the end of the comment; white space is single blanks; 1: as it has to be
static int tag(const char *s, long *d) {
  int e = 0, sp = -1;
  *d = -1;
  while (s[e] && !(s[e] == '.' && s[e + 1] == ')' && (s[e + 2] == ' ' || !s[e + 2]))) e++;
  if (!s[e]) return 0;
  for (int i = 0; i < e; i++) if (s[i] == ' ') sp = i;
  if (sp < 2 || s[sp - 1] != ',') return 0;
  for (int i = 0; i < sp - 1; i++) if (s[i] == ',') return 0;
  *d = date(s + sp + 1, e - sp - 1);
  return *d >= 0;
}
static void squeeze(Txt *t) {
  int n = 0;
  for (size_t i = 0; i < t->n; i++) if (t->b[i] != ' ' || (n && t->b[n - 1] != ' ')) t->b[n++] = t->b[i];
  while (n && t->b[n - 1] == ' ') n--;
  t->b[t->n = n] = 0;
}
static Txt C, Q;
// kinds of statements
static const char *const ST[] = {"th $p |- ( p p ) $= ? $.\n", "ax-th $a |- ( p p ) $.\n", "df-th $a |- ( p p ) $.\n", "wth $a W ( p p ) $.\n"};
static void dates(int v) {
  int st = pick(4);
  static const char *const ord[] = {"0", "01", "02", "012", "021", "10", "20", "102", "00", "1", "", "12", "0112", "0212", "0121", "0122"};
  C.n = 0;
  Q.n = 0;
  tx(&C, " Text.");
  long last[3] = {-1, -1, -1};
  int pos[3] = {-1, -1, -1}, first[3] = {-1, -1, -1}, num[3] = {0, 0, 0}, bad = 0, opt = 0;
  if (v == 0) {
    int o = pick(16);
    if (st && o % 3) return;
    for (const char *k = ord[o]; *k; k++) {
      Q.n = 0;
      txk(&Q, "NM, ^12^5-", "day");
      tx(&Q, strlen(ord[o]) < 4 && pick(2) ? "Oct" : "Feb");
      txk(&Q, "-200^78^.)", "year");
      int t = *k - '0';
      long d;
      if (!tag(Q.b, &d)) bad = 1;
      last[t] = d;
      pos[t] = k - ord[o];
      if (first[t] < 0) first[t] = pos[t];
      num[t]++;
      tx(&C, "\n");
      tx(&C, TAG[t]);
      txn(&C, Q.b, Q.n);
    }
    opt = pick(2);
  } else {
    int t = pick(3), k = pick(20);
    if (t) {
      tx(&C, " (Contributed by A B, 4-Jan-1901.)");
      last[0] = date("4-Jan-1901", 10);
      pos[0] = first[0] = 0;
      num[0] = 1;
    }
    pos[t] = first[t] = 1;
    num[t] = 1;
    Q.n = 0;
    static const char *const base[] = {"N M, 25-Jan-2003.)", "NM, 3-Mar-12003.)"};
    tx(&Q, base[pick(2)]);
    if (k + 1 >= (int)Q.n) return;
    Txt *p = &Q;
    char w[2];
    vx_sym_set(w, 2, "N,.) 012-Jr", 11, "text");
    p->b[k] = w[0];
    p->b[k + 1] = w[1];
    vx_assume(w[0] == ' ' || w[0] == '.' || w[1] == '1' || k % 3 != 1); // fewer
    squeeze(&Q);
    // the comment must not hold a second tag, and the name not begin with a blank
    if (!tag(Q.b, &last[t])) bad = 1;
    tx(&C, "\n");
    tx(&C, TAG[t]);
    txn(&C, Q.b, Q.n);
  }
  if (num[0] != 1) bad = 1;
  for (int t = 1; t < 3; t++) {
    if (num[t] && first[t] < first[0]) bad = 1;
    if (num[t] && num[0] == 1 && last[t] >= 0 && last[0] >= 0 && last[0] >= last[t]) bad = 1;
  }
  if (num[1] && num[2] && ((pos[1] < pos[2] && last[1] > last[2]) || (pos[1] > pos[2] && last[1] < last[2]))) bad = 1;
  head(&D);
  tx(&D, "$)\n" CV);
  tx(&D, "$(");
  txn(&D, C.b, C.n);
  tx(&D, " $)\n");
  tx(&D, ST[st]);
  if (st == 3 || opt) bad = 0;
  is_warned(opt ? "/ date_skip" : "", bad);
  if (bad) vx_assert(has(O, on, st == 0 ? "\"th\"" : st == 1 ? "\"ax-th\"" : "\"df-th\""), "the warning does not name the statement");
  vx_cover(bad ? "bad" : "good");
}
// any two dates
static void order(void) {
  static const char *const day[] = {"1-", "29-", "31-"};
  Txt *q[2] = {&C, &Q};
  long d[2];
  for (int i = 0; i < 2; i++) {
    int m = pick(12), y = i ? 1 : pick(3);
    q[i]->n = 0;
    tx(q[i], day[pick(3)]);
    txn(q[i], MON + 3 * m, 3);
    tx(q[i], y == 0 ? "-1999" : y == 1 ? "-2000" : "-2001");
    d[i] = date(q[i]->b, q[i]->n);
  }
  int k = pick(3);
  head(&D);
  tx(&D, "$)\n" CV "$( A. (Contributed by X, ");
  tx(&D, k == 2 ? "4-Apr-1994" : C.b);
  tx(&D, ".)\n");
  tx(&D, TAG[k == 1 ? 2 : 1]);
  tx(&D, "X, ");
  tx(&D, k == 2 ? C.b : "");
  tx(&D, k == 2 ? ".)\n(Proof shortened by X, " : "");
  tx(&D, Q.b);
  tx(&D, ".) $)\nth $p |- ( p p ) $= ? $.\n");
  is_warned("", k == 2 ? d[0] > d[1] : d[0] >= d[1]);
  vx_cover(d[0] >= d[1] ? "bad" : "good");
}
// ax-1 and ax1
static void axioms(void) {
  static const char *const as[] = {"|- ( p q )", "|- ( q p )", "|- ( ( p q ) p )"};
  static const char *const hy[] = {"", "$e |- p $.", "$e |- r $."};
  int a[2], d[2], h[2][2];
  char nm = vx_conc(pick(2)) ? '2' : '1';
  head(&D);
  tx(&D, "$)\n" CV);
  for (int i = 0; i < 2; i++) {
    a[i] = pick(3);
    d[i] = pick(4);
    if (i == 0 && a[i] == 2) return;
    if (nm == '2' && i && (a[1] != a[0] || d[1])) return;
    h[i][0] = pick(3);
    h[i][1] = h[i][0] == 2 ? 0 : pick(3);
    tx(&D, "${\n");
    if (d[i] & 1) tx(&D, "$d p q $.\n");
    if (d[i] & 2) tx(&D, "$d q r $.\n");
    for (int k = 0; k < 2; k++) if (h[i][k]) {
      char l[5] = {'h', (char)('1' + i), (char)('1' + k), ' ', 0};
      tx(&D, l);
      tx(&D, hy[h[i][k]]);
      tx(&D, "\n");
    }
    char l[8] = "ax-1 ";
    if (i) l[2] = nm, l[3] = ' ', l[4] = 0;
    tx(&D, l);
    tx(&D, i ? "$p " : "$a ");
    tx(&D, as[a[i]]);
    tx(&D, i ? " $= ? $.\n$}\n" : " $.\n$}\n");
  }
  int same = a[0] == a[1] && (d[0] & 1) == (d[1] & 1);
  // hypotheses
  int l[2][3] = {{0}}, r[2] = {0, 0};
  for (int i = 0; i < 2; i++) for (int k = 0, n = 0; k < 2; k++) if (h[i][k]) { l[i][n++] = h[i][k]; r[i] |= h[i][k] == 2; }
  if (l[0][0] != l[1][0] || l[0][1] != l[1][1]) same = 0;
  if (r[0] && r[1] && (d[0] & 2) != (d[1] & 2)) same = 0;
  is_warned("/ date_skip", nm == '1' && !same);
  if (nm == '1' && !same) vx_assert(has(O, on, "\"ax-1\"") && has(O, on, "\"ax1\""), "the warning does not name the statements");
  vx_cover(nm != '2' && !same ? "bad" : "good");
}
// labels
static void labels(void) {
  static const char *const tmpl[] = {"^cC^^oO^^nNm^^_3x^", "^mM^^mMx^^a_^", "^ad^^xf^^-x^^_a^", "co^mM^^01_9^", "l^pP^t^9_x^", "^pn^^ru^^nlx^", "x^OA^L^DTd^", "^OA^L^DT^"};
  int k = pick(8), st = pick(5), opt = pick(2), tg = k >= 6 ? pick(4) : 0;
  Q.n = 0;
  txk(&Q, tmpl[k], "label");
  // every label is looked up by its characters
  for (size_t i = 0; i < Q.n; i++) Q.b[i] = vx_conc(Q.b[i]);
  head(&D);
  tx(&D, "$)\n" CV "$( A.");
  if (tg & 1) tx(&D, opt ? " (New usage is\ndiscouraged.)" : " (New usage is discouraged.)");
  if (tg & 2) tx(&D, opt ? " (Proof\n  modification is discouraged.)" : " (Proof modification is discouraged.)");
  tx(&D, " $)\n");
  txn(&D, Q.b, Q.n);
  static const char *const s[] = {" $a |- ( p q ) $.\n", " $a W ( q p ) $.\n", " $p |- ( p p ) $= ? $.\n", " $f W x $.\n", " $e |- p $.\n"};
  if (st == 3) { // another variable
    head(&D);
    def(&D, "x");
    tx(&D, "$)\n" CV "$v x $.\n$( A. $)\n");
    txn(&D, Q.b, Q.n);
  }
  tx(&D, s[st]);
  char U[8] = {0};
  int us = 0;
  for (size_t i = 0; i < Q.n; i++) { U[i] = Q.b[i] >= 'a' && Q.b[i] <= 'z' ? Q.b[i] - 32 : Q.b[i]; us |= U[i] == '_'; }
  int bad = us && !opt;
  if (st < 3) {
    static const char *const res[] = {"CON", "PRN", "AUX", "NUL", "COM1", "COM2", "COM3", "COM4", "COM5", "COM6", "COM7", "COM8", "COM9", "LPT1", "LPT2", "LPT3", "LPT4", "LPT5", "LPT6", "LPT7", "LPT8", "LPT9"};
    for (int i = 0; i < 22; i++) if (!strcmp(U, res[i])) bad = 1;
    if (U[0] == 'M' && U[1] == 'M') bad = 1;
    if (st == 0 && strncmp(Q.b, "ax-", 3) && strncmp(Q.b, "df-", 3)) bad = 1;
    const char *e = Q.n > 3 ? Q.b + Q.n - 3 : Q.b;
    if (!strcmp(e, "OLD") || !strcmp(e, "ALT")) {
      if (!(tg & 1)) bad = 1;
      if (st == 2 && !(tg & 2)) bad = 1;
    }
    if (st != 2 && (tg & 2)) bad = 1;
  }
  is_warned(opt ? "/ date_skip / underscore_skip" : "/ date_skip", bad);
  if (bad) vx_assert(has(O, on, Q.b), "the warning does not name the statement");
  vx_cover(bad ? "bad" : "good");
}
// lines and tokens
static void lines(int v) {
  int bad = 0;
  if (v == 0) {
    head(&D);
    tx(&D, "$)\n" CV "$( A");
    size_t b = D.n;
    int k = pick(4), n = k == 0 ? 4 : k == 1 ? 75 + pick(6) : 2;
    if (k == 1) {
      tx(&D, "\n");
      for (int i = 0; i < n; i++) tx(&D, i % 5 ? "x" : " ");
      txk(&D, "^ x\t^^x\n^", "text");
    } else if (k == 0) txk(&D, "^ x\n\t^^ x\n\t^^ x\n^^ x\n^", "text");
    else if (k == 2) txk(&D, " $)^ x\n\t^", "text"); // after the comment
    if (k == 2 && D.b[D.n - 1] == 'x') return;
    tx(&D, k == 2 ? "\n$( " : "");
    tx(&D, "b $)\n");
    if (k == 3) { txk(&D, "^ \t\n^", "text"); tx(&D, "\n"); }
    size_t len = 0;
    for (size_t i = 0; i < D.n; i++) {
      char c = D.b[i];
      if (c == '\n') { if (len > 79) bad = 1; if (len && D.b[i - 1] == ' ') bad = 1; len = 0; }
      else { if (c == '\t') bad = 1; len++; }
    }
    (void)b;
  } else {
    char t[4] = {0};
    vx_sym_set(t, 2, "x@?p", 4, "token");
    for (int i = 0; i < 2; i++) t[i] = vx_conc(t[i]);
    bad = strchr(t, '@') || strchr(t, '?');
    head(&D);
    def(&D, t);
    tx(&D, "$)\n" CV);
    int k = pick(3);
    tx(&D, k == 0 ? "$c " : k == 1 ? "${ $v " : "$v ");
    tx(&D, t);
    tx(&D, k == 1 ? " $. $}\n" : " $.\n");
  }
  is_warned("/ date_skip", bad);
  vx_cover(bad ? "bad" : "good");
}
// mathboxes
static void boxes(void) {
  head(&D);
  tx(&D, "$)\n" CV "$( A. $)\nax-m $a |- ( p p ) $.\n$( The last. $)\nmathbox $a W ( r p ) $.\n");
  static const char *const L[] = {"ax-m", "ma", "ma2", "mb", "mb2", "mc"};
  static const int box[] = {0, 1, 1, 2, 2, 3};
  int ref[6], warn = 0, opt = pick(2), who = 1 + pick(5), cmp = pick(2), h = pick(3);
  for (int i = 1; i < 6; i++) {
    if (i != 2 && i != 4) {
      tx(&D, h == 0 ? "$( #*#*\n      Mathbox for " : h == 1 ? "$( -.-.\n Mathbox for Nobody\n-.-. $)\n$( -.-.\n  Mathbox for " : "$( #*#*#\n#*#*# $)\n$( =-=-\n Mathbox for ");
      tx(&D, box[i] == 1 ? "Ann" : box[i] == 2 ? "B. Bob" : "Cy");
      tx(&D, "\n-.-. $)\n");
    }
    tx(&D, "$( A. $)\n");
    tx(&D, L[i]);
    tx(&D, " $p |- ( p p ) $= ");
    ref[i] = i == who ? pick(i) : 0;
    if (cmp && i == who) tx(&D, "( ");
    else tx(&D, "wp ");
    tx(&D, L[ref[i]]);
    tx(&D, cmp && i == who ? " ) AB" : "");
    tx(&D, " $.\n");
  }
  warn = box[ref[who]] != 0 && box[ref[who]] != box[who];
  is_warned(opt ? "/ date_skip / mathbox_skip" : "/ date_skip", warn && !opt);
  if (warn && !opt) {
    static const char *const nm[] = {"", "Ann", "B. Bob", "Cy"};
    char l[8] = "\"";
    strcpy(l + 1, L[who]);
    strcat(l, "\"");
    vx_assert(has(O, on, l), "the warning does not name the theorem");
    strcpy(l + 1, L[ref[who]]);
    strcat(l, "\"");
    vx_assert(has(O, on, l), "the warning does not name the statement referred to");
    vx_assert(has(O, on, nm[box[who]]) && has(O, on, nm[box[ref[who]]]), "the warning does not name the mathboxes");
  }
  vx_cover(warn ? "bad" : "good");
}
// the version date
static void version(void) {
  int k = pick(12);
  Q.n = 0;
  tx(&Q, "15-Jul-2003");
  if (k < 10) { // a day and a year are digits
    if (k == 1 || k == 2 || k == 5 || k == 6) return;
    char w[2];
    if (k == 3 || k == 4) vx_sym_set(w, 2, "JuanNl-d", 8, "text");
    else vx_sym_set(w, 2, "0123459", 7, "text");
    vx_assume(k != 7 || w[0] != '0');
    Q.b[k] = w[0];
    Q.b[k + 1] = w[1];
  }
  int opt = pick(2), pre = pick(3), bad;
  D.n = 0;
  tx(&D, pre == 0 ? "$( t.mm - Version of " : pre == 1 ? "$( t.mm Version of " : "$( t.mm - Of ");
  txn(&D, Q.b, Q.n);
  tx(&D, k == 11 ? " and more $)\n" : " $)\n");
  int z = Q.b[0] == '0' && Q.b[1] != '-';
  long d = date(Q.b + z, Q.n - z);
  tx(&D, "$( $t\n");
  for (int i = 0; i < 7; i++) def(&D, TOK[i]);
  tx(&D, "$)\n" CV "$( A. (Contributed by NM, 4-Jan-1901.)\n(Revised by NM, ");
  int o = pick(2);
  tx(&D, o ? "15-Jul-2003" : "5-Jan-1993");
  tx(&D, ".)\n(Proof shortened by NM, 15-Jul-2003.) $)\nax-1 $a |- ( p p ) $.\n");
  tx(&D, "$( B. (Contributed by NM, 1-Dec-1999.) $)\nax-2 $a |- ( p q ) $.\n");
  bad = pre == 2 || d < 0 || (!opt && d < date("15-Jul-2003", 11));
  is_warned(opt ? "/ top_date_check / date_skip" : "/ top_date_check", bad);
  vx_cover(bad ? "bad" : "good");
}
// definitions
static void defs(void) {
  static const char *const k[] = {"latexdef", "htmldef", "althtmldef"};
  int t = pick(8), d = pick(3), n = pick(4), bad = n != 1;
  D.n = 0;
  tx(&D, "$( $t\n");
  for (int i = 0; i < 7; i++) for (int j = 0; j < 3; j++) {
    int m = i == t && j == d ? n : 1;
    for (int x = 0; x < m && x < 2; x++) {
      tx(&D, k[j]);
      tx(&D, " '");
      tx(&D, m == 3 ? "zz" : TOK[i]);
      tx(&D, "' as 'X';\n");
      if (m == 3) break;
    }
  }
  if (t == 7) bad = 0;
  tx(&D, "$)\n" CV "$( A. $)\nax-1 $a |- ( p p ) $.\n");
  vfs_put("t.mm", D.b, D.n);
  mm_script("read t.mm\nverify markup * / date_skip\nexit\n");
  O = out_seg(2, &on);
  vx_assert(O != 0 && !out_has("?BUG"), "the command does not end");
  int ok = has(O, on, "No errors were found.");
  vx_assert(!ok || !bad, "no warning although a definition is missing, double or for an unknown symbol");
  vx_assert(ok || bad, "a warning although no convention is broken");
  if (bad) vx_assert(has(O, on, n == 3 ? "zz" : TOK[t]), "the warning does not name the symbol");
  vx_cover(bad ? "bad" : "good");
}
// comments
static void comments(void) {
  static const char *const piece[] = {" text", " ~ ^axw^^px1i^^ x1^", " ` ^p(@^ ^p)@r^ `", " Theorem 1 of [Xy1] p. 3", " _it_", " ~~ x", " ``x", " a_b", " ~ http://x.y", " ` ( p\nq ) `", " ~\nax-1", " [Xy1]"};
  int bad = 0;
  head(&D);
  tx(&D, "$)\n" CV "$( A. $)\nax-1 $a |- ( p p ) $.\n$( A. $)\nxp1 $a W ( p p ) $.\n$( T.");
  for (int i = 0, l = 0; i < 2; i++) {
    int k = pick(12);
    if (k == 11 && l == 3) return; // it may belong to the theorem before
    l = k;
    if (k == 11) bad = 1; // what is where in the book?
    Q.n = 0;
    txk(&Q, piece[k], "text");
    for (size_t j = 0; j < Q.n; j++) Q.b[j] = vx_conc(Q.b[j]);
    if (k == 1) {
      char l[8] = {0};
      int n = 0;
      for (size_t j = 3; j < Q.n && Q.b[j] != ' '; j++) l[n++] = Q.b[j];
      bad |= !(!strcmp(l, "xp1") || !strcmp(l, "wi"));
    }
    if (k == 2) for (size_t j = 3; j < Q.n - 2;) {
      int n = 0;
      while (Q.b[j + n] != ' ' && Q.b[j + n] != '\n') n++;
      if (n == 1 && Q.b[j] == '@') bad |= 1;
      if (n > 1) bad |= 1;
      j += n + 1;
      while (Q.b[j] == ' ' || Q.b[j] == '\n') j++;
    }
    txn(&D, Q.b, Q.n);
  }
  tx(&D, " end. $)\nax-2 $a |- ( p q ) $.\n");
  vfs_put("t.mm", D.b, D.n);
  mm_script("read t.mm\nverify markup * / date_skip\nexit\n");
  O = out_seg(2, &on);
  vx_assert(O != 0 && !out_has("?BUG"), "the command does not end");
  int ok = has(O, on, "No errors were found.");
  vx_assert(!ok || !bad, "no warning although a comment refers to an unknown label or symbol");
  vx_assert(ok || bad, "a warning although no convention is broken");
  vx_cover(bad ? "bad" : "good");
}
void vx_main(int v) {
  vx_libc_init();
  if (v < 2) dates(v);
  else if (v == 2) axioms();
  else if (v == 3) labels();
  else if (v < 6) lines(v - 4);
  else if (v == 6) boxes();
  else if (v == 7) version();
  else if (v == 8) defs();
  else if (v == 9) comments();
  else order();
}
