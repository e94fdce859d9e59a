// SHOW TRACE_BACK and SHOW USAGE against reachability in the graph of references.
#include "db.h"
#define MAXN 20
static struct { const char *l; char type; int wff; } N[MAXN];
static int nn;
static int use[MAXN][MAXN], ess[MAXN][MAXN], unknown[MAXN]; // direct references, those from essential steps, has ?
static Txt S, W;
static char sep; // white space between the labels of proofs
static int node(const char *l, char type, int wff) { N[nn].l = l; N[nn].type = type; N[nn].wff = wff; return nn++; }
static int find(const char *l) { for (int i = 0; i < nn; i++) if (!strcmp(N[i].l, l)) return i; return -1; }
// proof text; steps of essential parts are marked by being outside of [ ]
static void gap(void) { if (sep == 'd') tx(&T, " $( ( t1 ) $) "); else if (sep == 'c') tx(&T, " "); else if (sep == 'e') tx(&T, " $( t1 w1 $)\n"); else txn(&T, &sep, 1); }
static void proof(int i, const char *p) {
  int in = 0, nl = 0;
  char lab[26][16];
  Txt *D = &T;
  static Txt letters;
  letters.n = 0;
  letters.b[0] = 0;
  const int comp = sep == 'c' || sep == 'd'; // compressed: label list, then letters
  if (comp) { tx(D, "("); gap(); }
  while (*p) {
    if (*p == ' ') { if (!comp) gap(); p++; continue; }
    if (*p == '[') { in++; p++; continue; }
    if (*p == ']') { in--; p++; continue; }
    char w[16];
    int n = 0;
    while (*p && *p != ' ' && *p != ']') w[n++] = *p++;
    w[n] = 0;
    if (!comp) tx(&T, w);
    else if (w[0] == '?') tx(&letters, "?");
    else {
      int k = 0;
      while (k < nl && strcmp(lab[k], w)) k++;
      if (k == nl) { strcpy(lab[nl++], w); tx(&T, w); gap(); }
      char c = (char)('A' + k);
      txn(&letters, &c, 1);
    }
    if (w[0] == '?') { unknown[i] |= 1 | (in ? 0 : 2); continue; }
    int j = find(w);
    use[i][j] = 1;
    if (!in) ess[i][j] = 1;
  }
  if (comp) { tx(&T, ")"); gap(); tx(&T, letters.b); }
}
static void thm(const char *l, int wff, const char *const *alt, int n) {
  static const char digits[] = "0123456789";
  char c;
  vx_sym_set(&c, 1, digits, n, "proof");
  int k = (char)vx_conc(c) - '0';
  int i = node(l, 'p', wff);
  tx(&T, l);
  tx(&T, wff ? " $p wff A $= " : " $p |- A $= ");
  proof(i, alt[k]);
  gap();
  tx(&T, "$.\n");
}
static void ax(const char *l, int wff, const char *f) {
  node(l, 'a', wff);
  tx(&T, l);
  tx(&T, " $a ");
  tx(&T, f);
  tx(&T, " $.\n");
}
static void words(const char *o, size_t n, const char *msg) { // the words of o[0..n) are those of W
  size_t i = 0, j = 0;
  while (1) {
    while (i < n && (o[i] == ' ' || o[i] == '\n')) i++;
    while (j < W.n && W.b[j] == ' ') j++;
    if (i == n || j == W.n) break;
    while (i < n && o[i] != ' ' && o[i] != '\n') { vx_assert(j < W.n && o[i] == W.b[j], msg); i++; j++; }
    vx_assert(j == W.n || W.b[j] == ' ', msg);
  }
  vx_assert(i == n && j == W.n, msg);
}
static void closure(int t, int e, const int *filter, int *r) {
  int (*u)[MAXN] = e ? ess : use;
  for (int i = 0; i < nn; i++) r[i] = i == t;
  for (int i = t; i >= 0; i--) {
    if (!r[i]) continue;
    for (int j = 0; j < i; j++) if (u[i][j] && (!filter || filter[j])) r[j] = 1;
  }
}
static void affected(int x, int rec, int *r) {
  for (int i = 0; i < nn; i++) r[i] = i == x;
  for (int i = x + 1; i < nn; i++)
    for (int j = x; j < i; j++)
      if (r[j] && use[i][j] && (rec || j == x)) { r[i] = 1; break; }
}
static void menu(const char *const *m, int n, int *k, const char *name) {
  char c;
  vx_sym_set(&c, 1, "0123456789", n, name);
  *k = (char)vx_conc(c) - '0';
  tx(&S, m[*k]);
}
static const char *after(const char *o, size_t *n, const char *s) { // the text after s
  size_t m = strlen(s);
  for (size_t i = 0; i + m <= *n; i++)
    if (!strncmp(o + i, s, m)) { *n -= i + m; return o + i + m; }
  return 0;
}
static int r[MAXN], flt[MAXN];
static void trace(int t, int q, int seg) {
  const int e = q == 1 || q == 6 || q == 8, a = q == 2 || q == 6;
  int *f = 0;
  W.n = 0;
  if (q == 3 || q == 4 || q == 7) affected(find(q == 3 ? "ax" : q == 4 ? "w1" : "t2"), 1, f = flt);
  closure(t, e, f, r);
  int unp[MAXN], warn = 0, any = 0;
  for (int i = 0; i < nn; i++) {
    unp[i] = r[i] && (unknown[i] & (e ? 2 : 1));
    warn |= unp[i];
    int show = r[i] && i != t;
    if (q == 5) show = show && (N[i].l[0] == 't' || !strcmp(N[i].l, "w1"));
    if (q == 8) show = show && (!strcmp(N[i].l, "wa") || !strcmp(N[i].l, "ax"));
    if (a) show = show && N[i].type == 'a';
    if (!show) continue;
    any = 1;
    tx(&W, N[i].l);
    if (N[i].type == 'a' && !a) tx(&W, "($a)");
    tx(&W, " ");
  }
  if (!any) tx(&W, "(None)");
  size_t n;
  const char *o = out_seg(seg, &n);
  o = after(o, &n, a ? "axioms ($a statements):\n" : f ? "\" via:\n" : "earlier statements:\n");
  vx_assert(o != 0, "no list of statements");
  size_t l = n;
  const char *w = after(o, &l, "Warning: The following traced statement(s) were not proved:\n");
  words(o, w ? (size_t)(w - o) - 60 : n, "SHOW TRACE_BACK lists something else");
  vx_assert((w != 0) == warn, "wrong warning about unproved statements");
  if (!w) return;
  int c = 0, k = 0;
  for (int i = 0; i < nn; i++) if (unp[i]) {
    k++;
    int found = 0;
    for (size_t j = 0; j + strlen(N[i].l) <= l; j++) found |= !strncmp(w + j, N[i].l, strlen(N[i].l));
    vx_assert(found, "an unproved statement is missing");
  }
  for (size_t j = 0; j < l; j++) c += w[j] != ' ' && w[j] != '\n' && (!j || w[j - 1] == ' ' || w[j - 1] == '\n');
  vx_assert(c == k, "wrong list of unproved statements");
}
static void usage(int x, int rec, int seg) {
  int k = 0;
  W.n = 0;
  affected(x, rec, r);
  for (int i = x + 1; i < nn; i++) if (r[i]) { k++; tx(&W, N[i].l); tx(&W, " "); }
  size_t n;
  const char *o = out_seg(seg, &n);
  char m[60];
  if (!k) { vx_assert(has(o, n, "is not referenced in the proof of any statement"), "the statement is not used"); return; }
  sprintf(m, k == 1 ? "%d statement:" : "%d statements:", k);
  vx_assert(has(o, n, m), "wrong number of statements");
  o = after(o, &n, k == 1 ? "statement:" : "statements:");
  words(o, n, "SHOW USAGE lists something else");
}
void vx_main(int variant) {
  T.n = S.n = W.n = 0;
  if (variant < 4) vx_sym_set(&sep, 1, " \n\t", 3, "white space"); else vx_sym_set(&sep, 1, "cde", 3, "layout");
  sep = (char)vx_conc(sep);
  tx(&T, "$c wff |- A $. $v p q $. wp $f wff p $. wq $f wff q $.\n");
  ax("wa", 1, "wff A");
  ax("wb", 1, "wff A");
  static const char *const w1[] = {"wa", "wb"}, *const w2[] = {"wa", "wb", "w1"};
  thm("w1", 1, w1, variant < 4 ? 2 : 1);
  ax("ax", 0, "|- p");
  tx(&T, "${ m1 $e |- p $. m2 $e |- q $. ");
  ax("mp", 0, "|- p");
  tx(&T, "$}\n");
  static const char *const t1[] = {"[wa] ax", "[w1] ax", "?"}, *const t2[] = {"[wb] ax", "t1", "[w1] [wa] t1 t1 mp"},
    *const t3[] = {"[wa] [wb] t2 t1 mp", "[w2] [wb] t2 [w1] ax mp", "t1"}, *const t4[] = {"t3", "[wa] [w2] t3 t2 mp", "[?] ax", "t1"};
  thm("t1", 0, t1, 3);
  if (variant & 1) thm("w2", 1, w2, 3); else thm("w2", 1, w2 + 2, 1);
  thm("t2", 0, t2, 3);
  thm("t3", 0, t3, 3);
  thm("t4", 0, t4, variant & 1 ? 3 : 4);
  thm("t5", 0, (const char *const[]){"t4", "[wa] [wa] ? t3 mp"}, variant & 1 ? 1 : 2);
  tx(&S, "read t.mm\n");
  int seg = 3;
  vfs_put("t.mm", T.b, T.n);
  if ((variant & 6) == 2) { int k; menu((const char *const[]){"", "save proof * /normal\n"}, 2, &k, "format"); seg += k; tx(&S, "save proof * /compressed\n"); }
  else if (variant < 4) { int k; menu((const char *const[]){"", "save proof * /normal\n"}, 2, &k, "rewritten"); seg += k - 1; }
  else seg--;
  static const char *const tl[] = {"t5", "t4", "w2"}, *const tq[] = {"", " /essential", " /axioms", " /to ax", " /to w1", " /match t*,w1", " /axioms /essential", " /to t2", " /essential /match *a*"};
  static const char *const ul[] = {"wa", "ax", "w1", "t1", "t3", "t5", "w2"}, *const uq[] = {"", " /recursive", " /direct"};
  const int nt = variant & 1 ? 0 : 3, nx = variant & 1 ? 7 : 0; // what is asked
  for (int t = 0; t < nt; t++)
    for (int q = 0; q < 9; q++) { tx(&S, "show trace_back "); tx(&S, tl[t]); tx(&S, tq[q]); tx(&S, "\n"); }
  for (int x = 0; x < nx; x++)
    for (int q = 0; q < 3; q++) { tx(&S, "show usage "); tx(&S, ul[x]); tx(&S, uq[q]); tx(&S, "\n"); }
  tx(&S, "exit\n");
  db_run(S.b);
  vx_assert(!db_reject, "an error is reported");
  for (int t = 0; t < nt; t++) for (int q = 0; q < 9; q++) trace(find(tl[t]), q, seg++);
  for (int x = 0; x < nx; x++) for (int q = 0; q < 3; q++) usage(find(ul[x]), q == 1, seg++);
  vx_cover("valid");
}
