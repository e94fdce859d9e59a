// Label patterns (SHOW LABELS) and SEARCH against reference matchers.
#include "db.h"
static Txt s;
static int nst;           // statements so far
static struct { const char *l; int num; char type; } L[40];
static int nl;
static char names[40][24];
static void st(const char *label, char type, const char *rest) {
  nst++;
  if (label) {
    strcpy(names[nl], label);
    L[nl].l = names[nl];
    L[nl].num = nst;
    L[nl].type = type;
    nl++;
    tx(&T, label);
    tx(&T, " ");
  }
  char k[5] = {'$', type, ' ', 0};
  tx(&T, k);
  tx(&T, rest);
  tx(&T, " $.\n");
}
static int glob(const char *t, const char *p, int n) {
  if (n == 0) return *t == 0;
  if (*p == '*') return glob(t, p + 1, n - 1) || (*t && glob(t + 1, p, n));
  return *t && (*p == '?' || *p == *t) && glob(t + 1, p + 1, n - 1);
}
static int number(const char *p, int n) {
  int v = 0;
  if (!n) return -1;
  while (n--) { if (*p < '0' || *p > '9') return -1; v = v * 10 + *p++ - '0'; }
  return v;
}
static int find(const char *p, int n) {
  for (int i = 0; i < nl; i++) if ((int)strlen(L[i].l) == n && !strncmp(L[i].l, p, n)) return i;
  return -1;
}
static int prove = -1, changed = -1;
static int is_assertion(int i) { return L[i].type == 'a' || L[i].type == 'p'; }
static int match1(int i, const char *p, int n) {
  for (int k = 0; k < n; k++) {
    if (p[k] != '~') continue;
    int a = k ? find(p, k) : 0, b = k + 1 < n ? find(p + k + 1, n - k - 1) : nl - 1;
    if (a < 0 || b < 0) return 0;
    return L[a].num <= L[i].num && L[i].num <= L[b].num;
  }
  if (n && p[0] == '#') return number(p + 1, n - 1) == L[i].num;
  if (n && p[0] == '@') { // counts the assertions
    int c = 0;
    for (int k = 0; k <= i; k++) c += is_assertion(k);
    return is_assertion(i) && number(p + 1, n - 1) == c;
  }
  if (n == 1 && p[0] == '=') return i == prove;
  if (n == 1 && p[0] == '%') return i == changed;
  return glob(L[i].l, p, n);
}
static int match(int i, const char *p, int n) {
  int b = 0;
  for (int k = 0; k <= n; k++) {
    if (k < n && p[k] != ',') continue;
    if (match1(i, p + b, k - b)) return 1;
    b = k + 1;
  }
  return 0;
}
// the labels listed by the output segment are the ones in want[]
static void listed(const char *o, size_t n, const char *want, int all, int linear) {
  static char line[64];
  int found = 0, lines = 0;
  for (size_t i = 0; i < n; i++) lines += o[i] == '\n';
  for (int i = 0; i < nl; i++) {
    char num[8];
    sprintf(num, "%d", L[i].num);
    line[0] = 0;
    strcat(line, num);
    strcat(line, " ");
    strcat(line, L[i].l);
    strcat(line, " $");
    size_t l = strlen(line);
    line[l++] = L[i].type;
    line[l] = 0;
    int there = 0;
    for (size_t k = 0; k + l <= n; k++)
      there += (k == 0 || o[k - 1] == '\n' || (!linear && o[k - 1] == ' ' && (k < 2 || o[k - 2] == ' '))) && !strncmp(o + k, line, l) &&
        (k + l == n || o[k + l] == '\n' || (!linear && o[k + l] == ' '));
    int w = want[i] && (all || is_assertion(i));
    found += w;
    vx_assert(there == w, w ? "a matching label is not listed once" : "a label that does not match is listed");
  }
  if (linear) vx_assert(lines == found, "other lines are listed");
  if (found) vx_cover("found");
}
#define P0 "$c ( ) W |- $. $v p q $."
static char want[40];
static void base0(int h) {
  st(0, 'c', "( ) W |- w");
  if (h) { // a hypothesis that comes before all $f
    tx(&T, "${ ");
    nst++;
    st("h0", 'e', "|- ( )");
  }
  st(0, 'v', "p q ph");
  st("wp", 'f', "W p");
  st("wq", 'f', "W q");
  st("wph", 'f', "w ph");
}
static void base(void) { base0(0); }
static void labels_cmd(const char *pat, int n, int all, int linear) {
  tx(&s, "show labels ");
  int q = n > 1 && has(pat, n, "=");
  if (q) tx(&s, "'");
  txn(&s, pat, n);
  if (q) tx(&s, "'");
  if (all) tx(&s, " / all");
  if (linear) tx(&s, " / linear");
  tx(&s, "\nexit\n");
}
// math search: the pattern's tokens occur one after the other, with $* for any number and $? for one character
static int tmatch(const char *t, const char *te, const char *p, const char *pe) {
  while (p < pe && *p == ' ') p++;
  while (t < te && *t == ' ') t++;
  if (p == pe) return 1;
  const char *pn = p, *tn = t;
  while (pn < pe && *pn != ' ') pn++;
  while (tn < te && *tn != ' ') tn++;
  if (pn - p <= 2 && p[0] == '$' && (pn - p == 1 || p[1] == '*')) {
    for (;;) {
      if (tmatch(t, te, pn, pe)) return 1;
      while (t < te && *t == ' ') t++;
      if (t == te) return 0;
      while (t < te && *t != ' ') t++;
    }
  }
  if (t == te) return 0;
  int one = (pn - p == 2 && p[0] == '$' && p[1] == '?') || (pn - p == 1 && p[0] == '?');
  if (one ? tn - t != 1 : (tn - t != pn - p || strncmp(t, p, pn - p))) return 0;
  return tmatch(tn, te, pn, pe);
}
static int tsearch(const char *t, const char *p, int n) {
  const char *te = t + strlen(t);
  for (const char *q = t;; q++) {
    if ((q == t || q[-1] == ' ') && tmatch(q, te, p, p + n)) return 1;
    if (q == te) return 0;
  }
}
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int csearch(const char *c, const char *p, int n) { // comment text; white space counts as one space
  static char a[300], b[60];
  int an = 0, bn = 0;
  for (const char *q = c; *q; q++) {
    if (*q == '\n') continue; // line ends are removed
    int x = *q == '\t' ? ' ' : up(*q);
    if (x == ' ' && (an == 0 || a[an - 1] == ' ')) continue;
    a[an++] = x;
  }
  while (an && a[an - 1] == ' ') an--;
  for (int i = 0; i < n; i++) {
    int x = p[i] == '\t' ? ' ' : up(p[i]);
    if (x == ' ' && (bn == 0 || b[bn - 1] == ' ')) continue;
    b[bn++] = x;
  }
  while (bn && b[bn - 1] == ' ') bn--;
  for (int i = 0; i + bn <= an; i++) if (!strncmp(a + i, b, bn)) return 1;
  return 0;
}
static void searched(const char *o, size_t n) { // each hit starts with its number and label, the rest of a hit is indented
  int hits = 0, starts = 0;
  for (size_t i = 0; i < n; i++) starts += (i == 0 || o[i - 1] == '\n') && o[i] != ' ';
  for (int i = 0; i < nl; i++) {
    static char line[64];
    sprintf(line, "%d", L[i].num);
    strcat(line, " ");
    strcat(line, L[i].l);
    strcat(line, " ");
    size_t l = strlen(line);
    int there = 0;
    for (size_t k = 0; k + l <= n; k++) there += (k == 0 || o[k - 1] == '\n') && !strncmp(o + k, line, l);
    vx_assert(there == want[i], want[i] ? "a match is not listed once" : "a statement that does not match is listed");
    hits += want[i];
  }
  vx_assert(starts == hits, "other lines are listed");
  if (hits) vx_cover("found"); else vx_cover("nothing");
}
void vx_main(int v) {
  vx_libc_init();
  tx(&s, "read t.mm\n");
  static Txt p, lab;
  static const char *const PL[] = {"a", "b", "ab", "ba", "aab", "abab", "a.b", "b-a", "A", "aB", "bab", "abb"};
  size_t sn;
  switch (v) {
  case 0: // wildcards and lists
  case 1: // all statements, columns
    base();
    if (v == 1) st("abe", 'e', "|- p");
    for (int i = 0; i < 12; i++) st(PL[i], 'a', "W p");
    if (v == 0) txf(&p, "^ab*A.^^ab*?^^ab*?-^^ab*?,^^ab*? ^^a* ^", "p");
    else txf(&p, "^awb*^^ab*?p^^ab*?e^^* ^", "p");
    for (size_t i = 0; i < p.n; i++) p.b[i] = vx_conc(p.b[i]);
    while (p.n && p.b[p.n - 1] == ' ') p.n--;
    for (size_t i = 0; i < p.n; i++) if (p.b[i] == ' ') return;
    for (int i = 0; i < nl; i++) want[i] = match(i, p.b, p.n);
    if (v == 1) tx(&s, "set width 50\n");
    labels_cmd(p.b, p.n, v == 1, v == 0);
    break;
  case 2: // ranges, numbers, the statement last worked on, changed proofs
    base();
    tx(&T, "${ ");
    nst++;
    st("abe", 'e', "|- p");
    st("a", 'a', "|- p");
    tx(&T, "$} ");
    nst++;
    for (int i = 2; i < 10; i++) st(PL[i], i == 7 ? 'p' : 'a', i == 7 ? "W p $= ?" : "W p");
    st("th", 'p', "W p $= ?");
    prove = find("th", 2);
    changed = find("b-a", 3);
    tx(&s, "save proof b-a / normal\nprove th\nexit / force\n");
    {
      static const char *const M[] = {"a~^Ab^^aB ^", "~a^bB^", "^ab^^abB^~", "^ab^~^aA^^ab ^", "#^01^^0123456789^", "@^ 1^^01239^", "^=%#@~a^", "=,^a%^*", "%,#1^46789^", "~"};
      char c;
      vx_sym_set(&c, 1, "0123456789", 10, "m");
      txf(&p, M[vx_conc(c) - '0'], "p");
    }
    for (size_t i = 0; i < p.n; i++) p.b[i] = vx_conc(p.b[i]);
    while (p.n && p.b[p.n - 1] == ' ') p.n--;
    for (size_t i = 0; i < p.n; i++) if (p.b[i] == ' ') return;
    for (int i = 0; i < nl; i++) want[i] = match(i, p.b, p.n);
    labels_cmd(p.b, p.n, 0, 1);
    break;
  case 3: // searching formulas
  case 4: { // with hypotheses
    base0(v == 4);
    static const char *const F[] = {"|- ( p q )", "|- p", "|- ( q ph )", "W ( p ( q p ) )", "|- ( p ph )", "|- ph q", "|- ( ( p q ) q )"};
    static const char *const N[] = {"a", "b", "ab", "ba", "c", "d", "e"};
    static char full[16][100];
    int o = v == 4;
    strcpy(full[0], "|- ( )");
    for (int i = 0; i < 2; i++) strcpy(full[o + i], i ? "W q" : "W p");
    strcpy(full[o + 2], "w ph");
    if (v == 4) {
      tx(&T, "${ ");
      nst++;
      st("h1", 'e', "|- ( p p )");
      st("h2", 'e', "|- ph");
      strcpy(full[4], "|- ( p p )");
      strcpy(full[5], "|- ph");
    }
    for (int i = 0; i < 7; i++) {
      full[nl][0] = 0;
      if (v == 4) strcat(full[nl], "$e |- ( ) $e |- ( p p ) $e |- ph $a ");
      strcat(full[nl], F[i]);
      st(N[i], 'a', F[i]);
    }
    if (v == 4) tx(&T, "$} $}\n");
    if (v == 3) txf(&p, "^(p|^^ -$ ^^ ?*qp^^ h^^ $pq)^^ *?^^ qp^^ )h^", "p");
    else txf(&p, "^(p|)^^ -$ ^^ ?*qp^^ h^^ $pq)|^^ *?-^^ qp$^", "p");
    for (size_t i = 0; i < p.n; i++) p.b[i] = vx_conc(p.b[i]);
    for (size_t i = 0; i < p.n; i++) { // whole tokens: ( ) | - p ph q $ $* $? |-
      if (p.b[i] == ' ') continue;
      size_t e = i;
      while (e < p.n && p.b[e] != ' ') e++;
      static const char *const OK[] = {"(", ")", "|-", "p", "ph", "q", "$", "$*", "$?", "W", "qp", "?"};
      int ok = 0;
      for (int k = 0; k < 12; k++) ok |= strlen(OK[k]) == e - i && !strncmp(OK[k], p.b + i, e - i);
      if (!ok) return;
      i = e;
    }
    for (int i = 0; i < nl; i++) want[i] = (v == 4 || is_assertion(i)) && tsearch(full[i], p.b, p.n);
    tx(&s, "search * \"");
    txn(&s, p.b, p.n);
    tx(&s, v == 4 ? "\" / join / all\nexit\n" : "\"\nexit\n");
    break;
  }
  case 5: { // searching comments
    base();
    static const char *const C[] = {" ab  Ab ba ", "aB\nb a. a", "b\n\n  AA.b ", " x ", "a\tB ", " bba ab Ba BA aaab b b "};
    static const char *const N[] = {"a", "b", "ab", "ba", "c", "d"};
    static char com[16][100];
    for (int i = 0; i < 6; i++) {
      tx(&T, "$( ");
      tx(&T, C[i]);
      tx(&T, " $)\n");
      if (i == 4) tx(&T, "$( other $) ");
      strcpy(com[nl], i == 4 ? "other" : C[i]);
      st(N[i], 'a', "W p");
    }
    txf(&p, "^abBx^^ab ^^A. t^^ abr^^ a^", "p");
    for (size_t i = 0; i < p.n; i++) p.b[i] = vx_conc(p.b[i]);
    for (int i = 0; i < nl; i++) want[i] = is_assertion(i) && csearch(com[i], p.b, p.n) && glob(L[i].l, v == 5 ? "?" : "*", 1);
    tx(&s, "search ? \"");
    txn(&s, p.b, p.n);
    tx(&s, "\" / comments\nexit\n");
    break;
  }
  }
  vfs_put("t.mm", T.b, T.n);
  db_run(s.b);
  vx_assert(!db_reject, "the database is rejected");
  const char *o = out_seg(v == 1 || v == 3 || v == 4 || v == 5 ? (v == 1 ? 3 : 2) : v == 2 ? 5 : 2, &sn);
  if (v < 3) {
    const char *h = o;
    while (h < o + sn && *h != '\n') h++;
    h++;
    listed(h, o + sn - h, want, v == 1, v != 1);
  } else searched(o, sn);
}
