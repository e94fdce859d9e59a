// TOOLS: the text commands against reference implementations.
#include "db.h"
static Txt F, G, W, S;      // input files, wanted result, script
typedef struct { char b[120]; int n; } Line;
static Line L[12], M[12], A[6]; // lines of F, lines of G, arguments of the command
static int nL, nM, nA;
static int split(Line *l, Txt *t) {
  int k = 0;
  l[0].n = 0;
  for (size_t i = 0; i < t->n; i++) {
    if (t->b[i] == '\n') { l[k].b[l[k].n] = 0; l[++k].n = 0; continue; }
    l[k].b[l[k].n++] = t->b[i];
  }
  l[k].b[l[k].n] = 0;
  return l[k].n ? k + 1 : k;
}
static void out(const char *s, int n) { txn(&W, s, n); tx(&W, "\n"); }
static int at(const Line *l, int i, const Line *p) { // p occurs at l[i]
  if (i + p->n > l->n) return 0;
  for (int k = 0; k < p->n; k++) if (l->b[i + k] != p->b[k]) return 0;
  return 1;
}
static int pos(const Line *l, int from, const Line *p) { // first occurrence, -1: none
  for (int i = from; i + p->n <= l->n; i++) if (at(l, i, p)) return i;
  return -1;
}
static int isin(const Line *l, const Line *p) { return pos(l, 0, p) >= 0; }
// the next argument of the command, a template of free bytes
static char quote = '"';
static Line *arg(const char *f) {
  Txt *t = &S;
  tx(t, " ");
  txn(t, &quote, 1);
  size_t n = t->n;
  txf(t, f, "argument");
  Line *a = &A[nA++];
  a->n = (int)(t->n - n);
  memcpy(a->b, t->b + n, a->n);
  a->b[a->n] = 0;
  txn(t, &quote, 1);
  return a;
}
static long num(const char *set) {
  char c;
  vx_sym_set(&c, 1, set, strlen(set), "number");
  txn(&S, " ", 1);
  txn(&S, &c, 1);
  return c - '0';
}
static void begin(const char *file, const char *cmd) {
  F.n = G.n = W.n = S.n = 0;
  nA = 0;
  txf(&F, file, "file");
  nL = split(L, &F);
  tx(&S, "tools\n");
  tx(&S, cmd);
}
static const char *O;
static size_t On;
static void go(void) {
  tx(&S, "\nexit\nexit\n");
  vfs_put("f", F.b, F.n);
  int r = mm_script(S.b);
  size_t n;
  char *o = run_out(&n);
  vx_assert(r == 0 && count_of(o, n, "TOOLS> ") == 2 && count_of(o, n, "MM> ") == 3, "the program did not get to the end of the script");
  O = out_seg(2, &On);
}
static void same(const char *name, const Txt *t, const char *msg) {
  size_t n;
  char *d = vfs_get(name, &n);
  vx_assert(d != 0 && n == t->n, msg);
  int bad = 0;
  for (size_t i = 0; i < n; i++) bad |= d[i] ^ t->b[i];
  vx_assert(!bad, msg);
}
static void result(void) {
  go();
  same("f", &W, "the result of the command is wrong");
  same("f~1", &F, "the old version of the file is not kept");
  size_t n;
  vx_assert(!vfs_get("zz~tools1.tmp", &n), "a temporary file is left");
  vx_cover("result");
}
static void counted(int changed) { // the message of the commands that change lines
  char m[80];
  if (!nL) { vx_assert(has(O, On, "has no lines"), "no lines"); return; }
  sprintf(m, changed ? "has %d line%s; %d w%s changed" : "has %d line%s; none were changed", nL, nL == 1 ? "" : "s", changed, changed == 1 ? "as" : "ere");
  vx_assert(has(O, On, m), "the command reports the wrong number of lines");
}
static void t_add(void) {
  begin("^ab\n^^ab\n^b^ab\n^^ab\n^", "add f");
  vx_sym_set(&quote, 1, "\"'", 2, "quote");
  quote = (char)vx_conc(quote);
  int dq = quote == '"';
  Line *p = arg(dq ? "^'b^" : "^\"b^"), *q = arg(dq ? "^a'^c" : "^a\"^c");
  int changed = 0;
  for (int i = 0; i < nL; i++) {
    txn(&W, p->b, p->n);
    txn(&W, L[i].b, L[i].n);
    out(q->b, q->n);
    changed++;
  }
  result();
  counted(changed);
}
static void t_tag(void) {
  begin("^ab^b\n^ab^\na^ab^\n^ab^\n", "tag f");
  int k = nA;
  Line *p = arg("^a<^"), *q = arg("^b>^");
  char e;
  vx_sym_set(&e, 1, "012", 3, "empty matches");
  e = (char)vx_conc(e);
  Line *s = arg(e == '1' ? "" : "^ab^");
  int sn = (int)num("012");
  Line *t = arg(e == '2' ? "" : "^ab^");
  int tn = (int)num("012");
  if (!sn) sn = 1;
  if (!tn) tn = 1;
  int a = 0, b = 0, changed = 0;
  for (int i = 0; i < nL; i++) {
    if (a < sn) a += isin(&L[i], s);
    int in = a == sn && b < tn;
    if (in) { txn(&W, p->b, p->n); changed++; }
    txn(&W, L[i].b, L[i].n);
    if (in) { txn(&W, q->b, q->n); b += isin(&L[i], t); }
    out("", 0);
  }
  result();
  counted(changed);
}
static void t_delete(void) {
  begin("^abc^^abc^^abc^a\n^abc^^abc^", "delete f");
  char e;
  vx_sym_set(&e, 1, "0123", 4, "empty strings");
  e = (char)vx_conc(e);
  Line *p = arg(e & 1 ? "" : "^abc^^ab^"), *q = arg(e & 2 ? "" : "^abc^");
  for (int i = 0; i < nL; i++) {
    int a = pos(&L[i], 0, p), b = a < 0 ? -1 : q->n ? pos(&L[i], a, q) : L[i].n;
    if (p->n && b >= 0 && q->n && b < a + p->n) vx_assume(0); // overlapping occurrences: not specified
    if (b < 0) { out(L[i].b, L[i].n); continue; }
    txn(&W, L[i].b, a);
    out(L[i].b + b + q->n, L[i].n - b - q->n);
  }
  result();
}
static int blank(char c) { return c == ' ' || c == '\t'; }
static int quoted(const Line *l, int i) { // is character i between quotes?
  int in = 0;
  for (int k = 0; k < i; k++) if (l->b[k] == '"' || l->b[k] == '\'') in = !in;
  return in && l->b[i] != '"' && l->b[i] != '\'';
}
static void clean(Line *l, const Line *f) {
  static Line o;
  int D = 0, B = 0, E = 0, R = 0, Q = 0, P = 0, Gg = 0, C = 0, Lo = 0, V = 0;
  for (int i = 0; i < f->n; i++) {
    char c = f->b[i] & 0xdf;
    D |= c == 'D'; B |= c == 'B'; E |= c == 'E'; R |= c == 'R'; Q |= c == 'Q'; P |= c == 'P'; Gg |= c == 'G'; C |= c == 'C'; Lo |= c == 'L'; V |= c == 'V';
  }
  int first = 0, last = l->n;
  if (B) while (first < last && blank(l->b[first])) first++;
  if (E) while (last > first && blank(l->b[last - 1])) last--;
  o.n = 0;
  for (int i = first; i < last; i++) {
    char c = l->b[i];
    if (Q && quoted(l, i)) { o.b[o.n++] = c; continue; }
    if (D && blank(c)) continue;
    if (R && blank(c)) {
      if (i > first && blank(l->b[i - 1])) continue;
      c = ' ';
    }
    if (P) c &= 0x7f;
    if (Gg && (c == '\r' || c == '\f' || c == '\033' || c == '\b')) continue;
    if (C && c >= 'a' && c <= 'z') c -= 32;
    if (Lo && c >= 'A' && c <= 'Z') c += 32;
    if (V) {
      unsigned char g = (unsigned char)c;
      if ((g >= 234 && g <= 237) || g == 218 || g == 217 || g == 191 || g == 192) c = '+';
      if (g == 241 || g == 196) c = '-';
      if (g == 248 || g == 166 || g == 179) c = '|';
    }
    o.b[o.n++] = c;
  }
  *l = o;
}
static void t_clean(const char *file, const char *flags) {
  begin(file, "clean f");
  Line *f = arg(flags);
  for (int i = 0; i < f->n; i++) f->b[i] = (char)vx_conc(f->b[i]);
  for (int i = 0; i < nL; i++) {
    int q = 0;
    for (int k = 0; k < L[i].n; k++) q ^= L[i].b[k] == '"' || L[i].b[k] == '\'';
    vx_assume(!q);          // quotes in pairs
    clean(&L[i], f);
    out(L[i].b, L[i].n);
  }
  result();
}
static int untab(char *d, const char *s, int n) {
  int k = 0;
  for (int i = 0; i < n; i++) {
    if (s[i] != '\t') { d[k++] = s[i]; continue; }
    do d[k++] = ' '; while (k % 8);
  }
  return k;
}
static void t_tabs(const char *file, const char *flag) {
  static char u[400], v[400], w[400];
  begin(file, "clean f");
  Line *f = arg(flag);
  if (vx_conc(f->b[0]) == 'u') {
    for (int i = 0; i < nL; i++) out(u, untab(u, L[i].b, L[i].n));
    result();
    return;
  }
  go();
  size_t n;
  char *d = vfs_get("f", &n);
  vx_assert(d && n < 390, "the result of the command is wrong");
  memcpy(w, d, n);
  vx_assert(n && w[n - 1] == '\n', "the last line is not ended");
  size_t b = 0, i = 0;
  for (size_t e = 0; e < n; e++) {
    if (w[e] != '\n') continue;
    int k = untab(u, L[i].b, L[i].n), m = untab(v, w + b, (int)(e - b));
    vx_assert(k == m && !memcmp(u, v, k), "tabbing changes the columns");
    for (size_t c = b, col = 0; c < e; c++) { // two spaces before a tab stop with text after it
      if (w[c] == '\t') { col = (col / 8 + 1) * 8; continue; }
      col++;
      vx_assert(c == b || c + 1 == e || col % 8 || w[c] != ' ' || w[c - 1] != ' ', "spaces are not converted to tabs");
    }
    b = e + 1;
    i++;
  }
  vx_assert((int)i == nL, "lines are lost");
  vx_cover("result");
}
static void t_subst(void) {
  begin("^ab^^ab^^ab^b\n^ab^^ab^", "substitute f");
  char e;
  vx_sym_set(&e, 1, "0123", 4, "length of the strings");
  e = (char)vx_conc(e);
  Line *o = arg(e == '0' ? "^ab^" : e == '3' ? "" : "^ab^^ab^"), *r = arg(e == '1' ? "" : "^ab^"), *m;
  if (e == '2') { r->b[r->n++] = '#'; S.n--; tx(&S, "#\""); }
  char w;
  vx_sym_set(&w, 1, "0123aE", 6, "occurrence");
  txn(&S, " ", 1);
  if (w == 'E') tx(&S, "ALL"); else txn(&S, &w, 1);
  m = arg(e == '2' ? "^ab^" : "");
  for (int i = 0; i < nL; i++) {
    int all = w == 'a' || w == 'E', which = w == '0' ? 1 : w - '0', seen = 0, k = 0;
    if (!isin(&L[i], m) || !o->n) { out(L[i].b, L[i].n); continue; }
    for (k = 0; k < L[i].n;) {
      if (at(&L[i], k, o)) {
        seen++;
        if (all || seen == which) { txn(&W, r->b, r->n); k += o->n; continue; }
      }
      txn(&W, &L[i].b[k++], 1);
    }
    out("", 0);
  }
  if (!o->n) { go(); vx_cover("result"); } else result();
}
// joining: "x\n" in the string to replace
static void t_join(int n) {
  begin(n ? "^ab^^ab\n^\n^ab\n^^ab\n^\n" : "^ab\n^b\n\na^ab^\n\n^ab^\n", "substitute f");
  Line *o = arg("^ab^\\n"), *r = arg("^ab^"), *m = 0;
  (void)m;
  tx(&S, " 1 \"\"");
  for (int i = 0; i < nL; i++) {
    // the line end counts as \n: the next line is joined if the string matches there
    if (i + 1 < nL && L[i].n && L[i].b[L[i].n - 1] == o->b[0]) {
      txn(&W, L[i].b, L[i].n - 1);
      txn(&W, r->b, r->n);
      out(L[i + 1].b, L[i + 1].n);
      i++;
      continue;
    }
    out(L[i].b, L[i].n);
  }
  result();
}
static void t_split(void) {
  begin("^ab^^ab^^ab^b\n^ab^^ab^", "substitute f");
  Line *o = arg("^ab^");
  tx(&S, " \"\\n\" ");
  char w;
  vx_sym_set(&w, 1, "12a", 3, "occurrence");
  txn(&S, &w, 1);
  tx(&S, " \"\"");
  for (int i = 0; i < nL; i++) {
    int seen = 0;
    for (int k = 0; k < L[i].n; k++) {
      if (at(&L[i], k, o) && (++seen, w == 'a' || seen == w - '0')) { tx(&W, "\n"); continue; }
      txn(&W, &L[i].b[k], 1);
    }
    out("", 0);
  }
  result();
}
static void t_swap(void) {
  begin("^ab^^ab^^ab^a\n^ab^^ab^", "swap f");
  Line *p = arg("^ab^^ab^");
  if (vx_conc(p->b[1] == 'a')) { S.n -= 2; tx(&S, "\""); p->n = 1; }
  for (int i = 0; i < nL; i++) {
    int k = pos(&L[i], 0, p);
    if (k < 0) { out(L[i].b, L[i].n); continue; }
    txn(&W, L[i].b + k + p->n, L[i].n - k - p->n);
    txn(&W, p->b, p->n);
    out(L[i].b, k);
  }
  result();
}
static void t_insert(void) {
  begin("^ab\n^^ab\n^b^ab\n^^ab\n^", "insert f");
  Line *p = arg("^ab^^bc^");
  int c = (int)num("123456");
  for (int i = 0; i < nL; i++) {
    for (int k = 0; k < c - 1; k++) txn(&W, k < L[i].n ? &L[i].b[k] : " ", 1);
    txn(&W, p->b, p->n);
    if (c - 1 < L[i].n) out(L[i].b + c - 1, L[i].n - c + 1); else out("", 0);
  }
  result();
}
static void t_right(void) {
  begin("^ab\n^^ab\n^b^ab\n^^ab\n^", "right f");
  int w = 0;
  for (int i = 0; i < nL; i++) if (L[i].n > w) w = L[i].n;
  for (int i = 0; i < nL; i++) {
    for (int k = L[i].n; k < w; k++) tx(&W, " ");
    out(L[i].b, L[i].n);
  }
  result();
}
static void t_break(void) {
  begin("^a( \t^^a( ,^^( ,^\n^a \n^^,a ^^a(^", "break f");
  Line *p = arg("^( ^,");
  for (int i = 0; i < nL; i++) {
    int in = 0;
    for (int k = 0; k < L[i].n; k++) {
      char c = L[i].b[k];
      int sp = blank(c), one = !sp && (c == p->b[0] || c == ',');
      if (in && (sp || one)) { tx(&W, "\n"); in = 0; }
      if (sp) continue;
      txn(&W, &c, 1);
      in = 1;
      if (one) { tx(&W, "\n"); in = 0; }
    }
    if (in) tx(&W, "\n");
  }
  result();
}
static void t_build(void) {
  begin("aaaaaaaaaabbbbbbbbbbccccccccccdddddddddd^x\n^eeeeeeeeeeeeeeeeeeeee^x\n^eeeeeeee^x\n^q\n^r \n^s^x\n^\n^x\n^", "build f");
  int n = 0;
  for (int i = 0; i < nL; i++) {
    if (!L[i].n) continue;
    if (n && n + L[i].n > 72) { tx(&W, "\n"); n = 0; }
    if (n) { tx(&W, " "); n++; }
    txn(&W, L[i].b, L[i].n);
    n += L[i].n;
  }
  if (n) tx(&W, "\n");
  result();
}
static void t_match(void) {
  begin("^ab\n^^ab\n^b^ab\n^^ab\n^^ab\n^", "match f");
  char e;
  vx_sym_set(&e, 1, "012", 3, "length of the string");
  e = (char)vx_conc(e);
  Line *p = arg(e == '0' ? "" : e == '1' ? "^ab^" : "^ab^^ab^"), *y = arg("^YyNn^");
  int no = y->b[0] == 'N' || y->b[0] == 'n';
  for (int i = 0; i < nL; i++)
    if ((p->n ? isin(&L[i], p) : L[i].n > 0) != no) out(L[i].b, L[i].n);
  result();
}
static void t_count(void) {
  begin("^ab1\n^^ab1\n^b^ab\n^^ab2\n^^b\n^", "count f");
  char e;
  vx_sym_set(&e, 1, "012", 3, "length of the string");
  e = (char)vx_conc(e);
  Line *p = arg(e == '0' ? "" : e == '1' ? "^ab^" : "^ab^^ab^");
  go();
  same("f", &F, "COUNT changes the file");
  int lines = 0, occ = 0, sum = 0, longest = 0, first = 0, nlongest = 0;
  for (int i = 0; i < nL; i++) {
    lines += isin(&L[i], p);
    for (int k = 0; k < L[i].n; k++) occ += at(&L[i], k, p);
    int v = 0;
    for (int k = 0; k < L[i].n; k++) if (L[i].b[k] >= '0' && L[i].b[k] <= '9') v = v * 10 + L[i].b[k] - '0';
    sum += v;
    if (L[i].n > longest) { longest = L[i].n; first = i + 1; nlongest = 0; }
    nlongest += L[i].n == longest;
  }
  char m[120];
  sprintf(m, "The file has %d lines.  The string \"", nL);
  vx_assert(has(O, On, m), "wrong number of lines");
  if (p->n) {
    sprintf(m, "\" occurs %d times on %d lines.", occ, lines);
    vx_assert(has(O, On, m), "wrong number of occurrences");
  }
  if (longest) {
    sprintf(m, "(out of %d) is line %d and has %d characters", nlongest, first, longest);
    vx_assert(has(O, On, m), "wrong longest line");
  }
  sprintf(m, "the sum of lines is %d\n", sum);
  vx_assert(has(O, On, m), "wrong sum");
  vx_cover("result");
}
static int cmp(const char *a, const char *b) {
  for (; *a == *b; a++, b++) if (!*a) return 0;
  return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
}
static void sort(const Line *key) { // by the text from the key on
  for (int i = 0; i < nL; i++)
    for (int j = i; j > 0; j--) {
      int a = key ? pos(&L[j - 1], 0, key) : 0, b = key ? pos(&L[j], 0, key) : 0;
      if (cmp(L[j - 1].b + (a < 0 ? 0 : a), L[j].b + (b < 0 ? 0 : b)) <= 0) break;
      Line t = L[j];
      L[j] = L[j - 1];
      L[j - 1] = t;
    }
}
static void t_sort(void) {
  begin("^ab\xe4\n^^a\n^b^ab\n^^ab^\n", "sort f");
  char e;
  vx_sym_set(&e, 1, "01", 2, "length of the key");
  e = (char)vx_conc(e);
  Line *k = arg(e == '0' ? "" : "^abc^");
  if (e == '0') {
    sort(k);
    for (int i = 0; i < nL; i++) out(L[i].b, L[i].n);
    result();
    return;
  }
  // lines that compare equal may come in any order: check sortedness and that the lines are the same
  go();
  same("f~1", &F, "the old version of the file is not kept");
  size_t n;
  char *d = vfs_get("f", &n);
  G.n = 0;
  vx_assert(d != 0 && n <= F.n + 1, "the result of the command is wrong");
  txn(&G, d, n);
  nM = split(M, &G);
  vx_assert(nM == nL && G.b[G.n - 1] == '\n', "SORT changes the number of lines");
  for (int i = 0; i + 1 < nM; i++) {
    int a = pos(&M[i], 0, k), b = pos(&M[i + 1], 0, k);
    vx_assert(cmp(M[i].b + (a < 0 ? 0 : a), M[i + 1].b + (b < 0 ? 0 : b)) <= 0, "the lines are not sorted");
  }
  for (int i = 0; i < nL; i++) {
    int a = 0, b = 0;
    for (int j = 0; j < nL; j++) { a += !cmp(L[i].b, L[j].b); b += !cmp(L[i].b, M[j].b); }
    vx_assert(a == b, "SORT changes lines");
  }
  vx_cover("result");
}
static void t_dup(void) {
  char c;
  vx_sym_set(&c, 1, "0123", 4, "command");
  c = (char)vx_conc(c);
  begin("^ab\xe4^^a\n^^ab^\n^ab^\n^ab\n^a\n", c == '0' ? "unduplicate f" : c == '1' ? "duplicate f" : c == '2' ? "unique f" : "reverse f");
  if (c == '3') {
    for (int i = nL; i-- > 0;) out(L[i].b, L[i].n);
    result();
    return;
  }
  sort(0);
  for (int i = 0, j; i < nL; i = j) {
    for (j = i; j < nL && !cmp(L[i].b, L[j].b); j++);
    if (c == '0' || (c == '1' && j > i + 1) || (c == '2' && j == i + 1)) out(L[i].b, L[i].n);
  }
  result();
}
static void t_parallel(void) {
  begin("^ab\n^^ab\n^b^ab\n^", "parallel f g h");
  Line *p = arg("^ab^^ b^");
  txf(&G, "^cd\n^^cd\n^c", "file");
  nM = split(M, &G);
  vfs_put("g", G.b, G.n);
  for (int i = 0; i < nL || i < nM; i++) {
    if (i < nL) txn(&W, L[i].b, L[i].n);
    txn(&W, p->b, p->n);
    if (i < nM) out(M[i].b, M[i].n); else out("", 0);
  }
  go();
  same("f", &F, "PARALLEL changes an input file");
  same("g", &G, "PARALLEL changes an input file");
  same("h", &W, "the result of the command is wrong");
  vx_assert(has(O, On, "The input files each had") == (nL == nM), "wrong message");
  vx_cover("result");
}
static void t_number(void) {
  begin("x\n", "number f");
  int a = (int)num("0123456789"), b = (int)num("0123456789"), s = (int)num("012345");
  if (s || a > b)
    for (int i = a; i <= b; i += s) {
      char d[8];
      sprintf(d, "%d", i);
      out(d, (int)strlen(d));
      if (!s) break;
    }
  go();
  size_t n;
  if (s) {
    same("f", &W, "the result of the command is wrong");
    same("f~1", &F, "the old version of the file is not kept");
  } else vx_assert((vfs_get("f", &n) && n <= 4) || !vfs_get("f", &n), "increment 0");
  vx_cover("result");
}
static void t_copy(void) {
  begin("^ab\n^^ab\n^b", "copy ");
  txf(&G, "^cd^\n\nc^d\n^", "file");
  nM = split(M, &G);
  vfs_put("g", G.b, G.n);
  char l[4], o;
  vx_sym_set(l, 4, "fg", 2, "input files");
  vx_sym_set(&o, 1, "fh", 2, "output file");
  Txt *t = &S;
  for (int i = 0; i < 3; i++) {
    if (i) tx(t, ",");
    txn(t, l + i, 1);
    for (int k = 0; k < (l[i] == 'f' ? nL : nM); k++) {
      Line *p = l[i] == 'f' ? &L[k] : &M[k];
      out(p->b, p->n);
    }
  }
  tx(t, " ");
  txn(t, &o, 1);
  go();
  char name[4] = {(char)vx_conc(o), 0};
  same(name, &W, "the result of the command is wrong");
  if (name[0] == 'f') same("f~1", &F, "the old version of the file is not kept"); else same("f", &F, "COPY changes an input file");
  same("g", &G, "COPY changes an input file");
  vx_cover("result");
}
static void t_type(void) {
  begin("^ab\n^^ab\n^b^ab\n^^ab\n^^ab\n^", "type f ");
  char c;
  vx_sym_set(&c, 1, "0123a", 5, "lines");
  txn(&S, &c, 1);
  for (int i = 0; i < nL && (c == 'a' || i < c - '0'); i++) out(L[i].b, L[i].n);
  go();
  same("f", &F, "TYPE changes the file");
  vx_assert(On >= W.n && !memcmp(O, W.b, W.n), "TYPE shows something else");
  if (On > W.n) vx_assert(On >= W.n + 1 && O[W.n] == 'T', "TYPE shows more");
  vx_cover("result");
}
// a line with null characters does not disturb the others
static void t_null(void) {
  char f[] = "ab\n.c.\n.d\ne\n";
  vx_sym_set(f + 3, 1, "\0x", 2, "null");
  vx_sym_set(f + 5, 1, "\0y", 2, "null");
  vx_sym_set(f + 7, 1, "\0z", 2, "null");
  for (size_t i = 3; i < 8; i++) f[i] = (char)vx_conc(f[i]);
  vfs_put("f", f, sizeof f - 1);
  int k = 0;
  unsigned char c;
  vx_sym_set(&c, 1, "012", 3, "command");
  k = vx_conc(c) - '0';
  mm_script(k == 0 ? "tools\nadd f < >\nexit\nexit\n" : k == 1 ? "tools\nclean f d\nexit\nexit\n" : "tools\nnumber g 1 3 1\nparallel f g h ,\nexit\nexit\n");
  size_t n;
  char *o = vfs_get(k == 2 ? "h" : "f", &n);
  vx_assert(o != 0 && !out_has("?BUG") && has(o, n, k == 0 ? "<ab>\n" : k == 1 ? "ab\n" : "ab,1\n"), "the line before is lost");
  vx_assert(k == 2 || (n > 2 && has(o, n, k == 0 ? "e>\n" : "e\n")), "the line after is lost");
  vx_cover("result");
}
void vx_main(int variant) {
  switch (variant) {
    case 0: t_add(); break;
    case 1: t_tag(); break;
    case 2: t_delete(); break;
    case 3: t_clean("^ \ta\"^^ \tB\"^^ a'^^ \tB^^ \t'^^ b\"^\n^ x^", "^bedrql^,^brqceg^"); break;
    case 4: t_clean("^a\x8d\xe1\xea\xed\xee\xd9\xda\xc0\xbf^^\r\f\b\033\x07\xc4\xf1\xf8\xa6\xb3\xb2^\n", "^pgvrd^,^pgvec^"); break;
    case 5: t_tabs("^a\t^^ \t^^\t ^^\ta^^\t ^^\t^^\t ^\t\n", "^ut^"); break;
    case 6: t_tabs("^a ^  ^ a^   ^ a\t^ ^ \ta^ ^ a^^ \t^x\n^ \ta^^ \ta^^ \ta^", "^ut^"); break;
    case 7: t_subst(); break;
    case 8: t_join(0); break;
    case 9: t_join(1); break;
    case 10: t_split(); break;
    case 11: t_swap(); break;
    case 12: t_insert(); break;
    case 13: t_right(); break;
    case 14: t_break(); break;
    case 15: t_build(); break;
    case 16: t_match(); break;
    case 17: t_count(); break;
    case 18: t_sort(); break;
    case 19: t_dup(); break;
    case 20: t_parallel(); break;
    case 21: t_number(); break;
    case 22: t_copy(); break;
    case 23: t_type(); break;
    case 24: t_null(); break;
  }
}
