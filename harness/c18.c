// SHOW STATEMENT: what is displayed about an assertion is what the language specification says about it.
#include "db.h"
static Txt S, W;
static const char *at, *end;
static int at_line(const char *s) { size_t n = strlen(s); return (size_t)(end - at) >= n && !memcmp(at, s, n); }
static void next(const char *msg) { // the next line is W
  vx_assert((size_t)(end - at) >= W.n && !memcmp(at, W.b, W.n), msg);
  at += W.n;
  W.n = 0;
}
static void tok(RTok t) { txn(&W, t.p, t.n); }
static void num(long v) { char b[16]; sprintf(b, "%ld", v); tx(&W, b); }
static int statements(const char *p) { // statements that start before p
  int c = 0, com = 0;
  for (const char *q = T.b; q + 1 < p; q++) {
    if (*q != '$') continue;
    q++;
    if (*q == '(') com = 1;
    if (*q == ')') com = 0;
    if (!com && (*q == '{' || *q == '}' || *q == 'c' || *q == 'v' || *q == 'd' || *q == 'f' || *q == 'e' || *q == 'a' || *q == 'p')) c++;
  }
  return c;
}
static void formula(int k) {
  RSt *s = &R.st[k];
  tok(s->label);
  tx(&W, " $");
  txn(&W, &s->kind, 1);
  tx(&W, " ");
  for (int i = 0; i < s->x.n; i++) { tok(R.sym[s->x.s[i]].t); tx(&W, " "); }
  tx(&W, s->kind == 'p' ? "$= ... $.\n" : "$.\n");
}
static int var(const char *p, int n) { RTok t = {p, n}; for (int i = 0; i < R.nsym; i++) if (R.sym[i].isvar && r_same(t, R.sym[i].t)) return i; return -1; }
static int pairs[RM_SYM][RM_SYM];
static void pair(int a, int b) { vx_assert(a >= 0 && b >= 0 && a != b, "a pair of something else"); pairs[a][b] = pairs[b][a] = 1; }
static void check_pairs(RSt *s, const char *msg) {
  int want[RM_SYM][RM_SYM];
  for (int i = 0; i < R.nsym; i++) for (int j = 0; j < R.nsym; j++) want[i][j] = 0;
  for (int i = 0; i < s->nd; i++) want[s->da[i]][s->db[i]] = want[s->db[i]][s->da[i]] = 1;
  for (int i = 0; i < R.nsym; i++) for (int j = 0; j < R.nsym; j++) vx_assert(want[i][j] == pairs[i][j], msg);
}
static void clear(void) { for (int i = 0; i < R.nsym; i++) for (int j = 0; j < R.nsym; j++) pairs[i][j] = 0; }
static void brief(int k) {
  RSt *s = &R.st[k];
  clear();
  if (at_line("$d")) {
    int g[20], n = 0, any = 0;
    while (at < end && *at != '\n') {
      const char *w = at;
      while (at < end && *at != ' ' && *at != '\n') at++;
      int l = (int)(at - w);
      while (at < end && *at == ' ') at++;
      if (l == 2 && *w == '$') { if (w[1] == 'd') n = 0; else any |= n < 2; continue; }
      g[n] = var(w, l);
      for (int i = 0; i < n; i++) pair(g[i], g[n]);
      n++;
    }
    vx_assert(!any, "a distinct variable group of one variable");
    at++;
  }
  check_pairs(s, "SHOW STATEMENT shows other distinct variable conditions");
  for (int i = 0; i < s->nh; i++) {
    RSt *h = &R.st[s->h[i]];
    if (h->kind != 'e') continue;
    num(statements(h->label.p) + 1); tx(&W, " "); formula(s->h[i]);
    next("SHOW STATEMENT shows a wrong hypothesis");
  }
  num(statements(s->label.p) + 1); tx(&W, " "); formula(k);
  next("SHOW STATEMENT shows a wrong assertion");
  vx_assert(at == end, "SHOW STATEMENT shows more");
}
static void varlist(const char *head, RSt *s) { // the variables in it, in any order
  int seen[RM_SYM] = {0}, n = 0, c = 0;
  tx(&W, head);
  next("the variables are missing");
  for (int i = 0; i < s->nh; i++) n += R.st[s->h[i]].kind == 'f';
  if (!n) { tx(&W, "(None)\n"); next("there are no variables"); return; }
  while (at < end) {
    const char *w = at;
    while (at < end && *at != ' ' && *at != '\n') at++;
    int v = var(w, (int)(at - w)), ok = 0;
    for (int i = 0; i < s->nh; i++) ok |= R.st[s->h[i]].kind == 'f' && R.st[s->h[i]].x.s[1] == v;
    vx_assert(ok && !seen[v], "SHOW STATEMENT lists another variable");
    seen[v] = 1;
    c++;
    if (*at++ == '\n') break;
  }
  vx_assert(c == n, "SHOW STATEMENT does not list all variables");
}
static int skipto(const char *s) { // skip the lines before s
  while (at < end) {
    if (at_line(s)) return 1;
    while (at < end && *at != '\n') at++;
    at++;
  }
  return 0;
}
static void full(int k, int nap, const char *desc) {
  RSt *s = &R.st[k];
  int ln = 1, ln2; // from the label to the keyword
  const char *q = T.b;
  for (; q < s->label.p; q++) ln += *q == '\n';
  for (ln2 = ln; *q != '$'; q++) ln2 += *q == '\n';
  tx(&W, "Statement "); num(statements(s->label.p) + 1); tx(&W, " is located on line ");
  { int l = 0; for (const char *c = at + W.n; *c >= '0' && *c <= '9'; c++) l = l * 10 + *c - '0'; vx_assert(l >= ln && l <= ln2, "SHOW STATEMENT shows a wrong line"); num(l); }
  tx(&W, " of the file \"t.mm\".  Its statement number");
  for (size_t i = 0; i < W.n; i++) if (at[i] == '\n') W.b[i] = '\n'; // may be wrapped
  next("SHOW STATEMENT shows a wrong place");
  at++;
  tx(&W, "for HTML pages is "); num(nap); tx(&W, ".\n");
  for (size_t i = 0; i < W.n; i++) if (at[i] == '\n') W.b[i] = '\n';
  next("SHOW STATEMENT shows a wrong number");
  if (desc) { tx(&W, "\""); tx(&W, desc); tx(&W, "\"\n"); next("SHOW STATEMENT shows another description"); }
  else vx_assert(at_line("?Warning: Statement"), "SHOW STATEMENT shows a description of something else");
  vx_assert(skipto("Its mandatory hypotheses"), "no hypotheses");
  tx(&W, "Its mandatory hypotheses in RPN order are:\n");
  for (int i = 0; i < s->nh; i++) { tx(&W, "  "); formula(s->h[i]); }
  if (!s->nh) tx(&W, "  (None)\n");
  next("SHOW STATEMENT shows other mandatory hypotheses");
  clear();
  static const char dv[] = "Its mandatory disjoint variable pairs are:  ";
  if (at_line(dv)) {
    at += strlen(dv);
    while (at < end && at[-1] != '\n') {
      vx_assert(*at == '<', "malformed pair");
      const char *a = ++at;
      while (*at != ',') at++;
      int va = var(a, (int)(at - a));
      a = ++at;
      while (*at != '>') at++;
      pair(va, var(a, (int)(at - a)));
      at++;
      if (*at == ',') { at += 2; while (*at == ' ') at++; } else { vx_assert(*at == '\n', "malformed pairs"); at++; }
    }
  }
  check_pairs(s, "SHOW STATEMENT shows other mandatory pairs");
  vx_assert(skipto("The statement and its"), "no variables");
  varlist("The statement and its hypotheses require the variables:  ", s);
  vx_assert(skipto("The variables it contains"), "no variables");
  varlist("The variables it contains are:  ", s);
  vx_assert(at == end, "SHOW STATEMENT shows more");
}
#define P0 "$c ( ) W |- $. $v p q r s x $.\nwp $f W p $. wq $f W q $. wr $f W r $. ws $f W s $. wx $f W x $.\nwi $a W ( p q ) $.\n"
void vx_main(int v) {
  const char *desc[RM_ST] = {0};
  T.n = S.n = W.n = 0;
  int first = 6;
  switch (v) {
  case 0: // groups of two and three variables
    tx(&T, P0);
    txk(&T, "$d p ^qr^ $. $d ^qrx^ s $. $d r ^pqs^ ^qxs^ $.\n", "d");
    tx(&T, "${ m $e |- ( q r ) $. ax $a |- ( p s ) $. $}\n t $p |- ( s ( q p ) ) $= ? $.\n");
    break;
  case 1: // many pairs of four variables
    tx(&T, P0 "$d p q $. ");
    txk(&T, "$d r ^pq^ $. $d s ^pq^ $. $d r s^ x^ $. $d ^pq^ ^rs^ $. $d p ^qr^ s $.", "d");
    tx(&T, "\nax $a |- ( ( p q ) ( r s ) ) $. b $a |- ( s p ) $.\n");
    break;
  case 2: // scopes
    tx(&T, P0);
    txk(&T, "${ m1 $e |- ^pq^ $. $d ^pq^ r $. ${ m2 $e |- ( ^qr^ s ) $. $d s ^pr^ $.\n", "s");
    tx(&T, "a1 $a |- r $. ");
    tx(&T, "$} a2 $a |- p $. ");
    txk(&T, "${ m3 $e |- ^xs^ $. ", "s");
    tx(&T, "$( c $)\n a3 $p |- r $= ? $. $} $}\n a4 $a |- ");
    txk(&T, "^pqx)^ $. $d p q $. a5 $a |- ( p q ) $.\n", "s");
    break;
  case 3: // places: line ends and descriptions
    tx(&T, P0);
    txk(&T, "$d p q $.^ \n^$( c $)^ \n^ a1^ \n^$a |- p $.^ \n^${^ \n^m $e |- q $.^ \n^ a2^ \n^$a |- p $. $( d $)^ \n^ $} a3 $a |- p $. a4 $a |- ^pq^ $.\n", "l");
    break;
  case 4: // declaration order
    tx(&T, "$c W |- $. ");
    txk(&T, "$v p q ^rs^ $. v^12^ $f W ^qp^ $. v^12^ $f W ^qp^ $. ${ h1 $e |- ^pq^ $. v3 $f W ^rs^ $. h2 $e |- ^rsq^ $. ", "o");
    tx(&T, "a1 $a |- p $. a2 $a |- r $. $}\n");
    first = 0;
    break;
  }
  vfs_put("t.mm", T.b, T.n);
  ref_check(&R, T.b, T.n);
  if (R.err && R.err != R_INCOMPLETE) { vx_cover(R.why); return; }
  tx(&S, "read t.mm\n");
  for (int k = first; k < R.nst; k++) {
    if (R.st[k].kind == 'f' || R.st[k].kind == 'e') continue;
    for (int f = 0; f < 2; f++) { tx(&S, "show statement "); txn(&S, R.st[k].label.p, R.st[k].label.n); tx(&S, f ? " / full\n" : "\n"); }
    // the description is the comment right before the label
    const char *q = R.st[k].label.p;
    while (q > T.b && (q[-1] == ' ' || q[-1] == '\n')) q--;
    if (q - T.b > 7 && q[-1] == ')' && q[-2] == '$') desc[k] = q[-4] == 'c' ? "c" : "d";
  }
  tx(&S, "exit\n");
  db_run(S.b);
  vx_assert(!db_reject, "an error is reported");
  int seg = 2, nap = first ? 1 : 0;
  for (int k = first; k < R.nst; k++) {
    if (R.st[k].kind == 'f' || R.st[k].kind == 'e') continue;
    nap++;
    size_t n;
    at = out_seg(seg++, &n);
    end = at + n;
    brief(k);
    at = out_seg(seg++, &n);
    end = at + n;
    full(k, nap, desc[k]);
  }
  vx_cover("shown");
}
