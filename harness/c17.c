// SHOW PROOF: the displayed proof is the stored one, step by step, in every layout.
#include "db.h"
#define MS 90
typedef struct { int k, loc, decl, nr, r[RM_HYP]; RExpr x; int tgt, depth, ess; } Step; // loc: repeats this earlier step; r: hypotheses
static Step P[MS];
static int np, me;
static Txt S, W;
typedef struct { const char *p; int n; } Word;
static Word wd[80];
static int nw, indent;
static const char *line(const char *p, const char *e) { // words of one line
  nw = 0;
  while (p < e && *p != '\n') {
    if (*p == ' ') { p++; continue; }
    const char *s = p;
    while (p < e && *p != ' ' && *p != '\n') p++;
    vx_assert(nw < 80, "ref: words");
    wd[nw].p = s; wd[nw].n = (int)(p - s);
    if (nw == 1) indent = (int)(s - wd[0].p) - wd[0].n;
    nw++;
  }
  return p < e ? p + 1 : e;
}
static int num(const char *p, int n) { int v = 0; if (!n) return -1; while (n--) { if (*p < '0' || *p > '9') return -1; v = v * 10 + *p++ - '0'; } return v; }
static int wis(int i, const char *s) { return i < nw && (int)strlen(s) == wd[i].n && !memcmp(wd[i].p, s, wd[i].n); }
static int lab(const char *p, int n) { RTok t = {p, n}; return r_findlabel(&R, t); }
static void apply(int k, const int *r, RExpr *x) { // the result of using assertion k
  RSt *s = &R.st[k];
  x->n = 0;
  for (int j = 0; j < s->x.n; j++) {
    int c = s->x.s[j], i;
    for (i = 0; i < s->nh; i++) if (R.st[s->h[i]].kind == 'f' && R.st[s->h[i]].x.s[1] == c) break;
    if (i == s->nh) { x->s[x->n++] = (short)c; continue; }
    RExpr *u = &P[r[i]].x;
    for (int m = 1; m < u->n; m++) x->s[x->n++] = u->s[m];
  }
}
static int formula(int w, RExpr *x) { // words from w on are x
  if (nw - w != x->n) return 0;
  for (int i = 0; i < x->n; i++) { RTok t = {wd[w + i].p, wd[w + i].n}; if (!r_same(t, R.sym[x->s[i]].t)) return 0; }
  return 1;
}
static void addnum(int v) { char b[12]; sprintf(b, "%d", v); tx(&W, b); }
static void addtok(RTok t) { txn(&W, t.p, t.n); }
static void addformula(int i) {
  char k[5] = {' ', '$', R.st[P[i].k].kind, 0};
  tx(&W, k);
  for (int j = 0; j < P[i].x.n; j++) { tx(&W, " "); addtok(R.sym[P[i].x.s[j]].t); }
  tx(&W, "\n");
}
static int expd(int i, int at) { // the steps of the subproof i, labels expanded, are r_rec[..at]
  if (P[i].loc >= 0) return expd(P[i].loc, at);
  vx_assert(at >= 0 && r_rec[at] == P[i].k, "SHOW PROOF shows another step than that of the proof");
  at--;
  for (int j = P[i].nr - 1; j >= 0; j--) at = expd(P[i].r[j], at);
  return at;
}
// the complete display with step references
static void table(const char *o, size_t n) {
  const char *e = o + n;
  int st[MS], sp = 0;
  np = 0;
  for (; o < e; np++) {
    o = line(o, e);
    Step *p = &P[np];
    vx_assert(nw >= 4 && np < MS, "malformed line");
    vx_assert(num(wd[0].p, wd[0].n) == np + 1, "steps are not numbered in order");
    int w = 1;
    p->loc = -1; p->nr = p->decl = p->depth = p->ess = 0; p->tgt = -1;
    if (wd[1].p[0] == '@') {
      int l = num(wd[1].p + 1, wd[1].n - 1) - 1;
      vx_assert(l >= 0 && l < np && P[l].decl && P[l].loc < 0, "a repeated step refers to no earlier step");
      p->loc = l;
      p->k = P[l].k;
      p->x = P[l].x;
    } else {
      int refs[RM_HYP], nrf = 0;
      if (wd[1].p[0] >= '0' && wd[1].p[0] <= '9') {
        for (int i = 0; i < wd[1].n;) {
          int j = i;
          while (j < wd[1].n && wd[1].p[j] != ',') j++;
          refs[nrf++] = num(wd[1].p + i, j - i) - 1;
          i = j + 1;
        }
        w = 2;
      }
      p->k = lab(wd[w].p, wd[w].n);
      vx_assert(p->k >= 0, "a step has no known label");
      RSt *s = &R.st[p->k];
      int nh = s->kind == 'a' || s->kind == 'p' ? s->nh : 0;
      vx_assert(nrf == nh && sp >= nh, "wrong number of references");
      for (int i = 0; i < nh; i++) {
        vx_assert(refs[i] == st[sp - nh + i], "a step refers to the wrong steps");
        p->r[i] = refs[i];
        P[refs[i]].tgt = s->h[i];
      }
      sp -= nh;
      p->nr = nh;
      if (s->kind == 'f' || s->kind == 'e') p->x = s->x; else apply(p->k, p->r, &p->x);
      if (wd[w + 1].p[0] == '@') {
        vx_assert(wd[w + 1].p[wd[w + 1].n - 1] == ':' && num(wd[w + 1].p + 1, wd[w + 1].n - 2) == np + 1, "a step is declared under another number");
        p->decl = 1;
        w++;
      }
    }
    st[sp++] = np;
    char k[3] = {'$', R.st[p->k].kind, 0};
    vx_assert(wis(w + 1, k), "wrong type of statement");
    vx_assert(formula(w + 2, &p->x), "SHOW PROOF shows a wrong formula");
  }
  vx_assert(sp == 1 && expd(np - 1, r_recn - 1) == -1, "SHOW PROOF shows something else than the proof");
  P[np - 1].tgt = me;
  P[np - 1].ess = 1;
  for (int i = np - 1; i >= 0; i--)
    for (int j = 0; j < P[i].nr; j++) {
      Step *q = &P[P[i].r[j]];
      q->depth = P[i].depth + 1;
      q->ess = P[i].ess && R.st[q->tgt].kind == 'e';
    }
}
enum { ALL = 1, LEM = 2, REN = 4, NOREP = 8, REV = 16 };
static void lines(int fl, int from, int to, int depth) { // the expected lines
  int nn[MS], c = 0, to0[MS];
  W.n = 0;
  for (int i = 0; i < np; i++) { // where a repeated step is found
    to0[i] = i;
    if (!(fl & NOREP)) continue;
    if (P[i].loc >= 0) to0[i] = P[i].loc;
    else if (!P[i].nr) for (int j = 0; j < i; j++) if (P[j].loc < 0 && P[j].k == P[i].k) { to0[i] = j; break; }
    to0[i] = to0[to0[i]];
  }
  for (int i = 0; i < np; i++) nn[i] = to0[i] != i ? 0 : (fl & REN) && !(fl & ALL) && !P[i].ess ? 0 : ++c;
  for (int q = 0; q < np; q++) {
    int i = fl & REV ? np - 1 - q : q;
    if (!(fl & ALL) && !P[i].ess) continue;
    if ((from && i + 1 < from) || (to && i + 1 > to) || (depth && P[i].depth >= depth) || to0[i] != i) continue;
    addnum(nn[i]);
    tx(&W, " ");
    if (!(fl & LEM)) {
      for (int j = 0; j < P[i].depth; j++) tx(&W, "  ");
      if (P[i].decl) { addnum(nn[i]); tx(&W, ":"); }
      addtok(R.st[P[i].tgt].label);
      tx(&W, "=");
      if (P[i].loc >= 0) addnum(nn[P[i].loc]); else addtok(R.st[P[i].k].label);
    } else if (P[i].loc >= 0) { tx(&W, "@"); addnum(nn[P[i].loc]); }
    else {
      int any = 0;
      for (int j = 0; j < P[i].nr; j++) {
        if (!(fl & ALL) && R.st[P[P[i].r[j]].tgt].kind != 'e') continue;
        if (any++) tx(&W, ",");
        addnum(nn[to0[P[i].r[j]]]);
      }
      if (any) tx(&W, " ");
      addtok(R.st[P[i].k].label);
      if (P[i].decl && !(fl & NOREP)) { tx(&W, " @"); addnum(nn[i]); tx(&W, ":"); }
    }
    addformula(i);
  }
}
static void same(const char *o, size_t n, int tree) {
  const char *e = o + n, *w = W.b, *we = W.b + W.n;
  Word h[80];
  while (o < e) {
    vx_assert(w < we, "too many lines");
    w = line(w, we);
    int m = nw, in = indent;
    memcpy(h, wd, sizeof h);
    o = line(o, e);
    vx_assert(m == nw, "a line has other words");
    for (int i = 0; i < m; i++) vx_assert(h[i].n == wd[i].n && !memcmp(h[i].p, wd[i].p, h[i].n), "a line has other words");
    if (tree) {
      int dl = 0; // the label of a repeated step is in the indentation
      for (int i = 0; i < h[1].n; i++) if (h[1].p[i] == ':') dl = i + 1;
      if (in - 1 >= dl) vx_assert(indent + dl == in, "wrong indentation");
    }
  }
  vx_assert(w == we, "lines are missing");
}
typedef struct { const char *q; int fl, from, to, depth; } Qual;
static Qual QF;
static const Qual Q[] = {
  {" / lemmon", LEM, 0, 0, 0}, {" / all", ALL, 0, 0, 0}, {"", 0, 0, 0, 0}, {" / renumber", REN, 0, 0, 0}, {" / lemmon / renumber", LEM | REN, 0, 0, 0},
  {" / lemmon / all / no_repeated_steps", LEM | ALL | NOREP, 0, 0, 0}, {" / lemmon / no_repeated_steps / renumber", LEM | NOREP | REN, 0, 0, 0},
  {" / all / reverse", ALL | REV, 0, 0, 0}, {" / essential / lemmon / reverse", LEM | REV, 0, 0, 0}, {" / all / from_step 4", ALL, 4, 0, 0},
  {" / all / to_step 5 / lemmon", ALL | LEM, 0, 5, 0}, {" / all / depth 2", ALL, 0, 0, 2}, {" / from_step 2 / to_step 12 / reverse / depth 3", REV, 2, 12, 3},
  {" / all / lemmon / start_column 3", ALL | LEM, 0, 0, 0}};
static int nq = (int)(sizeof Q / sizeof *Q);
static const Qual *qs = Q;
#include "gen.h"
void vx_main(int v) {
  T.n = S.n = 0;
  const char *first = "";
  switch (v) {
  case 0: generate(4); break;
  case 1: generate(5); first = "save proof t / compressed\n"; break;
  case 2: // repeated steps
    tx(&T, P0 AX);
    txf(&T, "t $p |- ( ( r r ) ( ( r r ) ( r r ) ) ) $= ( wi ax ) A^AZ^^ABZD^^ABZD^^ZABCDE^^ZABCDE^^ABCDE ^^ABCDE ^^BC ^ $.\n", "p");
    break;
  case 4: first = "save proof t / compressed\n"; // fall through
  case 3: // a theorem used with hypotheses; a proof that is one step
    tx(&T, P0 AX "${ h1 $e |- p $. h2 $e |- q $. h3 $e |- ( q s ) $. u $p |- s $= wq ws h2 h3 mp $. w $p |- ( p q ) $= ? $. $}\n${ k1 $e |- r $. k2 $e |- ( r r ) $. ");
    txf(&T, "k3 $e |- r $. t1 $p |- r $= k^13^ $. t $p |- r $= ^wk^^1rs^ wr wr ^kw^^1i^ ^k^^123^ ^kt^^12^ u $. $}\n", "p");
    break;
  case 5: { // any combination of qualifiers
    tx(&T, P0 AX "${ n1 $e |- p $. n2 $e |- q $. an $a |- ( p q ) $. $}\n${ h1 $e |- r $. h2 $e |- ( r s ) $. t $p |- ");
    char c;
    vx_sym_set(&c, 1, "abc", 3, "proof");
    c = (char)vx_conc(c);
#define SUB "wr wr h1 h1 an "
    tx(&T, c == 'a' ? "( ( r r ) ( r r ) ) $= wr wr wi wr wr wi " SUB SUB "an $. $}\n" : c == 'b' ? "( s ( r s ) ) $= ws wr ws wi wr ws h1 h2 mp h2 an $. $}\n" : "( ( r s ) ( s ( r s ) ) ) $= wr ws wi ws ax $. $}\n");
    vx_sym_set(&c, 1, "nc", 2, "format");
    if (vx_conc(c) == 'c') first = "save proof t / compressed\n";
    static char qb[160];
    static const char *const nm[] = {" / all", " / lemmon", " / renumber", " / no_repeated_steps", " / reverse"};
    QF.fl = 0;
    qb[0] = 0;
    for (int i = 0; i < 5; i++) {
      if (i == 3 && !(QF.fl & LEM)) continue;
      vx_sym_set(&c, 1, "ny", 2, nm[i] + 3);
      if (vx_conc(c) == 'y') { QF.fl |= 1 << i; strcat(qb, nm[i]); }
    }
    vx_sym_set(&c, 1, "036", 3, "from");
    c = (char)vx_conc(c);
    QF.from = c - '0';
    if (QF.from) { strcat(qb, " / from_step "); strncat(qb, &c, 1); }
    vx_sym_set(&c, 1, "059", 3, "to");
    c = (char)vx_conc(c);
    QF.to = c - '0';
    if (QF.to) { strcat(qb, " / to_step "); strncat(qb, &c, 1); }
    vx_sym_set(&c, 1, "023", 3, "depth");
    c = (char)vx_conc(c);
    QF.depth = c - '0';
    if (QF.depth) { strcat(qb, " / depth "); strncat(qb, &c, 1); }
    QF.q = qb;
    qs = &QF;
    nq = 1;
    break;
  }
  }
  vfs_put("t.mm", T.b, T.n);
  ref_check(&R, T.b, T.n);
  if (R.err && R.err != R_INCOMPLETE) { vx_cover("rejected"); return; }
  { RTok t = {"t", 1}; me = r_findlabel(&R, t); }
  tx(&S, "read t.mm\n");
  tx(&S, first);
  tx(&S, "show proof t / all / lemmon\n");
  for (int i = 0; i < nq; i++) { tx(&S, "show proof t"); tx(&S, qs[i].q); tx(&S, "\n"); }
  tx(&S, "exit / force\n");
  db_run(S.b);
  vx_assert(!db_reject, "an error is reported");
  size_t n;
  int seg = 2 + !!*first;
  const char *o = out_seg(seg++, &n);
  vx_assert(o != 0, "no proof is shown");
  table(o, n);
  for (int i = 0; i < nq; i++) {
    o = out_seg(seg++, &n);
    vx_assert(o != 0, "no proof is shown");
    lines(qs[i].fl, qs[i].from, qs[i].to, qs[i].depth);
    same(o, n, !(qs[i].fl & LEM));
  }
  for (int i = 0; i < np; i++) if (P[i].loc >= 0) { vx_cover("repeated"); break; }
  vx_cover("shown");
}
