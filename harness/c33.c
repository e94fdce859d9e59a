// EXPAND replaces the uses of theorems by their proofs.
#define TX 40000
#include "db.h"
static Txt D, E;
static int pick(int n) {
  unsigned char k = 0;
  if (n < 2) return 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
// statements that proofs refer to; the first are in the order of the mandatory hypotheses
enum { WP, WQ, WR, WI, AX, MP, CUT, WID, L0, L1, L2, L3, HYP, UNK, NST };
static const char *const NAME[] = {"wp", "wq", "wr", "wi", "ax", "mp", "cut", "lid", "l0", "l1", "l2", "m3", "h", "?"};
typedef struct { int st, n; unsigned short c[4]; } Nd; // a step and those that prove its hypotheses
static Nd N[3000];
static int nN;
static int nd(int st, int n, int a, int b, int c, int d) {
  vx_assert(nN < 3000, "harness: no room");
  N[nN] = (Nd){st, n, {a, b, c, d}};
  return nN++;
}
// formulas: 0 to 2 variables, else pairs
static struct { int a, b; } F[60];
static int nF = 3;
static int imp(int a, int b) { F[nF].a = a; F[nF].b = b; return nF++; }
static int isimp(int f) { return f > 2; }
static int eq(int f, int g) { return f == g || (isimp(f) && isimp(g) && eq(F[f].a, F[g].a) && eq(F[f].b, F[g].b)); }
static void show(Txt *t, int f) {
  if (!isimp(f)) { tx(t, f == 0 ? "p" : f == 1 ? "q" : "r"); return; }
  tx(t, "( "); show(t, F[f].a); tx(t, " > "); show(t, F[f].b); tx(t, " )");
}
static int top, hyp, lids, unk, budget; // lemmas that exist, formula of the hypothesis, whether the lemma for ( p > p ) and unknown steps are used
static int wff(int f) {
  if (!isimp(f)) return nd(WP + f, 0, 0, 0, 0, 0);
  if (lids && eq(F[f].a, F[f].b)) return nd(WID, 1, wff(F[f].a), 0, 0, 0);
  int a = wff(F[f].a);
  return nd(WI, 2, a, wff(F[f].b), 0, 0);
}
// a proof of |- f; every choice but the first uses the budget
static int prove(int f, int depth) {
  int k = budget && depth ? pick(8) : 0, a, b, c, d;
  if (k) budget--;
  switch (k) {
  case 0: // the hypothesis or the axiom
    if (hyp >= 0 && eq(hyp, f)) return nd(HYP, 0, 0, 0, 0, 0);
    return nd(AX, 1, wff(f), 0, 0, 0);
  case 1:
    vx_assume(isimp(f));
    a = wff(F[f].a); b = wff(F[f].b); c = prove(F[f].a, depth - 1); d = prove(F[f].b, depth - 1);
    return nd(MP, 4, a, b, c, d);
  case 2: { // by another formula: a variable, or a pair
    int x = pick(3);
    x = x == 0 ? 2 : x == 1 ? 0 : imp(1, 1);
    a = wff(f); b = wff(x); c = prove(x, depth - 1); d = prove(f, depth - 1);
    return nd(CUT, 4, a, b, c, d);
  }
  case 3:
    vx_assume(unk);
    return nd(UNK, 0, 0, 0, 0, 0);
  case 4: // |- p
    vx_assume(top > 0);
    return nd(L0, 1, wff(f), 0, 0, 0);
  case 5: // |- p => |- ( p > q )
    vx_assume(top > 1 && isimp(f));
    a = wff(F[f].a); b = wff(F[f].b);
    return nd(L1, 3, a, b, prove(F[f].a, depth - 1), 0);
  case 6: // |- q => |- ( p > q ), with $f before and after
    vx_assume(top > 2 && isimp(f));
    a = wff(F[f].a); b = wff(F[f].b);
    return nd(L2, 3, a, b, prove(F[f].b, depth - 1), 0);
  default: // |- p, |- p => |- p
    vx_assume(top > 3);
    a = wff(f); b = prove(f, depth - 1);
    return nd(L3, 3, a, b, prove(f, depth - 1), 0);
  }
}
static int proof[NST]; // of the theorems
static void rpn(Txt *t, int k) {
  for (int i = 0; i < N[k].n; i++) rpn(t, N[k].c[i]);
  tx(t, " "); tx(t, NAME[N[k].st]);
}
// the proof k of a theorem with the hypotheses of u proved; WR etc. that it does not need are unknown
static int nvars(int st) { return st == L1 || st == L2 ? 2 : 1; }
static int subst(int k, int u) {
  int st = N[k].st, m = N[u].st, c[4] = {0};
  if (st <= WR) return st < nvars(m) ? N[u].c[st] : nd(UNK, 0, 0, 0, 0, 0);
  if (st == HYP) return N[u].c[nvars(m)];
  if (st == HYP + 100) return N[u].c[nvars(m) + 1];
  for (int i = 0; i < N[k].n; i++) c[i] = subst(N[k].c[i], u);
  return nd(st, N[k].n, c[0], c[1], c[2], c[3]);
}
static int expand(int k, int l) {
  int c[4] = {0};
  for (int i = 0; i < N[k].n; i++) c[i] = expand(N[k].c[i], l);
  int u = nd(N[k].st, N[k].n, c[0], c[1], c[2], c[3]);
  return N[k].st == l ? subst(proof[l], u) : u;
}
static int uses(int k, int l) {
  if (N[k].st == l) return 1;
  for (int i = 0; i < N[k].n; i++) if (uses(N[k].c[i], l)) return 1;
  return 0;
}
static int matches(int l, int pat) { // lid, l0, l1, l2, m3
  switch (pat) {
  case 0: return 1; // *
  case 1: return l == L1; // l1
  case 2: return l != L3; // l*
  case 3: return l == L3 || l == WID; // m3,lid
  case 4: return l == L0 || l == L1 || l == L2; // l?,ax but not lid; $a are never replaced
  default: return 0; // x,ax,mp,h,wp
  }
}
static const char *const PAT[] = {"*", "l1", "l*", "m3,lid", "l?,ax", "x,ax,mp,h,wp"};
static void saved(const char *label, int k, int was, const char *what) { // the proof of the theorem t in o.mm
  size_t n;
  char *o = vfs_get("o.mm", &n), *p = 0;
  vx_assert(o != 0 && !out_has("?BUG"), "the session does not end");
  for (size_t i = 0; i + 4 < n; i++) if (o[i] == '\n' && !strncmp(o + i + 1, label, strlen(label)) && !strncmp(o + i + 1 + strlen(label), " $p", 3)) p = o + i;
  vx_assert(p != 0, "the theorem is lost");
  while (strncmp(p, "$=", 2)) p++;
  p += 2;
  E.n = 0;
  rpn(&E, k);
  size_t e = 0;
  while (1) {
    while (*p == ' ' || *p == '\n') p++;
    if (!strncmp(p, "$.", 2)) break;
    vx_assert(e < E.n && E.b[e] == ' ', what);
    for (e++; *p > ' '; p++, e++) vx_assert(e < E.n && E.b[e] == *p, what);
    vx_assert(e == E.n || E.b[e] == ' ', what);
  }
  vx_assert(e == E.n, what);
}
static void theorem(int l, int p, int q) { // text with the proof
  tx(&D, NAME[l]); tx(&D, " $p |- ");
  show(&D, l == L0 || l == L3 ? 0 : imp(p, q));
  tx(&D, " $=");
  rpn(&D, proof[l]);
  tx(&D, " $.\n");
}
void vx_main(int v) {
  vx_libc_init();
  D.n = 0;
  tx(&D, "$c |- wff ( ) > $. $v p q r $. wp $f wff p $. wq $f wff q $. wr $f wff r $.\n"
         "wi $a wff ( p > q ) $.\nax $a |- p $.\n"
         "${ mp.1 $e |- p $. mp.2 $e |- q $. mp $a |- ( p > q ) $. $}\n"
         "${ cut.1 $e |- q $. cut.2 $e |- p $. cut $a |- p $. $}\n"
         "lid $p wff ( p > p ) $= wp wp wi $.\n");
  int a = nd(WP, 0, 0, 0, 0, 0);
  proof[WID] = nd(WI, 2, a, nd(WP, 0, 0, 0, 0, 0), 0, 0);
  // variant 0: the lemmas vary; 1: the theorem; 2: both; 3: history
  int lem = v == 0 ? 2 : v == 1 ? 0 : 1, th = v == 1 ? 2 : 1;
  unk = v != 1; lids = v == 1 || v == 2 ? 1 : pick(2);
  int only = v == 0 ? pick(4) : v == 2 ? pick(4) : -1; // the lemma that varies
  // l0
  hyp = -1; top = 0;
  budget = only == 0 ? lem : 0;
  proof[L0] = prove(0, 2);
  if (only && pick(2)) { a = wff(0); int b = wff(2), c = nd(AX, 1, wff(2), 0, 0, 0); proof[L0] = nd(CUT, 4, a, b, c, nd(AX, 1, wff(0), 0, 0, 0)); }
  theorem(L0, 0, 0);
  top = 1;
  // l1: uses h twice, l0 and a dummy formula
  tx(&D, "${ h $e |- p $.\n");
  hyp = 0;
  budget = only == 1 ? lem : 0;
  if (budget) proof[L1] = prove(imp(0, 1), 2);
  else {
    a = wff(0); int b = wff(1), c = nd(HYP, 0, 0, 0, 0, 0), e = nd(L0, 1, wff(1), 0, 0, 0), u = nd(MP, 4, a, b, c, e), w = wff(imp(0, 1));
    proof[L1] = nd(CUT, 4, w, wff(0), nd(HYP, 0, 0, 0, 0, 0), u);
  }
  theorem(L1, 0, 1);
  tx(&D, "$}\n");
  top = 2;
  tx(&D, "${ h_ $e |- q $.\n"); // the label is written h_ in the text of l2
  hyp = 1;
  budget = only == 2 ? lem : 0;
  if (budget) proof[L2] = prove(imp(0, 1), 2);
  else { a = wff(0); int b = wff(1); proof[L2] = nd(L1, 3, a, b, nd(L0, 1, wff(0), 0, 0, 0), 0); }
  { size_t s = D.n; theorem(L2, 0, 1); // rename h
    for (size_t i = s; i + 2 < D.n; i++) if (D.b[i] == ' ' && D.b[i + 1] == 'h' && D.b[i + 2] == ' ') {
      for (size_t j = D.n++; j > i + 2; j--) D.b[j] = D.b[j - 1];
      D.b[i + 2] = '_';
    } }
  tx(&D, "$}\n");
  top = 3;
  // m3: two hypotheses; the second comes first in its proof
  hyp = -1;
  tx(&D, "${ m3.1 $e |- p $. m3.2 $e |- p $.\nm3 $p |- p $= wp wp m3.2 m3.1 cut $.\n$}\n");
  { a = nd(WP, 0, 0, 0, 0, 0); int b = nd(WP, 0, 0, 0, 0, 0), c = nd(HYP + 100, 0, 0, 0, 0, 0);
    proof[L3] = nd(CUT, 4, a, b, c, nd(HYP, 0, 0, 0, 0, 0)); }
  top = 4;
  int f = v == 0 ? imp(0, 1) : v == 1 ? imp(0, imp(1, 1)) : pick(2) ? imp(imp(0, 0), 1) : imp(2, imp(1, 1));
  budget = th;
  // in variant 0 the theorem uses the lemma that varies
  if (v == 0) {
    if (only == 0) a = nd(L0, 1, wff(f), 0, 0, 0);
    else if (only == 3) { budget = 2; a = wff(f); int b = prove(f, 1); a = nd(L3, 3, a, b, prove(f, 1), 0); }
    else { a = wff(0); int b = wff(1), c = nd(L0, 1, wff(only - 1), 0, 0, 0); a = nd(only == 1 ? L1 : L2, 3, a, b, c, 0); }
    proof[UNK] = a;
  } else proof[UNK] = prove(f, 3);
  int t = proof[UNK];
  tx(&D, "t $p |- "); show(&D, f); tx(&D, " $="); rpn(&D, t); tx(&D, " $.\n");
  tx(&D, "l9 $p |- p $= wp ax $.\n"); // after t: never used
  vfs_put("t.mm", D.b, D.n);
  int pat = v == 3 ? 1 : pick(6), pat2 = v == 3 ? pick(6) : 5, undo = v == 3 ? pick(4) : 0;
  static char cmd[500];
  static const char *const UN[] = {"", "undo\n", "undo\nundo\n", "undo\nredo\n"};
  int x = t, n = 0, step[3];
  step[0] = t;
  for (int r = 0; r < (v == 3 ? 2 : 1); r++) {
    int before = n;
    for (int l = L3; l >= WID; l--) if (matches(l, r ? pat2 : pat) && uses(x, l)) { x = expand(x, l); if (n == before) n++; }
    step[n] = x;
  }
  int at = n; // the UNDO and REDO
  if (undo == 1 || undo == 2) at = n - undo > 0 ? n - undo : 0;
  if (undo == 3) at = n;
  snprintf(cmd, sizeof cmd, "read t.mm\nprove t\nexpand %s\n%s%s%s%ssave new_proof / normal\nexit\nwrite source o.mm\nverify proof *\nexit\n", PAT[pat], v == 3 ? "expand " : "", v == 3 ? PAT[pat2] : "", v == 3 ? "\n" : "", UN[undo]);
  mm_script(cmd);
  x = step[at];
  saved("t", x, t, "the proof is not the one with the theorems replaced");
  vx_assert(out_has("No expansion occurred") == (n < (v == 3 ? 2 : 1)), "whether something changes is reported wrongly");
  if (!uses(x, UNK) && !uses(proof[L0], UNK) && !uses(proof[L1], UNK) && !uses(proof[L2], UNK)) {
    vx_assert(out_has("All proofs in the database"), "the proof is wrong");
    vx_cover("proved");
  } else vx_cover("unknown");
}
