// Discouraged statements and other people's mathboxes are not used unless asked for.
#define TX 40000
#include "db.h"
static Txt S, A, P0, P1, P2;
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
// the assertions that can be locked
static const char *const L[] = {"wj", "c1", "c2", "c3", "mp", "wk", "rr"};
static const char *const ST[] = {"wj $a W ( p q ) $.\n", "c1 $a |- ( p p ) $.\n", "c2 $p |- ( r r ) $= wr c9 $.\n", "c3 $a |- ( p q ) $.\n",
  "mp $a |- q $. $}\n", "wk $p W ( p q ) $= wp wq wi $.\n", "rr $a |- ( q p ) $. $}\n"};
#define NL 7
#define TAG0 "(New usage is discouraged.)"
static const char *const USE[] = {"(New usage is discouraged.)", "(New usage\nis discouraged.)", "(New  usage is\n     discouraged.)"};
// what is proved
static const char *const TH[] = {"th $p |- ( r r ) $= ? $.\n", "th $p |- ( r r ) $= wr wr ? $.\n", "th $p |- ( ( p p ) ( p p ) ) $= wp wp wi wp wp wi c8 $.\n",
  "th $p |- ( r r ) $= wr wr wi wr wr wi wr wr wi wr wr c8 ? mp $.\n", "th $p |- ( p ( q q ) ) $= ? $. $}\n"};
static const int NOTIN[] = {0, 0, 0, 1 << 4, 0}; // used there already
// lock: 0 as it is, 1 without tags, 2 without the locked ones
static void db(Txt *t, int mask, int mode, int th, int form, int prf) {
  t->n = 0;
  tx(t, "$c W |- ( ) $. $v p q r $. wp $f W p $. wq $f W q $. wr $f W r $.\nwi $a W ( p q ) $.\nc9 $a |- ( p p ) $.\nc8 $a |- ( p q ) $.\n");
  for (int i = 0; i < NL; i++) {
    int l = mask >> i & 1;
    if (l && mode == 2) continue;
    if (i == 4) tx(t, "${ m1 $e |- p $. m2 $e |- ( p q ) $.\n");
    if (i == 6) tx(t, "${ r1 $e |- p $.\n");
    tx(t, "$( A statement. ");
    if (l && mode == 0) tx(t, USE[form]);
    tx(t, " $)\n");
    tx(t, ST[i]);
  }
  if (th == 4) tx(t, "${ h $e |- ( q q ) $.\n");
  tx(t, "$( To prove. ");
  if (prf) tx(t, form ? "(Proof modification\n  is discouraged.)" : "(Proof modification is discouraged.)");
  tx(t, " $)\n");
  tx(t, TH[th]);
}
static void proof(Txt *p, int k) { // the proof as told at the k-th prompt
  size_t n;
  const char *o = out_seg(k, &n);
  vx_assert(o != 0 && !out_has("?BUG"), "the session does not get that far");
  p->n = 0;
  for (size_t i = 0; i < n; i++) if (o[i] != ' ' && o[i] != '\n') txn(p, o + i, 1); else if (p->n && p->b[p->n - 1] != ' ') tx(p, " ");
}
static int uses(const Txt *p, const char *l) { // as a word
  int c = 0, n = strlen(l);
  for (size_t i = 0; i + n <= p->n; i++) if (!strncmp(p->b + i, l, n) && (!i || p->b[i - 1] == ' ') && (i + n == p->n || p->b[i + n] == ' ')) c++;
  return c;
}
static const char *const CMD[] = {"improve all", "improve last / depth 2", "improve all / 2 / subproofs", "improve all / 3", "minimize_with *", "minimize_with * / may_grow",
  "assign last ^", "assign first ^", "replace last ^", "minimize_with ^", "replace first ^", "assign last ^ / no_unify", "improve 1 / 1 / depth 1"};
#define NC 13
static int session(const Txt *d, int mode, int c, int lock, const char *opt, int cmdno) { // prompts before the command
  vfs_put("t.mm", d->b, d->n);
  S.n = 0;
  int k = 3;
  tx(&S, "read t.mm\n");
  if (mode == 2) { tx(&S, "set discouragement off\n"); k++; }
  if (mode == 3) { tx(&S, "set discouragement off\nset discouragement on\n"); k += 2; }
  tx(&S, "prove th\nshow new_proof / normal\n");
  const char *s = CMD[c];
  for (; *s; s++) {
    char b[2] = {*s, 0};
    if (*s == '^') tx(&S, L[lock]);
    else tx(&S, b);
  }
  tx(&S, opt);
  tx(&S, "\nshow new_proof / normal\nexit\ny\nexit\ny\n");
  mm_script(S.b);
  (void)cmdno;
  return k;
}
static void usage(void) {
  int th = pick(5), c = pick(NC), form = 0, named = strchr(CMD[c], '^') != 0;
  int i = pick(NL), j = named ? i : pick(NL);
  if (j < i) return;
  int mask = 1 << i | 1 << j, how = pick(4), named_i = i;
  if (NOTIN[th] & mask) return;
  if (named) form = pick(3);
  db(&A, mask, 0, th, form, 0);
  int k = session(&A, how, c, named_i, how == 1 ? " / override" : "", 0);
  int open_ = how == 1 || how == 2;
  proof(&P0, k);
  proof(&P1, k + 2);
  size_t n;
  const char *o = out_seg(k + 1, &n);
  static Txt R1;
  R1.n = 0;
  txn(&R1, o, n);
  if (!open_) for (int l = 0; l < NL; l++) if (mask >> l & 1) vx_assert(uses(&P1, L[l]) <= uses(&P0, L[l]), "the proof uses a statement whose usage is discouraged");
  if (open_) for (int l = 0; l < NL; l++) if ((mask >> l & 1) && uses(&P1, L[l]) > uses(&P0, L[l]))
    vx_assert(has(R1.b, R1.n, "?Warning: Overriding discouraged usage of") || has(R1.b, R1.n, "?Warning: You are assigning a statement whose usage is discouraged."), "no warning that a discouraged statement is used");
  if (!open_ && named) {
    vx_assert(P0.n == P1.n && !memcmp(P0.b, P1.b, P0.n), "a refused command changes the proof");
    if (c != 9 && uses(&P0, "?")) vx_assert(has(R1.b, R1.n, "?Error: Attempt to assign a statement whose usage is discouraged."), "no message that the statement's usage is discouraged");
    vx_cover("refused");
    return;
  }
  // as if the tags, or the statements, were not there
  db(&A, mask, open_ ? 1 : 2, th, form, 0);
  session(&A, 0, c, named_i, "", 0);
  proof(&P2, 5);
  if (P1.n != P2.n || memcmp(P1.b, P2.b, P1.n)) { vfs_put("dbg1", P1.b, P1.n); vfs_put("dbg2", P2.b, P2.n); }
  vx_assert(P1.n == P2.n && !memcmp(P1.b, P2.b, P1.n), open_ ? "overriding is not like the tags being absent" : "the command does not do what it does without the discouraged statements");
  if (P0.n != P1.n || memcmp(P0.b, P1.b, P0.n)) vx_cover("changed");
}
// proofs that are not to be changed
static void modify(void) {
  int th = pick(5), how = pick(4), form = pick(2), sv = pick(3);
  db(&A, 0, 0, th, form, 1);
  vfs_put("t.mm", A.b, A.n);
  static Txt W0, W1;
  S.n = 0;
  tx(&S, "read t.mm\n");
  int k = 3;
  if (how == 2 || how == 3) { tx(&S, "set discouragement off\n"); k++; }
  if (how == 3) { tx(&S, "set discouragement on\n"); k++; }
  int open_ = how == 1 || how == 2;
  if (sv == 0) { // PROVE itself
    tx(&S, how == 1 ? "prove th / override\n" : "prove th\n");
    tx(&S, "exit\nexit\n");
    mm_script(S.b);
    vx_assert(!out_has("?BUG"), "the session does not end");
    vx_assert(out_has("?Error: Modification of this statement's proof is discouraged.") == !open_, "whether PROVE is refused");
    vx_assert(out_has("Entering the Proof Assistant.") == open_, "whether PROVE starts");
    if (open_) vx_assert(out_has("?Warning: Modification of this statement's proof is discouraged."), "no warning that the proof is discouraged to be modified");
    vx_cover("prove");
    return;
  }
  tx(&S, "prove th / override\ndelete all\nassign last c9\n");
  tx(&S, sv == 1 ? "save new_proof / normal" : "save new_proof / compressed");
  tx(&S, how == 1 ? " / override\n" : "\n");
  tx(&S, "exit\ny\nwrite source o.mm\nexit\ny\n");
  mm_script(S.b);
  size_t n, b, e;
  char *d = vfs_get("o.mm", &n);
  vx_assert(d != 0 && !out_has("?BUG"), "the session does not end");
  vx_assert(out_has("?Error: Attempt to overwrite a proof whose modification is discouraged.") == !open_, "whether SAVE NEW_PROOF is refused");
  int same = n == A.n && !memcmp(d, A.b, n);
  vx_assert(same == !open_, open_ ? "the proof is not saved" : "the proof was changed although this is discouraged");
  if (open_) vx_assert(out_has("?Warning: You are overwriting a proof whose modification is discouraged."), "no warning that the proof is discouraged to be modified");
  (void)b; (void)e; (void)W0; (void)W1;
  vx_cover("save");
}
// SHOW DISCOURAGED
static void list(void) {
  int um[5], pm[5], two = pick(5);
  static const char *const l[] = {"a1", "a2", "t1", "t2", "t3"};
  static const int use[5][5] = {{0}, {0}, {1, 0, 0, 0, 0}, {0, 1, 1, 0, 0}, {1, 0, 0, 0, 0}}; // by whom
  int cmp = pick(2), form = pick(3);
  A.n = 0;
  P1.n = 0;
  tx(&A, "$c W |- ( ) $. $v p q $. wp $f W p $. wq $f W q $.\nwi $a W ( p q ) $.\n");
  for (int i = 0; i < 5; i++) {
    um[i] = i == two || pick(2);
    pm[i] = (i == two || i == 2) && pick(2);
    if (i == 1) tx(&A, "${ h $e |- p $.\n");
    tx(&A, "$( A statement. ");
    if (pm[i]) tx(&A, form ? "(Proof modification\nis discouraged.)" : "(Proof modification is discouraged.)");
    if (um[i]) { tx(&A, "\n"); tx(&A, USE[form]); }
    tx(&A, " $)\n");
    tx(&A, i == 0 ? "a1 $a |- p $.\n" : i == 1 ? "a2 $a |- ( p p ) $. $}\n" :
       i == 2 ? cmp ? "t1 $p |- ( p p ) $= ( wi a1 ) AABC $.\n" : "t1 $p |- ( p p ) $= wp wp wi a1 $.\n" :
       i == 3 ? cmp ? "t2 $p |- ( ( ( p p ) ( p p ) ) ( ( p p ) ( p p ) ) ) $= ( wi t1 a2 ) AABZEBEACDD $.\n" : "t2 $p |- ( ( ( p p ) ( p p ) ) ( ( p p ) ( p p ) ) ) $= wp wp wi wp wp wi wi wp wp wi wp t1 a2 a2 $.\n"
       : cmp ? "t3 $p |- ( q q ) $= ( a1 wi ) AACB $.\n" : "t3 $p |- ( q q ) $= wq wq wi a1 $.\n");
  }
  static const int steps[2][5] = {{0, 0, 4, 14, 4}, {0, 0, 4, 10, 4}};
  // the lines
  for (int i = 0; i < 5; i++) {
    char num[12];
    if (pm[i] && i > 1) {
      tx(&P1, "SHOW DISCOURAGED:  Proof modification of \"");
      tx(&P1, l[i]);
      snprintf(num, 12, "%d", steps[cmp][i]);
      tx(&P1, "\" is discouraged (");
      tx(&P1, num);
      tx(&P1, " steps).\n");
    }
    if (um[i]) {
      int c = 0;
      for (int k = i + 1; k < 5; k++) if (use[k][i]) c++;
      tx(&P1, "SHOW DISCOURAGED:  New usage of \"");
      tx(&P1, l[i]);
      snprintf(num, 12, "%d", c);
      tx(&P1, "\" is discouraged (");
      tx(&P1, num);
      tx(&P1, " uses).\n");
      for (int k = i + 1; k < 5; k++) if (use[k][i]) {
        tx(&P1, "SHOW DISCOURAGED:  \"");
        tx(&P1, l[i]);
        tx(&P1, "\" is used by \"");
        tx(&P1, l[k]);
        tx(&P1, "\".\n");
      }
    }
  }
  vfs_put("t.mm", A.b, A.n);
  int before = um[0] && um[1] ? pick(3) : 0;
  if (before) { // another database before
    P0.n = 0;
    tx(&P0, "$c W $.\n$( (Proof modification is discouraged.)  (New usage is discouraged.) $)\nx $a W $.\n$( (Proof modification is discouraged.)  (New usage is discouraged.) $)\ny $p W $= x $.\n");
    if (before == 1) tx(&P0, "$c V $. $c U $. $c T $. $c S $. $c R $. $c Q $. $c P $. $c O $. $c N $. $c M $. $c L $. $c K $. $c J $. $c I $. $c H $. $c G $.\n$( (New usage is discouraged.) $)\nz $p W $= x $.\n");
    vfs_put("x.mm", P0.b, P0.n);
  }
  mm_script(before ? "read x.mm\nshow discouraged\nerase\nread t.mm\nverify proof *\nshow discouraged\nexit\n" : "read t.mm\nverify proof *\nshow discouraged\nexit\n");
  size_t n;
  const char *o = out_seg(before ? 6 : 3, &n);
  vx_assert(o != 0 && !out_has("?BUG") && !out_has("?Error"), "the session does not end");
  if (n != P1.n || memcmp(o, P1.b, n)) vfs_put("dbg1", P1.b, P1.n);
  vx_assert(n == P1.n && !memcmp(o, P1.b, n), "SHOW DISCOURAGED does not list the discouraged statements and their uses");
  vx_cover("list");
}
// mathboxes
static void boxes(void) {
  static const char *const bs[] = {"b1 $a |- ( p p ) $.\n", "b2 $a W ( p q ) $.\n", "b3 $a |- ( r r ) $.\n", "b4 $a |- ( p q ) $.\n", "${ b5.1 $e |- p $. b5 $a |- ( q p ) $. $}\n"};
  static const char *const bl[] = {"b1", "b2", "b3", "b4", "b5"};
  static const char *const head[] = {"$( -.-.\n  Mathbox for %\n-.-. $)\n", "$( Mathbox for % $)\n", "$( Mathbox for %\n$) "};
  int th = pick(4), c = pick(9), n1 = pick(4), dis = pick(2), hd = c < 2 || c > 6 ? pick(3) : 0;
  static const char *const cm[] = {"improve all", "improve last / depth 2", "improve all / 2 / subproofs", "improve all / 3", "minimize_with *", "minimize_with * / may_grow", "minimize_with b?", "assign last %", "replace last %"};
  int named = c >= 7, where = pick(named ? 5 : 4); // 0: in the own mathbox, 1: in an earlier one, 2: before all mathboxes, 3: earlier one, included, 4: between the label "mathbox" and the first mathbox
  if (named && where == 3) return;
  if (th == 3) th = 4;
  for (int pass = 0; pass < 2; pass++) {
    int without = where == 1 && !named;
    A.n = 0;
    tx(&A, "$c W |- ( ) $. $v p q r $. wp $f W p $. wq $f W q $. wr $f W r $.\nwi $a W ( p q ) $.\nc9 $a |- ( p p ) $.\nc8 $a |- ( p q ) $.\n");
    int here = pass && without ? 9 : where, nohead = pass && !without; // compared with no mathboxes at all
    if (here == 2) for (int i = 0; i < 2; i++) tx(&A, bs[(n1 + i) % 5]);
    tx(&A, "$( End $)\nmathbox $a W ( r p ) $.\n");
    if (here == 4) for (int i = 0; i < 2; i++) tx(&A, bs[(n1 + i) % 5]);
    for (int m = 0; m < 3; m++) {
      if (m == 1 && !dis) continue;
      if (!nohead) for (const char *s = head[hd]; *s; s++) txn(&A, *s == '%' ? m == 0 ? "A" : m == 1 ? "C" : "B" : s, 1);
      if (m == 0 && (where == 2 || (c != 1 && c != 5))) tx(&A, "$( X. $)\nxx $a |- ( ( p p ) p ) $.\n"); // otherwise the first ones of the mathbox are meant
      if (m == 0 && (here == 1 || here == 3)) for (int i = 0; i < 2; i++) tx(&A, bs[(n1 + i) % 5]);
      if (m == 1) tx(&A, "$( X. $)\nxz $a |- ( ( p p ) p ) $.\n");
      if (m == 2) tx(&A, "$( Y. $)\nyy $a |- ( ( p p ) q ) $.\n");
    }
    if (here == 0) for (int i = 0; i < 2; i++) tx(&A, bs[(n1 + i) % 5]);
    if (th == 4) tx(&A, "${ h $e |- ( q q ) $.\n");
    tx(&A, TH[th]);
    vfs_put("t.mm", A.b, A.n);
    S.n = 0;
    tx(&S, "read t.mm\nprove th\nshow new_proof / normal\n");
    for (const char *s = cm[c]; *s; s++) if (*s == '%') tx(&S, bl[n1]); else txn(&S, s, 1);
    if (where == 3 && !pass) tx(&S, " / include_mathboxes");
    tx(&S, "\nshow new_proof / normal\nexit\ny\nexit\ny\n");
    mm_script(S.b);
    proof(pass ? &P2 : &P1, 5);
    if (!pass) proof(&P0, 3);
    if (!pass && without) for (int i = 0; i < 5; i++) vx_assert(!uses(&P1, bl[i]), "the proof uses another mathbox");
    if (!pass && c == 7 && (P0.n != P1.n || memcmp(P0.b, P1.b, P0.n))) {
      char m[] = "\"b?\" is in the mathbox for A.";
      m[2] = bl[n1][1];
      vx_assert(out_has(m) == (where == 1), "whether the user is told that the statement is in another mathbox");
    }
  }
  if (P1.n != P2.n || memcmp(P1.b, P2.b, P1.n)) { vfs_put("dbg1", P1.b, P1.n); vfs_put("dbg2", P2.b, P2.n); }
  vx_assert(P1.n == P2.n && !memcmp(P1.b, P2.b, P1.n), where == 1 ? "the command does not do what it does without the other mathboxes" : "where the statements are matters");
  vx_cover("boxes");
}
void vx_main(int v) {
  vx_libc_init();
  if (v == 0) usage();
  else if (v == 1) modify();
  else if (v == 2) list();
  else boxes();
}
