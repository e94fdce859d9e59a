// MINIMIZE_WITH uses exactly the statements it may use.
#define TX 40000
#include "db.h"
static Txt D, P;
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
// statements before t: what they prove (0 to 3: a, b, c, another), the axioms below them (bits), $d
#define AXN 1
#define AXM 2
#define OLD 4
typedef struct { const char *label; int proves, axiom, below, dv, discouraged; unsigned lemmas; } St;
static St S[12];
static int nS;
static const char *const FM = "abcz";
static St *st(const char *label, int proves, int axiom, int below) {
  S[nS] = (St){label, proves, axiom, below, 0, 0, 0};
  return &S[nS++];
}
static int match(const char *label, const char *list) { // alternatives of letters and *
  while (*list) {
    const char *p = list, *l = label;
    while (*p && *p != ',' && *p != '*' && *p == *l) p++, l++;
    if (*p == '*' || ((!*p || *p == ',') && !*l)) return 1;
    while (*list && *list != ',') list++;
    if (*list) list++;
  }
  return 0;
}
static const char *axname(int bit) { return bit == AXN ? "ax-n" : "ax-m"; }
static int vars; // formulas have variables
static const char *formula(int k) {
  static char f[16];
  snprintf(f, sizeof f, vars ? "|- %c x y" : "|- %c", FM[k]);
  return f;
}
static void start(void) {
  D.n = 0; nS = 0;
  tx(&D, "$c |- a b c z W $. $v x y $. wx $f W x $. wy $f W y $.\n");
}
static void axiom(const char *label, int k) { tx(&D, label); tx(&D, " $a "); tx(&D, formula(k)); tx(&D, " $.\n"); }
static void rule(const char *label, int h, int k) {
  tx(&D, "${ h"); tx(&D, label); tx(&D, " $e "); tx(&D, formula(h)); tx(&D, " $.\n"); axiom(label, k); tx(&D, "$}\n");
}
// a proof as a list of labels from first to last (each needs the one before, if not the first)
static void chain(int n, const char *const *l) {
  for (int i = 0; i < n; i++) if (vars) tx(&D, " wx wy");
  for (int i = 0; i < n; i++) { tx(&D, " "); tx(&D, l[i]); }
}
static void thm(const char *label, int k, int n, const char *const *l) {
  tx(&D, label); tx(&D, " $p "); tx(&D, formula(k)); tx(&D, " $=");
  chain(n, l);
  tx(&D, " $.\n");
}
static const char *used[40];
static int nU;
static void find(void) { // the labels of the proof in o.mm, other than wx and wy
  static char w[40][12];
  size_t n;
  char *o = vfs_get("o.mm", &n), *p = 0, *e;
  vx_assert(o != 0 && !out_has("?BUG"), "the session does not end");
  for (size_t i = 0; i + 4 < n; i++) if (o[i] == '\n' && !strncmp(o + i + 1, "t $p", 4)) p = o + i;
  vx_assert(p != 0, "the theorem is lost");
  while (strncmp(p, "$=", 2)) p++;
  p += 2;
  nU = 0;
  while (1) {
    while (*p == ' ' || *p == '\n') p++;
    e = p;
    while (*e > ' ') e++;
    if (!strncmp(p, "$.", 2)) break;
    vx_assert(nU < 40 && e - p < 12, "the proof is not a short list of labels");
    memcpy(w[nU], p, e - p);
    w[nU][e - p] = 0;
    used[nU] = w[nU];
    if (strcmp(w[nU], "wx") && strcmp(w[nU], "wy")) nU++;
    p = e;
  }
}
// the tested statements and qualifiers
static void go(int v) {
  vars = v == 1;
  start();
  axiom("ax-a", 0); rule("ax-b", 0, 1); rule("ax-c", 1, 2); axiom("ax-n", v == 2 ? 1 : 3); axiom("ax-m", 3);
  rule("zb", 3, 1);
  st("ax-a", 0, 1, OLD); st("ax-b", 9, 1, OLD); st("ax-c", 9, 1, OLD);
  if (v == 2) st("ax-n", 1, 1, AXN);
  // lemmas of z from ax-n
  static const char *const L1[] = {"ax-n"}, *const L2[] = {"l"};
  if (v != 2) { thm("l", 3, 1, L1); }
  // zc: from another to c
  rule("zc", 3, 2);
  static const char *const B0[] = {"ax-a", "ax-b"}, *const B1[] = {"ax-n", "zb"}, *const B2[] = {"l", "zb"}, *const B3[] = {"ax-m", "zb"}, *const C0[] = {"ax-a", "ax-b", "ax-c"}, *const C1[] = {"ax-n", "zc"}, *const C2[] = {"k1", "ax-c"}, *const C3[] = {"ax-m", "zc"};
  int own = v == 2 || v == 1 ? 0 : pick(v == 3 ? 2 : 3); // what the proof of t uses: ax-a, or ax-n or ax-m with zb
  int k1 = v == 2 ? 0 : v == 3 ? 1 + pick(2) : pick(4), k2 = v ? 2 + 2 * pick(2) : pick(5);
  if (v == 2 && k2 == 4) k2 = 0;
  st("zc", own ? 1 : 9, 1, 16);
  const char *const *K1[] = {B0, B1, B2, B3};
  static const int below1[] = {OLD, AXN, AXN, AXM};
  // dependence on zb and zc counts too: they are axioms; the proof of t has zb unless own is 0
  int dv = v == 1 ? pick(3) : 0; // 1: k1 needs $d x y, 2: and t has it
  if (dv == 2) tx(&D, "$d x y $.\n");
  if (dv == 1) tx(&D, "${ $d x y $.\n");
  thm("k1", 1, 2, K1[k1]);
  if (dv == 1) tx(&D, "$}\n");
  St *s1 = st("k1", 1, 0, below1[k1] | (k1 ? 8 : 0));
  s1->dv = dv > 0;
  if (k1 == 2) s1->lemmas = 1; // l
  St *s2 = 0;
  if (k2 < 4) {
    const char *const *K2[] = {C0, C1, C2, C3};
    thm("k2", 2, k2 == 0 ? 3 : 2, K2[k2]);
    s2 = st("k2", 2, 0, k2 == 0 ? OLD : k2 == 1 ? AXN | 16 : k2 == 2 ? s1->below | OLD : AXM | 16);
    if (k2 == 2) { s2->lemmas = s1->lemmas | 2; if (dv == 1) s2 = 0; }
    vx_assume(!(k2 == 2 && dv == 1));
    s2->dv = k2 == 2 && dv == 2;
  }
  static const char *const T0[] = {"ax-a", "ax-b", "ax-c"}, *const T1[] = {"ax-n", "zb", "ax-c"}, *const T2[] = {"ax-m", "zb", "ax-c"};
  const char *const *T[] = {T0, T1, T2};
  thm("t", 2, 3, T[own]);
  int hist = v == 3 ? pick(2) : 0; // another theorem first, after t
  if (hist) {
    static const char *const U[] = {"ax-m", "zb", "ax-c"}, *const U2[] = {"ax-n", "zc"};
    thm("u1", 2, 3, U);
    thm("u2", 2, 2, U2);
  }
  int have = own == 0 ? OLD : (own == 1 ? AXN : AXM) | 8;
  static const char *const PAT[] = {"*", "k*", "k1", "k2,ax-n", "k2,k1"}, *const EXC[] = {"", "k1", "ax-*"}, *const ALL[] = {"", "*", "ax-n,z*", "ax-m,z*,ax-b,ax-a", "z*"}, *const NON[] = {"", "ax-n", "ax-*"}, *const FOR_[] = {"", "ax-n", "l", "ax-b", "k1", "z*"};
  static const int size[] = {5, 3, 3, 6, 2};
  int q_[5] = {0}, all = pick(5), k = -1;
  for (int n = 0; n < (v < 2 ? 1 : 2) && k < 4; n++) { // one or two other qualifiers
    k += 1 + pick(5 - k); // 5: none
    if (k < 5) q_[k] = 1 + pick(size[k] - 1);
  }
  int pat = q_[0], exc = q_[1], non = q_[2], fr = q_[3], grow = q_[4];
  static char cmd[600], q[6][60];
  q[1][0] = q[2][0] = q[3][0] = q[4][0] = 0;
  if (exc) snprintf(q[1], 60, " / except %s", EXC[exc]);
  if (all) snprintf(q[2], 60, " / allow_new_axioms %s", ALL[all]);
  if (non) snprintf(q[3], 60, " / no_new_axioms_from %s", NON[non]);
  if (fr) snprintf(q[4], 60, " / forbid %s", FOR_[fr]);
  snprintf(cmd, sizeof cmd, "read t.mm\n%sprove t\nminimize_with %s%s%s%s%s%s\nsave new_proof / normal\nexit\nwrite source o.mm\nverify proof *\nexit\n", hist ? "prove u1\nminimize_with * / allow_new_axioms *\nsave new_proof / normal\nexit\nprove u2\nminimize_with * / allow_new_axioms * / except t,u*\nsave new_proof / normal\nexit\n" : "", PAT[pat], q[1], q[2], q[3], q[4], grow ? " / may_grow" : "");
  vfs_put("t.mm", D.b, D.n);
  mm_script(cmd);
  find();
  // which may be used
  static const char *const BIT[] = {"ax-n", "ax-m", "", "zb", "zc"};
  int best = 3, any = 0;
  for (int i = 0; i < nS; i++) {
    St *s = &S[i];
    int ok = match(s->label, PAT[pat]) && !(exc && match(s->label, EXC[exc]));
    for (int b = 0; b < 5; b++) if (s->below & (1 << b)) {
      for (int o = 0; o < (b == 2 ? 3 : 1); o++) { // OLD is ax-a and ax-b, and ax-c for k2
        const char *a = b == 2 ? o == 0 ? "ax-a" : o == 1 ? "ax-b" : "ax-c" : BIT[b];
        if (b == 2 && o == 1 && !strcmp(s->label, "ax-a")) continue;
        if (b == 2 && o == 2 && strcmp(s->label, "k2")) continue;
        if (b == 2 && o < 2 && k2 == 2 && s == s2 && k1) continue; // k2 from k1 that is from others
        int there = b == 2 ? own == 0 || o == 2 : (have >> b) & 1;
        if (!there && !(all && match(a, ALL[all]) && !(non && match(a, NON[non])))) ok = 0;
        if (fr && match(a, FOR_[fr])) ok = 0;
      }
    }
    if (fr && (match(s->label, FOR_[fr]) || ((s->lemmas & 1) && match("l", FOR_[fr])) || ((s->lemmas & 2) && match("k1", FOR_[fr])))) ok = 0;
    if (s->dv && dv == 1) ok = 0;
    int uses = 0;
    for (int u = 0; u < nU; u++) if (!strcmp(used[u], s->label)) uses = 1;
    int orig = !strcmp(s->label, "ax-c") || !strcmp(s->label, T[own][0]) || (own == 0 && !strcmp(s->label, "ax-b"));
    if (!ok && !orig) vx_assert(!uses, "a statement that may not be used is in the proof");
    if (ok && s->proves == 2) best = 1, any = 1;
    if (ok && s->proves == 1 && !orig) { any = 1; if (best > 2) best = 2; }
  }
  if (!grow) vx_assert(nU == best, best < nU ? "the proof is not shortened" : "the proof is shorter than it may be");
  else vx_assert(any || nU == 3, "the proof changes without a statement that may be used");
  if (!grow && !hist) vx_assert((out_has("No shorter proof was found.") || out_has("?No earlier")) == (best == 3), "whether a shorter proof is found is reported wrongly");
  vx_assert(out_has("All proofs in the database"), "the proof is wrong");
  vx_cover(nU < 3 ? "shorter" : "same");
}
void vx_main(int v) {
  vx_libc_init();
  go(v);
}
