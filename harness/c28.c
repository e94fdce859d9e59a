// SAVE PROOF and SAVE NEW_PROOF add the contributor and the date to the description of a finished proof, once.
#include "db.h"
static Txt S, D, X, Y, E;
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
static void squeeze(Txt *t) {
  int n = 0;
  for (size_t i = 0; i < t->n; i++) {
    char c = t->b[i] == '\n' ? ' ' : t->b[i];
    if (c != ' ' || (n && t->b[n - 1] != ' ')) t->b[n++] = c;
  }
  t->b[t->n = n] = 0;
}
static const char *const CM[] = {"", "$( A theorem. $)", "$( A theorem.  (Contributed by N M, 5-Aug-1993.) $)", "$( A theorem.\n(Contributed by\nN M, 5-Aug-1993.)  (Revised by X Y, 6-Aug-1993.) $)",
  "$( A theorem (Contributed to by many). $)", "$( Old.  (Contributed by N M, 5-Aug-1993.) $)\n$( A theorem. $)", "$( A theorem.  (Revised by X Y, 6-Aug-1993.) $)", "$( A theorem.\n   (New usage is discouraged.) $)"};
static const int has_c[] = {1, 0, 1, 1, 0, 0, 0, 0}; // has one, or no description
static const char *const BELOW[] = {"", "$( [5-Nov-1999] $)\n", "$( [7-Jan-2004] $)\n$( [5-Nov-1999] $)\n", "$( Seen 5-Nov-1999. $)\n"};
static const char *const PR[] = {"wp ax", "?", "( ax ) AB", "wp ? mi", "( mi ) A?B"};
static const char *const CMD[] = {"save proof t", "save proof t / compressed", "save proof *", "save proof * / compressed / fast", "save proof t / normal", "prove t\nsave new_proof", "prove t\nsave new_proof / compressed",
  "prove t\ndelete all\nassign last ax\nimprove all\nsave new_proof / compressed", "prove t\ndelete all\nsave new_proof", "prove t\nimprove all\nsave new_proof / compressed", "save proof t / packed", "save proof t / explicit"};
static const int pa[] = {0, 0, 0, 0, 0, 1, 1, 2, 3, 2, 0, 0};
static void comment(Txt *d, int c, int below, int add, const char *name, const char *today) { // expected
  d->n = 0;
  tx(d, CM[c]);
  if (add) {
    d->n -= 2;
    tx(d, " (Contributed by ");
    tx(d, name);
    tx(d, ", ");
    tx(d, below == 0 || below == 3 ? today : "5-Nov-1999");
    tx(d, ".) ");
    if (below == 2) tx(d, "(Revised by ?who?, 7-Jan-2004.) ");
    tx(d, "$)");
  }
  squeeze(d);
}
static int one(const char *o, size_t n, const char *before, Txt *x) { // what comes before " t $p"
  size_t b = 0;
  while (b + strlen(before) < n && strncmp(o + b, before, strlen(before))) b++;
  b += strlen(before);
  size_t e = b;
  while (e < n && strncmp(o + e, " $p ", 4)) e++;
  if (e >= n) return 0;
  while (e && o[e - 1] != ' ' && o[e - 1] != '\n') e--;
  x->n = 0;
  txn(x, o + b, e - b);
  squeeze(x);
  while (x->n && x->b[x->n - 1] == ' ') x->b[--x->n] = 0;
  int k = 0;
  while (x->b[k] == ' ') k++;
  memmove(x->b, x->b + k, x->n - k + 1);
  x->n -= k;
  return 1;
}
static char today[16];
static void learn(void) { // the date the program takes for today
  vfs_put("d.mm", "$c W $. ax $a W $.\n$( D. $)\nt $p W $= ax $.\n", 44);
  mm_script("read d.mm\nsave proof t\nshow source t\nexit\ny\n");
  size_t n;
  const char *o = run_out(&n);
  today[0] = 0;
  vx_assert(o != 0, "no source");
  for (size_t i = 0; i + 9 < n; i++) if (!strncmp(o + i, "?who?, ", 7)) {
    size_t k = i + 7, m = 0;
    while (k < n && o[k] != '.' && m < 12) today[m++] = o[k++];
    today[m] = 0;
    break;
  }
  vx_assert(today[0] >= '1' && today[0] <= '9' && strlen(today) >= 10, "no date of today");
}
void vx_main(int v) {
  vx_libc_init();
  learn();
  int c = pick(v == 1 ? 5 : 8), below = v == 1 ? 0 : pick(4), p = pick(5), k = pick(12), nm = v == 0 && (c > 2 || below) ? 0 : pick(3), ind = pick(2), twice = v == 1 ? 1 + pick(3) : 0;
  D.n = 0;
  tx(&D, "$c W |- $. $v p $. wp $f W p $. ${ me $e |- p $. mi $a |- p $. $} ax $a |- p $.\n");
  if (ind) tx(&D, "${\n");
  tx(&D, "$( -- $)\n"); // not a description where another comment follows
  if (c == 0) { D.n -= 9; }
  tx(&D, CM[c]);
  tx(&D, ind ? "\n  t $p |- p $= " : "\nt $p |- p $= ");
  tx(&D, PR[p]);
  tx(&D, " $.\n");
  tx(&D, BELOW[below]);
  if (ind) tx(&D, "$}\n");
  tx(&D, "$( Last. $)\nz $p |- p $= wp ax $.\n");
  unsigned char fr = 'h';
  if (k < 2 && !twice && c) {
    static const char set[] = "acCk(.,)[]-_0127'\"~`%@{";
    vx_sym_set(&fr, 1, set, sizeof set - 1, "free");
    char *w = strstr(D.b, "theorem");
    w[1] = fr;
  }
  vfs_put("t.mm", D.b, D.n);
  static const char *const name[] = {"?who?", "A. B. Cee", "D"};
  S.n = 0;
  tx(&S, "read t.mm\n");
  if (nm == 1) tx(&S, "set contributor \"A. B. Cee\"\n");
  if (nm == 2) tx(&S, "set contributor \"A. B. Cee\"\nset contributor D\n");
  tx(&S, CMD[k]);
  if (pa[k]) tx(&S, "\n_exit_pa / force");
  tx(&S, "\n");
  if (twice) { // nothing is added again, whoever saves
    tx(&S, "set contributor Z\n");
    int k2 = twice == 1 ? k : twice == 2 ? 1 : 7;
    tx(&S, CMD[k2]);
    if (pa[k2]) tx(&S, "\n_exit_pa / force");
    tx(&S, "\n");
  }
  tx(&S, "write source o.mm\nexit\ny\n");
  mm_script(S.b);
  size_t n;
  char *o = vfs_get("o.mm", &n);
  vx_assert(o != 0 && !out_has("?BUG") && !out_has("?Error"), "the session does not end");
  // finished when saved?
  int open0 = p == 1 || p >= 3, open_ = k == 9 ? 0 : pa[k] == 2 ? 0 : pa[k] == 3 ? 1 : open0;
  int add = !has_c[c] && !open_;
  const char *by = name[nm];
  if (!has_c[c] && !add && twice) {
    int now = twice == 1 ? open_ : twice == 2 ? 1 : 0; // the proof saved last
    if (!now) { add = 1; by = "Z"; }
  }
  comment(&E, c, below, add, by, today);
  if (strstr(E.b, "theorem")) strstr(E.b, "theorem")[1] = fr;
  vx_assert(one(o, n, c == 0 ? ind ? "ax $a |- p $.\n${" : "ax $a |- p $.\n" : "$( -- $)", &X), "the theorem is gone");
  if (X.n != E.n || memcmp(X.b, E.b, X.n)) { vfs_put("dbg1", X.b, X.n); vfs_put("dbg2", E.b, E.n); }
  vx_assert(X.n == E.n && !memcmp(X.b, E.b, X.n), add ? "the contributor is not added as documented" : "the description is changed");
  // the other theorem's
  if (k == 2 || k == 3) {
    E.n = 0;
    tx(&E, "$( Last. (Contributed by ");
    tx(&E, nm == 1 ? "A. B. Cee" : nm == 2 ? "D" : "?who?");
    tx(&E, ", ");
    tx(&E, today);
    tx(&E, ".) $)");
    char *q = strstr(o, "$( Last.");
    vx_assert(q != 0, "another description is gone");
    char *z = strstr(q, "z $p");
    vx_assert(z != 0, "another theorem is gone");
    while (z[-1] == ' ' || z[-1] == '\n') z--;
    X.n = 0;
    txn(&X, q, z - q);
    squeeze(&X);
    vx_assert(X.n == E.n && !memcmp(X.b, E.b, X.n), "the contributor of another theorem is not added as documented");
  }
  int all = k == 2 || k == 3;
  vx_assert(has(o, n, all ? "$( Last." : "$( Last. $)\nz $p") && (all == (count_of(o, n, today) > (add && (below == 0 || below == 3)))), "another description is changed");
  vx_cover(add ? "added" : "unchanged");
}
