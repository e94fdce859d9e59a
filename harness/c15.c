// Writing over an existing file keeps its previous versions, whatever happens on the way.
#include "db.h"
extern void (*vfs_hook)(int op, const char *a, const char *b);
extern int vfs_fail_open_w;
int vfs_failed(void);
static Txt S;
static char base[24];
static Txt V[10];       // contents of base, base~1 .. base~9
static int have[10];
static char nb[10][28];
static void name(int k) { if (k) sprintf(nb[k], "%s~%d", base, k); else strcpy(nb[0], base); }
static int is(const char *f, const Txt *t) {
  size_t n;
  char *d = vfs_get(f, &n);
  return d && n == t->n && !memcmp(d, t->b, n);
}
static int nprev;
static void check(const char *msg) {
  for (int k = 0; k < nprev; k++) {
    if (!have[k]) continue;
    int ok = 0;
    for (int j = 0; j < 10 && !ok; j++) ok = is(nb[j], &V[k]);
    vx_assert(ok, msg);
  }
}
static int steps;
static void hook(int op, const char *a, const char *b) { // the program may die here
  steps++;
  check("an old version is lost if the program stops at this point");
}
static void version(int k, const char *text) {
  char c[3] = {(char)('0' + k), '\n', 0};
  V[k].n = 0;
  tx(&V[k], text);
  tx(&V[k], c);
}
#define DEFS "$( $t htmldef \"W\" as \"W\"; htmldef \"|-\" as \"t\"; althtmldef \"W\" as \"W\"; althtmldef \"|-\" as \"t\"; latexdef \"W\" as \"W\"; latexdef \"|-\" as \"t\"; $)\n"
#define DB "$c W |- $.\n$( Axiom x. (Contributed by NM, 1-Jan-2024.)\n See Theorem 1 of [Abc] p. 1. $)\nx $a |- W $.\n$( Theorem y. (Contributed by NM, 1-Jan-2024.) $)\ny $p |- W $= x $.\n" DEFS
static void setup(int pattern) {
  char c;
  if (pattern) {
    vx_sym_set(&c, 1, "01", 2, "the file exists");
    have[0] = (char)vx_conc(c) == '1';
    vx_sym_set(&c, 1, "123456789:", 10, "first missing version");
    int gap = (char)vx_conc(c) - '0';
    vx_sym_set(&c, 1, "012", 3, "versions after it");
    int m = (char)vx_conc(c) - '0';
    vx_assume(gap < 9 || m == 0);
    for (int k = 1; k < 10; k++) have[k] = k < gap || (k > gap && (m == 1 || (m == 2 && k == 9)));
  } else {
    for (int k = 0; k < 10; k++) {
      vx_sym_set(&c, 1, "01", 2, "version exists");
      have[k] = (char)vx_conc(c) == '1';
    }
  }
}
void vx_main(int variant) {
  int op = variant % 100; // 100..: all combinations of existing versions
  const char *text = "old version ", *cmd = 0;
  strcpy(base, "f");
  switch (op) {
    case 0: case 1: cmd = "tools\nnumber f 1 2 1\nexit\n"; break;
    case 2: cmd = "tools\nadd f \"a\" \"b\"\nexit\n"; break;
    case 3: cmd = "tools\nbreak f \"\"\nexit\n"; break;
    case 4: cmd = "tools\ncopy g,g f\nexit\n"; break;
    case 5: cmd = "tools\nparallel g g f \"\"\nexit\n"; break;
    case 6: cmd = "read t.mm\nwrite source f\n"; break;
    case 7: cmd = "read t.mm\nwrite source t.mm\n"; strcpy(base, "t.mm"); text = DB; break;
    case 8: cmd = "open log f\nclose log\n"; break;
    case 9: cmd = "read t.mm\nopen tex f\nclose tex\n"; break;
    case 10: cmd = "read t.mm\nshow statement x /html\n"; strcpy(base, "x.html"); break;
    case 11: cmd = "read t.mm\nwrite bibliography f\n"; text = "<A NAME=\"Abc\"></A>\n<!-- #START# -->\n<!-- #END# -->\n"; break;
    case 12: cmd = "read t.mm\nwrite recent_additions f /limit 1\n"; text = "<!-- #START# -->\n<!-- #END# -->\n"; break;
    case 13: cmd = "read t.mm\nwrite theorem_list\n"; strcpy(base, "mmtheorems.html"); break;
    case 14: cmd = "read t.mm\nwrite bibliography f\n"; text = "no start\n"; break;
    case 15: cmd = "read t.mm\nwrite recent_additions f /limit 1\n"; text = "<!-- #START# -->\nno end\n"; break;
  }
  setup(variant && variant < 100);
  for (int k = 0; k < 10; k++) {
    name(k);
    version(k, text);
    if (have[k]) vfs_put(nb[k], V[k].b, V[k].n);
  }
  vfs_put("g", "g\n", 2);
  if (op != 7) vfs_put("t.mm", DB, strlen(DB));
  else vx_assume(have[0]);
  int full = 1;
  for (int k = 0; k < 10; k++) full &= have[k];
  nprev = full ? 9 : 10;
  char c = '0';
  vx_sym_set(&c, 1, "0123", 4, "write that fails");
  vfs_fail_open_w = (char)vx_conc(c) - '0';
  vfs_hook = hook;
  S.n = 0;
  tx(&S, cmd);
  tx(&S, "exit\n");
  int r = mm_script(S.b);
  vfs_hook = 0;
  vx_assert(r == 0, "the program ends with an error status");
  check("an old version is lost");
  size_t n;
  char *o = run_out(&n);
  if ((has(o, n, "?Sorry, couldn't") || has(o, n, "Could not find"))) {
    if (have[0] && !vfs_failed()) vx_assert(is(nb[0], &V[0]), "the input file is not restored after an error");
    vx_cover("error"); return; }
  vx_assert(!vfs_failed(), "a failure to write is not reported");
  // the model: the existing file becomes ~1, others move up to the first gap
  int gap = 1;
  while (gap < 9 && have[gap]) gap++;
  for (int k = 0; k < 10; k++) {
    int from = !have[0] ? k : k == 0 ? -1 : k <= gap ? k - 1 : k;
    if (k == 0) { vx_assert(vfs_get(nb[0], &n) != 0 && (op == 7) == is(nb[0], &V[0]), "the new file was not written"); continue; }
    if (have[from]) vx_assert(is(nb[k], &V[from]), "wrong contents of an old version");
    else vx_assert(!vfs_get(nb[k], &n), "an old version appears from nowhere");
  }
  vx_cover("written");
}
