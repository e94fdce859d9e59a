// valid proofs built from a sequence of free choices
#pragma once
#define P0 "$c ( ) W |- $. $v p q r s $. wp $f W p $. wq $f W q $. wr $f W r $. ws $f W s $. wi $a W ( p q ) $.\n"
#define AX "ax $a |- ( p ( q p ) ) $. ${ m1 $e |- p $. m2 $e |- ( p q ) $. mp $a |- q $. $}\n"
static char G[12][20];  // formulas in reverse Polish notation over r, s, i
static Txt GP[12];      // their proofs
static int gn;
static void syn(Txt *t, const char *f) { for (; *f; f++) tx(t, *f == 'i' ? "wi " : *f == 'r' ? "wr " : "ws "); }
static const char *infix(Txt *t, const char *e) { // writes the formula that ends at e; returns where it starts
  if (*e != 'i') { char b[3] = {*e, ' ', 0}; tx(t, b); return e; }
  const char *m = e - 1; // find the start of the second operand
  for (int need = 1; need; m--) need += *m == 'i' ? 1 : -1;
  tx(t, "( ");
  const char *l = infix(t, m);
  infix(t, e - 1);
  tx(t, ") ");
  return l;
}
static void gpush(const char *f, const char *p) { strcpy(G[gn], f); GP[gn].n = 0; tx(&GP[gn], p); gn++; }
static Txt tmp1;
static void gcombine(void) { // an
  if (gn < 2 || strlen(G[gn - 1]) + strlen(G[gn - 2]) > 12) return;
  tmp1.n = 0;
  syn(&tmp1, G[gn - 2]); syn(&tmp1, G[gn - 1]);
  tx(&tmp1, GP[gn - 2].b); tx(&tmp1, GP[gn - 1].b); tx(&tmp1, "an ");
  strcat(G[gn - 2], G[gn - 1]); strcat(G[gn - 2], "i");
  gn--;
  GP[gn - 1].n = 0;
  tx(&GP[gn - 1], tmp1.b);
}
static void gmp(void) {
  size_t a = gn < 2 ? 0 : strlen(G[gn - 2]), b = gn < 2 ? 0 : strlen(G[gn - 1]);
  if (gn < 2 || b <= a + 1 || strncmp(G[gn - 1], G[gn - 2], a) || G[gn - 1][b - 1] != 'i') { gpush("r", "h1 "); return; }
  char q[20];
  strcpy(q, G[gn - 1] + a);
  q[b - a - 1] = 0;
  int need = 1, ok = 1; // the rest must be one formula
  for (int i = (int)strlen(q) - 1; i >= 0; i--) { if (!need) ok = 0; need += q[i] == 'i' ? 1 : -1; }
  if (!ok || need) { gpush("r", "h1 "); return; }
  tmp1.n = 0;
  syn(&tmp1, G[gn - 2]); syn(&tmp1, q);
  tx(&tmp1, GP[gn - 2].b); tx(&tmp1, GP[gn - 1].b); tx(&tmp1, "mp ");
  gn--;
  strcpy(G[gn - 1], q);
  GP[gn - 1].n = 0;
  tx(&GP[gn - 1], tmp1.b);
}
static void gax(void) { // ax for the formula on top
  static char f[40];
  if (!gn || strlen(G[gn - 1]) > 3) { gpush("rsrii", "wr ws ax "); return; }
  tmp1.n = 0;
  syn(&tmp1, G[gn - 1]); tx(&tmp1, "ws ax ");
  f[0] = 0;
  strcat(f, G[gn - 1]); strcat(f, "s"); strcat(f, G[gn - 1]); strcat(f, "ii");
  gpush(f, tmp1.b);
}
static void generate(int n) {
  gn = 0;
  for (int i = 0; i < n; i++) {
    char c;
    vx_sym_set(&c, 1, i ? "hkamx" : "hkx", i ? 5 : 3, "op");
    switch ((char)vx_conc(c)) {
    case 'h': gpush("r", "h1 "); break;
    case 'k': gpush("rsi", "h2 "); break;
    case 'a': gcombine(); break;
    case 'm': gmp(); break;
    case 'x': gax(); break;
    }
  }
  while (gn > 1 && strlen(G[gn - 1]) + strlen(G[gn - 2]) <= 12) gcombine();
  tx(&T, P0 AX "${ n1 $e |- p $. n2 $e |- q $. an $a |- ( p q ) $. $}\n${ h1 $e |- r $. h2 $e |- ( r s ) $. t $p |- ");
  infix(&T, G[gn - 1] + strlen(G[gn - 1]) - 1);
  tx(&T, "$= ");
  tx(&T, GP[gn - 1].b);
  tx(&T, "$. $}\n");
}
