#pragma once
#include "vx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
// text builder
#ifndef TX
#define TX 6000
#endif
typedef struct { char b[TX]; size_t n; } Txt;
static void tx(Txt *t, const char *s) { size_t l = strlen(s); memcpy(t->b + t->n, s, l); t->n += l; t->b[t->n] = 0; }
static void txn(Txt *t, const char *s, size_t l) { memcpy(t->b + t->n, s, l); t->n += l; t->b[t->n] = 0; }
// append one symbolic byte out of the given set
static char *txs(Txt *t, const char *set, const char *name) {
  char *p = t->b + t->n;
  vx_sym_set(p, 1, set, strlen(set), name);
  t->n++;
  t->b[t->n] = 0;
  return p;
}
// a template in which ^set^ stands for one symbolic byte
static void txf(Txt *t, const char *f, const char *name) {
  while (*f) {
    if (*f == '^') {
      const char *e = f + 1;
      while (*e != '^') e++;
      vx_sym_set(t->b + t->n, 1, f + 1, e - f - 1, name);
      t->n++;
      f = e + 1;
      continue;
    }
    t->b[t->n++] = *f++;
  }
  t->b[t->n] = 0;
}
// the same, one path per value from the start
static void txk(Txt *t, const char *f, const char *name) {
  size_t n = t->n;
  txf(t, f, name);
  for (; n < t->n; n++) t->b[n] = (char)vx_conc(t->b[n]);
}
static int has(const char *h, size_t n, const char *needle) {
  size_t m = strlen(needle);
  for (size_t i = 0; i + m <= n; i++) {
    if (h[i] != needle[0]) continue;
    size_t j = 1;
    while (j < m && h[i + j] == needle[j]) j++;
    if (j == m) return 1;
  }
  return 0;
}
static int count_of(const char *h, size_t n, const char *needle) {
  size_t m = strlen(needle);
  int c = 0;
  for (size_t i = 0; i + m <= n; i++) {
    if (h[i] != needle[0]) continue;
    size_t j = 1;
    while (j < m && h[i + j] == needle[j]) j++;
    if (j == m) c++;
  }
  return c;
}
static int out_has(const char *needle) { size_t n; char *o = run_out(&n); return has(o, n, needle); }
// run a command script (commands separated by newlines) from standard input
static int mm_script(const char *s) {
  char *av[2] = {"metamath", 0};
  static Txt in;
  in.n = 0;
  tx(&in, "set scroll continuous\n");
  tx(&in, s);
  return run_mm(1, av, in.b, in.n);
}
