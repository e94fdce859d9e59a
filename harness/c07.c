// File inclusion: what READ makes of $[ ... $], how errors are located, and the ways back with WRITE SOURCE.
#include "db.h"
static Txt F[4], E, G, M; // t.mm b.mm c.mm d.mm (d.mm may be missing), expansion, expected error places
static const char *NM[4] = {"t.mm", "b.mm", "c.mm", "d.mm"};
static int inc[4], missing, depth;
static char decl[128];
static int tok(const Txt *f, size_t *i, size_t *l) { // next token: start in *i, length *l; 0 at the end
  while (*i < f->n && r_ws(f->b[*i])) ++*i;
  size_t j = *i;
  while (j < f->n && !r_ws(f->b[j])) j++;
  return (*l = j - *i) != 0;
}
static int is(const Txt *f, size_t i, size_t l, const char *s) { return l == strlen(s) && !memcmp(f->b + i, s, l); }
static void place(int k, size_t i) {
  char b[40];
  long n = 1;
  for (size_t j = 0; j < i; j++) n += F[k].b[j] == '\n';
  int l = sprintf(b, "?Error on line %ld of file \"%s\"\n", n, NM[k]) - 1;
  if (G.n > l && !memcmp(G.b + G.n - 1 - l, b, l)) return;
  tx(&G, b);
}
static void expand(int k) {
  const Txt *f = F + k;
  size_t i = 0, l;
  int cm = 0, inc_ = 0, name = 0;
  inc[k] = 1;
  while (tok(f, &i, &l)) {
    size_t at = i;
    i += l;
    if (cm) { if (is(f, at, l, "$)")) cm = 0; continue; }
    if (is(f, at, l, "$(")) { cm = 1; continue; }
    if (is(f, at, l, "$[")) { inc_ = 1; continue; }
    if (is(f, at, l, "$]")) {
      inc_ = 0;
      if (inc[name]) vx_cover("included again");
      else if (!F[name].n) { missing = 1; inc[name] = 1; }
      else { vx_cover("included"); expand(name); }
      continue;
    }
    if (inc_) { for (name = 0; name < 3 && !is(f, at, l, NM[name]); name++); continue; }
    txn(&E, f->b + at, l);
    tx(&E, "\n");
    if (l == 1) { // a declared constant
      if (decl[(int)f->b[at]]) place(k, at);
      decl[(int)f->b[at]] = 1;
    }
  }
}
static void tokens(Txt *d, const char *s, size_t n) { // tokens outside comments
  static Txt f;
  size_t i = 0, l;
  int cm = 0;
  d->n = f.n = 0;
  txn(&f, s, n);
  while (tok(&f, &i, &l)) {
    if (cm) { if (is(&f, i, l, "$)")) cm = 0; }
    else if (is(&f, i, l, "$(")) cm = 1;
    else { txn(d, s + i, l); tx(d, "\n"); }
    i += l;
  }
}
static void same(const char *name, const Txt *t, const char *why) {
  size_t n;
  char *o = vfs_get(name, &n);
  vx_assert(o && n == t->n && !memcmp(o, t->b, n), why);
}
static void expect_tokens(const char *name) {
  size_t n;
  char *o = vfs_get(name, &n);
  vx_assert(o != 0, "the merged file was not written");
  tokens(&M, o, n);
  vx_assert(M.n == E.n && !memcmp(M.b, E.b, M.n), "the merged source is not the inclusion's expansion");
}
void vx_main(int v) {
  vx_libc_init();
  const char *cmd = "";
  switch (v) {
  case 0:; // who includes whom
    txf(F, "$c 1 $. $[ ^tbcd^.mm $] $c 2 $.\n$[ ^bc^.mm $]\n", "n");
    txf(F + 1, "$c 3 $. $[ ^tbcd^.mm $] $c 4 $.\n", "n");
    txf(F + 2, "$( x $[ d.mm $] $) $[ ^tbc^.mm $] $c 5 $. $[ ^bd^.mm $]\n", "n");
    txf(F + 3, "^5\n^\n", "n");
    int d = F[3].b[0] == '5';
    F[3].n = 0;
    if (d) { txf(F + 3, "$c 6 $. $[ ^bct^.mm $]\n", "n"); }
    cmd = "write source o.mm / keep_includes";
    break;
  case 1: // layout; comments; an empty file
    txf(F, "^$ ^( ^ \n^$[ d.mm $]^ \n^$)^ \n^$[ ^b^.mm^ \n^$]^ \n^$( $]^ \n^ $)^ \n^$c 2^ \n^$.^ \n^$[ c.mm $]", "n");
    txf(F + 1, "^ \n^^ \n^$c 3^ \n^$.^ \n^", "n");
    txf(F + 2, "$( $[ ^ \n^$)^ \n^$[^ \n^$(^ \n^$[ t.mm $]^ \n^$)^ \n^b.mm^ \n^$( a $) $]^ \n^", "n");
    if (F[0].b[0] == ' ') { F[0].b[1] = ' '; F[0].b[15] = F[0].b[16] = ' '; }
    cmd = "write source o.mm / keep_includes";
    break;
  case 2: // places of errors: redeclared symbols
    txk(F, "$c 1 2 3 $.\n$[ b.mm $]^ \n^$c^ \n^2 $.^ \n^$[ c.mm $] $c 3 $.\n", "n");
    txk(F + 1, "^ \n^$c ^1z^ $.\n $[ c.mm $]^ \n^$c 2 $.", "n");
    txk(F + 2, "$c^ \n^ 1 $. $[^ \n^b.mm $]^ \n^$c 3 $.\n", "n");
    break;
  case 7:
    txk(F, "\n^ \n^$[ b.mm $] $[ c.mm $]\n$[ c.mm $]^ \n^$c 2 2 $.^ \n^$[ t.mm^ \n^$] $c 2 $.\n", "n");
    txk(F + 1, "$[ c.mm $]^ \n^$c 1 $. $[ c.mm $] $c 1 $.^ \n^$[ d.mm $]\n", "n");
    txk(F + 2, "$c 2^ \n^ 2 $.\n", "n");
    txk(F + 3, "^ \n^ $( x^ \n^ $) $c 2 $.\n", "n");
    break;
  case 9: // inclusion commands of several lines
    txk(F, "$c 1 2 3 $.\n$[^ \n^b.mm^ \n^$] $c 2 $. $[ c.mm^ \n^$] $c 3 $.\n", "n");
    txk(F + 1, "$c 1 $.\n $[^ \n^$( x^ \n^ $) c.mm ^ \n^$]^ \n^$c 2 $.", "n");
    txk(F + 2, "$c 1 $. $[ d.mm $( a^ \n^b $)^ \n^$] $c 3 $.\n", "n");
    txk(F + 3, "$c 2\n $.\n", "n");
    break;
  case 3: // split again
  case 4: // merge, read the merged file, split
  case 5: // the same without backups
    txf(F, "^ \n^$[ b.mm $]^ \n^$c 1 $. $[ ^bc^.mm $]^ \n^$( $[ d.mm $] $)\n", "n");
    txf(F + 1, "^ \n^$c 2 $.^ \n^$[ ^c^.mm $]^ \n^^ \n^$[ d.mm $]\n", "n");
    txf(F + 2, "$( ^ \nx^ $) $[ ^bdc^.mm $]^ \n^\n", "n");
    txf(F + 3, "$c 4 $.^ \n^$[ ^bc^.mm $] $( End^s \n^ $)^ \n^\n", "n");
    cmd = v == 3 ? "write source t2.mm / split" : v == 4 ? "write source m.mm\nerase\nread m.mm\nwrite source t2.mm / split"
        : "write source m.mm / no_versioning\nerase\nread m.mm\nwrite source t2.mm / split / no_versioning";
    break;
  case 10: { // names that begin with other names
    static const char *const N2[] = {"b.mm", "b.mmc", "b.m"};
    static const char *const PT[4][4] = {{"$c 1 $. $[ ", " $]\n$c 2 $. $[ ", " $]\n", 0}, {"$c 3 $.\n$[ ", " $] $c 7 $.\n", 0}, {"$[ ", " $] $c 4 $. $[ ", " $]\n", 0}, {"$c 5 $.\n$[ ", " $] $c 6 $.\n", 0}};
    for (int k = 0; k < 4; k++) {
      if (k) NM[k] = N2[k - 1];
      for (int i = 0; PT[k][i]; i++) {
        tx(F + k, PT[k][i]);
        if (!PT[k][i + 1]) break;
        char c;
        vx_sym_set(&c, 1, "012", 3, "name");
        tx(F + k, N2[(char)vx_conc(c) - '0']);
      }
    }
    cmd = "write source m.mm\nerase\nread m.mm\nwrite source t2.mm / split";
    break;
  }
  case 11: { // splitting where the included files exist already, with other contents
    tx(F + 1, "$c 1 $.\n$c 2 $.\n");
    tx(F + 2, "$( b $) $[ c.mm $]\n$c 3 $.\n");
    static Txt m, d;
    tx(&m, "$c 4 $.\n$( Begin $[ b.mm $] $)\n$( b $) $( Begin $[ c.mm $] $)\n$c 1 $.\n$c 2 $.\n$( End $[ c.mm $] $)\n$c 3 $.\n$( End $[ b.mm $] $)\n$( Skip $[ c.mm $] $)\n");
    vfs_put("m.mm", m.b, m.n);
    tx(F, "$c 4 $.\n$[ b.mm $]\n$[ c.mm $]\n");
    static const char *const fn[] = {"c.mm", "c.mm~1", "b.mm"};
    static const char *const al[] = {"nspecx", "nsex", "nspx"};
    for (int i = 0; i < 3; i++) {
      const Txt *w = i == 2 ? F + 2 : F + 1;
      char c;
      vx_sym_set(&c, 1, al[i], strlen(al[i]), fn[i]);
      c = (char)vx_conc(c);
      if (c == 'n') continue;
      d.n = 0;
      txn(&d, w->b, w->n);
      if (c == 'p') d.n = 8; // its first line or so
      if (c == 'e') tx(&d, "$c 5 $.\n");
      if (c == 'c') d.b[3] = '6';
      if (c == 'x') { d.n = 0; tx(&d, "x\n"); }
      vfs_put(fn[i], d.b, d.n);
    }
    char c;
    vx_sym_set(&c, 1, "nv", 2, "versions");
    mm_script(vx_conc(c) == 'v' ? "read m.mm\nwrite source t2.mm / split\nexit\n" : "read m.mm\nwrite source t2.mm / split / no_versioning\nexit\n");
    vx_assert(!out_has("?Error") && !out_has("?BUG"), "a merged file is not split");
    same("t2.mm", F, "the main file is not split as before");
    same("b.mm", F + 2, "an included file is not restored");
    same("c.mm", F + 1, "an included file is not restored");
    vx_cover("split");
    return;
  }
  case 6: // markup left by an earlier merge, with a further file included inside
    txf(F, "$c 1 $. $[ b.mm $]^ \n^$c 2 $.\n", "n");
    txf(F + 1, "$( ^x^ $)^ \n^$[ ^ct^.mm $] $c 3 $.^ \n^$[ ^cd^.mm $]\n", "n");
    txf(F + 2, "$c 4 $. $[ ^dbt^.mm $]^ \n^\n", "n");
    txf(F + 3, "$c ^5^ $.^ \n^$( d dd ddd $)\n", "n");
    cmd = "write source o.mm / keep_includes\nwrite source t2.mm / split";
    break;
  }
  for (int k = 0; k < 4; k++) if (F[k].n) vfs_put(NM[k], F[k].b, F[k].n);
  if (v == 6) { // t.mm as a merged file that still has an unexpanded include
    static Txt h;
    vfs_put("t0.mm", F[0].b, F[0].n);
    tx(&h, "$c 1 $. $( Begin $[ b.mm $] $)\n");
    txn(&h, F[1].b, F[1].n);
    tx(&h, "$( End $[ b.mm $] $)");
    txn(&h, F[0].b + 18, F[0].n - 18);
    vfs_put("t.mm", h.b, h.n);
  }
  if (v == 8) { // errors in a merged file, in the middle of what was included and after it
    txk(F, "$c 1 2\n$.^ \n^$( Begin $[ b.mm $] $)^ \n^$c 1^ \n^$. $( Begin $[ c.mm $] $)^ \n^$c 1 $.^ \n^$( End $[ c.mm $] $)^ \n^$c 1 $. $( Skip $[ c.mm $] $)^ \n^$c 1 $. $( End $[ b.mm $] $)\n$c^ \n^2 $. $( Skip $[ b.mm $] $)\n$c 2 $.\n", "n");
    vfs_put("t.mm", F[0].b, F[0].n);
  }
  expand(0);
  static Txt s;
  tx(&s, "read t.mm\n");
  tx(&s, cmd);
  tx(&s, "\nexit\n");
  db_run(s.b);
  size_t n;
  char *o = run_out(&n);
  if (missing) {
    vx_cover("missing");
    vx_assert(has(o, n, "?Error: file \"d.mm"), "a missing file is not reported");
    vx_assert(!vfs_get("o.mm", &n), "a source with a missing file can be written");
    return;
  }
  static Txt P; // places of the errors reported
  P.n = 0;
  for (size_t i = 0; i + 8 < n; i++) if (!memcmp(o + i, "?Error", 6)) {
    size_t j = i, q = 0;
    while (o[j] != '\n' && q < 2) q += o[j++] == '"';
    if (P.n > j - i && !memcmp(P.b + P.n - 1 - (j - i), o + i, j - i)) continue; // the same place again
    txn(&P, o + i, j - i);
    tx(&P, "\n");
  }
  vx_assert(P.n == G.n && !memcmp(P.b, G.b, P.n), "errors are located in another place");
  if (G.n) vx_cover("error located");
  switch (v) {
  case 0: case 1: expect_tokens("o.mm"); vx_cover("merged"); break;
  case 6: expect_tokens("o.mm"); vx_cover("merged"); same("t2.mm", F, "the main file is not split as before"); goto incl;
  case 3: case 4: case 5: case 10:
    same("t2.mm", F, "the main file is not split as before");
    vx_cover("split");
    if (v > 3) expect_tokens("m.mm");
  incl:
    for (int k = 1; k < 4; k++) if (inc[k]) same(NM[k], F + k, "an included file is not restored");
  }
}
