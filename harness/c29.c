// WRITE BIBLIOGRAPHY lists exactly the references in the descriptions.
#define TX 40000
#include "db.h"
static Txt D, W, X, F;
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
#define TDEF "$( $t htmldef \"W\" as \"W\"; althtmldef \"W\" as \"W\"; latexdef \"W\" as \"W\"; htmlbibliography \"mmset.html\"; $)\n"
// the references, as the reader means them
typedef struct { char text[64]; const char *author; char page[12]; int stmt; char key[160]; } Bib;
static Bib BR[12];
static int nR;
static char label[8][12];
static int number[8]; // of the assertion
static int ext = 99; // the first statement of the extension
static void bib(int stmt, const char *text, const char *author, const char *page) {
  Bib *r = &BR[nR++];
  snprintf(r->text, sizeof r->text, "%s", text);
  if (r->text[0] >= 'a' && r->text[0] <= 'z') r->text[0] -= 32;
  r->author = author;
  snprintf(r->page, sizeof r->page, "%s", page);
  r->stmt = stmt;
}
static void str(char *d, const char *s) { while (*d) d++; while ((*d++ = *s++)) ; }
static void pad(char *d, const char *s, int n) { for (int k = n - (int)strlen(s); k > 0; k--) str(d, " "); str(d, s); }
static int same_ref(const Bib *a, const Bib *b) { return !strcmp(a->author, b->author) && !strcmp(a->page, b->page) && !strcmp(a->text, b->text); }
static void rows(void) { // by author, page and text; the labels together
  for (int i = 0; i < nR; i++) {
    char *k = BR[i].key;
    k[0] = 0;
    str(k, BR[i].author);
    str(k, " ");
    pad(k, BR[i].page, 4);
    pad(k, BR[i].text, 20);
    if (!BR[i].text[0]) str(k, "");
    str(k, "|");
    str(k, label[BR[i].stmt]);
    str(k, "\"");
  }
  for (int i = 1; i < nR; i++) for (int j = i; j > 0 && strcmp(BR[j - 1].key, BR[j].key) > 0; j--) { Bib t = BR[j]; BR[j] = BR[j - 1]; BR[j - 1] = t; }
  for (int i = 0; i < nR; i++) {
    int again = i && same_ref(&BR[i], &BR[i - 1]);
    if (!again) {
      tx(&W, "<TR><TD NOWRAP>[<A HREF=\""); tx(&W, BR[i].stmt >= ext ? "ext.html#" : "mmset.html#");
      tx(&W, BR[i].author); tx(&W, "\">"); tx(&W, BR[i].author);
      tx(&W, "</A>] p. "); tx(&W, BR[i].page);
      tx(&W, "</TD><TD>"); tx(&W, BR[i].text); tx(&W, "</TD><TD>");
    } else tx(&W, " &nbsp;");
    tx(&W, "<A HREF=\""); tx(&W, label[BR[i].stmt]); tx(&W, ".html\">"); tx(&W, label[BR[i].stmt]);
    tx(&W, "</A>&nbsp;<SPAN CLASS=r>");
    char n[4] = {(char)('0' + number[BR[i].stmt]), 0};
    tx(&W, n);
    tx(&W, "</SPAN>");
    if (i == nR - 1 || !same_ref(&BR[i], &BR[i + 1])) tx(&W, "</TD></TR> ");
  }
}
static void norm(Txt *t) { // blanks, and the colour of the numbers
  size_t n = 0;
  for (size_t i = 0; i < t->n; i++) {
    char c = t->b[i] == '\n' ? ' ' : t->b[i];
    if (c == ' ' && (!n || t->b[n - 1] == ' ')) continue;
    if (!strncmp(t->b + i, "STYLE=\"color:#", 14) && n && t->b[n - 1] == ' ') { n--; i += 20; continue; }
    if (!strncmp(t->b + i, "<TR BGCOLOR=", 12)) { // of an extension
      memcpy(t->b + n, "<TR>", 4);
      n += 4;
      for (i += 12; t->b[i] != '>'; i++) ;
      continue;
    }
    if (c == '<' && n > 1 && t->b[n - 1] == ' ' && !strncmp(t->b + i, "</TD>", 5)) n--;
    t->b[n++] = c;
  }
  t->b[t->n = n] = 0;
}
static const char *const BEFORE = "<HTML>\n  <!-- #START# --> x\n<!-- #END# -->\n\n", *const AFTER = "rest\n\n<!-- #START# -->\n  <!-- #END# -->\n<!-- #END# -->\nend  \n";
static const char MS[] = "<A NAME=\"Monk\"></A>\n<A NAME=\"Quine\"></A>\n<A NAME=\"A1\"></A>\n";
static void result(int refs) {
  F.n = 0;
  tx(&F, BEFORE);
  tx(&F, "<!-- #START# -->\nold\n<TR>old</TR>\n<!-- #END# -->\n");
  tx(&F, AFTER);
  vfs_put("b.html", F.b, F.n);
  vfs_put("mmset.html", MS, sizeof MS - 1);
  vfs_put("ext.html", MS, sizeof MS - 1);
  vfs_put("t.mm", D.b, D.n);
  mm_script("read t.mm\nwrite bibliography b.html\nexit\n");
  size_t n;
  char *o = vfs_get("b.html", &n);
  vx_assert(o != 0 && !out_has("?BUG") && !out_has("?Error"), "the session does not end");
  size_t b = strlen(BEFORE) + 17, e = strlen(AFTER) + 15;
  vx_assert(n >= b + e && !memcmp(o, F.b, b) && !memcmp(o + n - e, F.b + F.n - e, e), "the text around the table is changed");
  X.n = 0;
  txn(&X, o + b, n - b - e);
  norm(&X);
  W.n = 0;
  rows();
  norm(&W);
  if (W.n != X.n || memcmp(W.b, X.b, W.n)) { vfs_put("dbg1", W.b, W.n); vfs_put("dbg2", X.b, X.n); }
  vx_assert(W.n == X.n && !memcmp(W.b, X.b, W.n), "the table does not list the references");
  o = vfs_get("b.html~1", &n);
  vx_assert(o && n == F.n && !memcmp(o, F.b, n), "the old file is not kept");
  (void)refs;
}
static const char *const KW[] = {"Axiom", "Chapter", "Claim", "Compare", "Conclusion", "Condition", "Conjecture", "Corollary", "Criteria", "Criterion", "Definition", "Equation", "Example",
  "Exercise", "Fact", "Figure", "Introduction", "Item", "Lemma", "Lemmas", "Line", "Lines", "Notation", "Note", "Observation", "Paragraph", "Part", "Postulate", "Problem", "Proof", "Property",
  "Proposition", "Remark", "Result", "Rule", "Scheme", "Scolia", "Scolion", "Section", "Statement", "Subsection", "Table", "Theorem"};
static void cased(char *d, const char *s, int how) {
  for (int i = 0; s[i]; i++) {
    char c = s[i];
    if (how == 1 && c >= 'A' && c <= 'Z') c += 32;
    if ((how == 2 || (how == 3 && i % 2)) && c >= 'a' && c <= 'z') c -= 32;
    d[i] = c;
    d[i + 1] = 0;
  }
}
static void start(void) { D.n = 0; nR = 0; tx(&D, TDEF "$c W $.\n"); }
static void stmt(int i, int num, const char *l) {
  number[i] = num;
  strcpy(label[i], l);
}
// one reference, written in all ways
static void one(int v) {
  static const char *const ID[] = {"", " 3", " 4.10(b)", " (xii)", " 12.34567890123(abc)", " 3 on sets", "\n  3"}, *const NO[] = {"", " of", " in", " from", " on"},
    *const PG[] = {"2", "12", "345", "1234", "12345", "ix", "3a", "xviii"}, *const END[] = {",", ".", "; and", " and", ")", "\n", ""};
  int k = v == 0 ? pick(43) : 42, how = v == 0 ? pick(4) : 0, id = v ? pick(7) : pick(2), no = v ? pick(5) : 1, pg = v ? pick(8) : 0, en = v ? pick(7) : 1;
  int nl = v ? pick(3) : 0, at = pick(2);
  if (id == 5 && !no) return; // the noise word of the identifier
  if (v) vx_assume((id != 1) + (no != 1) + (pg != 0) + (en != 1) + (nl != 0) <= 2);
  char text[64], w[40];
  cased(w, KW[k], how);
  snprintf(text, sizeof text, "%s%s", w, ID[id]);
  start();
  tx(&D, "$( X. $)\nax $a W $.\n$( ");
  tx(&D, at ? "As is well known; " : "");
  if (v == 1 && id == 1) { // a free character
    static const char set[] = "0aZ.-)(+'*/&";
    unsigned char c;
    vx_sym_set(&c, 1, set, sizeof set - 1, "identifier");
    c = vx_conc(c);
    text[strlen(text) - 1] = c;
  }
  tx(&D, text);
  tx(&D, NO[no]);
  tx(&D, nl == 1 ? "\n  [Monk]" : " [Monk]");
  tx(&D, nl == 2 ? "\n  p. " : " p. ");
  tx(&D, PG[pg]);
  tx(&D, END[en]);
  tx(&D, " $)\nth $p W $= ax $.\n");
  stmt(0, 2, "th");
  bib(0, text, "Monk", PG[pg]);
  result(1);
  vx_cover("listed");
}
// several, sorted and put together
static void many(int v) {
  static const char *const T[] = {"Theorem 3", "Theorem 10", "Theorem 3", "Lemma 1", "Theorem 3", "Exercise"}, *const A[] = {"Monk", "Monk", "Monk", "Quine", "A1", "Quine"}, *const P[] = {"2", "2", "12", "2", "111", "ii"};
  static const char *const l[] = {"b", "a", "ab", "c"};
  static const int in[] = {0, 1, 1, 2, 3};
  int which[5];
  start();
  if (v) {
    static char t[300];
    ext = pick(4);
    snprintf(t, sizeof t, "$( $t exthtmllabel \"%s\"; exthtmltitle \"E\"; exthtmlhome \"E\"; exthtmlbibliography \"ext.html\";", l[ext]);
    D.n = 0;
    tx(&D, t);
    tx(&D, TDEF + 5);
    tx(&D, "$c W $.\n");
  }
  for (int i = 0; i < 5; i++) {
    which[i] = i == 4 ? pick(v ? 1 : 3) : pick(v ? 3 : i == 1 ? 7 : 4);
    if (!v && i == 3 && which[i] != 3) which[i] += 3;
  }
  for (int i = 0; i < 4; i++) {
    stmt(i, i + 1, l[i]);
    if (i == 2) tx(&D, "$( Theorem 3 of [Monk] p. 7. $)\n$c V $.\n"); // no assertion
    tx(&D, "$( A. ");
    for (int k = 0; k < 5; k++) if (in[k] == i && which[k] < 6) {
      tx(&D, " ("); tx(&D, T[which[k]]); tx(&D, " of ["); tx(&D, A[which[k]]); tx(&D, "] p. "); tx(&D, P[which[k]]); tx(&D, ").");
      bib(i, T[which[k]], A[which[k]], P[which[k]]);
    }
    tx(&D, " $)\n");
    tx(&D, l[i]);
    tx(&D, i == 2 ? " $p W $= b $.\n" : " $a W $.\n");
  }
  result(nR);
  vx_cover("listed");
}
// what is no reference
static void none(void) {
  static const char *const N[] = {"Theorem 3 of [[Monk] p. 2.", "Theorem 3 of [see Monk] p. 2.", "Theorem ` [ W ] p. 2 ` .", "Theorem 3 of ` [Monk] p. 2 ` .", "Theorem 3 of [Monk, p. 2.", "[Monk] p. 2.", "Theorem 3 of [Monk].",
    "Theorem 3 of [?] p. 2.", "Some [Monk] page 2.", "Theorem 3 in Monk p. 2.", "Theorem `` [ `` of [Quine] p. 2."};
  static const int warn[] = {0, 0, 0, 0, 0, 1, 2, 0, 1, 0, 0};
  static const char *const L[] = {"th", "thOLD", "NEWth", "thold"};
  int k = pick(10), l = pick(4), other = pick(3), e = pick(2), m = other == 2 ? pick(10) : 0;
  start();
  tx(&D, "$( X. $)\nax $a W $.\n");
  if (e) tx(&D, "$( Theorem 3 of [Monk] p. 3. $)\n${ $( Theorem 3 of [Monk] p. 4. $) h $e W $.\n$( Theorem 3 of [Monk] p. 5. $)\n");
  tx(&D, "$( ");
  if (other == 1) tx(&D, "Lemma 2 from [Quine] p. 17.  ");
  tx(&D, N[k]);
  tx(&D, " $)\n");
  tx(&D, L[l]);
  tx(&D, e ? " $p W $= ax $. $}\n" : " $p W $= ax $.\n");
  if (other == 2) { tx(&D, "$( "); tx(&D, N[m]); tx(&D, " $)\nz $a W $.\n"); }
  int out_ = l == 1 || l == 2;
  stmt(0, 2, L[l]);
  if (other == 1 && !out_) bib(0, "Lemma 2", "Quine", "17");
  if (other == 1 && warn[k] == 1) return; // the keyword before counts
  result(nR);
  char s[80];
  for (int q = 0; q < 2; q++) {
    int w = q ? other == 2 ? warn[m] : 0 : out_ ? 0 : warn[k];
    if (q && other != 2) break;
    snprintf(s, sizeof s, "keyword missing in comment for \"%s\"", q ? "z" : L[l]);
    vx_assert(out_has(s) == (w == 1), "whether a warning says that the keyword is missing");
    snprintf(s, sizeof s, "No page number after [<author>] bib ref in \"%s\"", q ? "z" : L[l]);
    vx_assert(out_has(s) == (w == 2), "whether a warning says that the page is missing");
  }
  vx_cover("listed");
}
// files without the two lines are left alone; the date is updated
static void file(void) {
  static const char *const LN[] = {"<!-- #START# -->", "<!-- #END# -->", "x", " <!-- #START# -->", "This page was last updated on 1-Jan-2001."};
  int k[4], n = 1 + pick(4);
  F.n = 0;
  for (int i = 0; i < n; i++) {
    k[i] = pick(5);
    tx(&F, LN[k[i]]);
    tx(&F, "\n");
  }
  vfs_put("b.html", F.b, F.n);
  vfs_put("mmset.html", MS, sizeof MS - 1);
  start();
  tx(&D, "$( Theorem 3 of [Monk] p. 2. $)\nax $a W $.\n");
  vfs_put("t.mm", D.b, D.n);
  mm_script("read t.mm\nwrite bibliography b.html\nexit\n");
  int s = 0, e;
  while (s < n && k[s] != 0) s++;
  e = s + 1;
  while (e < n && k[e] != 1) e++;
  size_t z;
  char *o = vfs_get("b.html", &z);
  vx_assert(o != 0 && !out_has("?BUG"), "the file is lost");
  if (s >= n || e >= n) {
    vx_assert(z == F.n && !memcmp(o, F.b, z), "a file without the two lines is changed");
    vx_assert(out_has("?"), "no message that the lines are missing");
    vx_cover("unchanged");
    return;
  }
  stmt(0, 1, "ax");
  bib(0, "Theorem 3", "Monk", "2");
  X.n = 0;
  txn(&X, o, z);
  norm(&X);
  W.n = 0;
  for (int i = 0; i <= s; i++) { tx(&W, LN[k[i]]); tx(&W, "\n"); }
  rows();
  tx(&W, "\n");
  for (int i = e; i < n; i++) {
    tx(&W, k[i] == 4 ? "This page was last updated on " : LN[k[i]]);
    tx(&W, "\n");
  }
  norm(&W);
  size_t m = 0; // without today's date
  for (size_t i = 0; i < X.n; i++) {
    X.b[m++] = X.b[i];
    size_t at = i + 1;
    if (at >= 30 && !strncmp(X.b + m - 30, "This page was last updated on ", 30) && m >= 30) {
      size_t q = at;
      while (q < X.n && X.b[q] != '.') q++;
      int old = q - at == 10 && !strncmp(X.b + at, "1-Jan-2001", 10), below = strstr(X.b, "</TD></TR>") && strstr(X.b, "</TD></TR>") < X.b + m;
      if (below) { vx_assert(!old, "the date is not updated"); i = q + (q + 1 < X.n && X.b[q + 1] == ' '); }
    }
  }
  X.b[X.n = m] = 0;
  if (W.n != X.n || memcmp(W.b, X.b, W.n)) { vfs_put("dbg1", W.b, W.n); vfs_put("dbg2", X.b, X.n); }
  vx_assert(W.n == X.n && !memcmp(W.b, X.b, W.n), "the file is not updated between the two lines");
  o = vfs_get("b.html~1", &z);
  vx_assert(o && z == F.n && !memcmp(o, F.b, z), "the old file is not kept");
  vx_cover("listed");
}
void vx_main(int v) {
  vx_libc_init();
  if (v < 2) one(v);
  else if (v == 2 || v == 5) many(v == 5);
  else if (v == 3) none();
  else file();
}
