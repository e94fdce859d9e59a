// WRITE THEOREM_LIST lists every assertion once, under its headings.
#define TX 40000
#include "db.h"
static Txt D, W, X;
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
#define TDEF "$( $t htmldef \"W\" as \"W\"; althtmldef \"W\" as \"W\"; latexdef \"W\" as \"W\"; htmldef \"x\" as \"x\"; althtmldef \"x\" as \"x\"; latexdef \"x\" as \"x\"; htmldef \"y\" as \"y\"; althtmldef \"y\" as \"y\"; latexdef \"y\" as \"y\"; htmltitle \"T\"; htmlhome \"<A HREF='h'><IMG SRC='i'>\"; $)\n$c W $. $v x y $. wx $f W x $. wy $f W y $.\n"
// text between tags, white space as one blank
static int names; // show anchors
static void plain(Txt *t) {
  size_t n = 0;
  for (size_t i = 0; i < t->n; i++) {
    char c = t->b[i];
    if (c == '<') {
      if (!strncmp(t->b + i, "<A HREF=\"", 9) || !strncmp(t->b + i, "<A\n HREF=\"", 10)) { // shows the link
        while (t->b[i] != '"') i++;
        if (n && t->b[n - 1] != ' ') t->b[n++] = ' ';
        t->b[n++] = '@';
        for (i++; t->b[i] != '"'; i++) t->b[n++] = t->b[i];
        t->b[n++] = ' ';
      }
      if (names && (!strncmp(t->b + i, "<A NAME=\"", 9) || !strncmp(t->b + i, "<A\n NAME=\"", 10))) {
        while (t->b[i] != '"') i++;
        if (n && t->b[n - 1] != ' ') t->b[n++] = ' ';
        t->b[n++] = '#';
        for (i++; t->b[i] != '"'; i++) t->b[n++] = t->b[i];
        t->b[n++] = ' ';
      }
      int img = !strncmp(t->b + i, "<IMG", 4);
      while (i < t->n && t->b[i] != '>') i++;
      c = img ? '>' : ' ';
    }
    if (c == '&' && !strncmp(t->b + i, "&nbsp;", 6)) { i += 5; c = ' '; }
    if (c == '&' && !strncmp(t->b + i, "&#8658;", 7)) { i += 6; c = '>'; }
    if (c == '&' && !strncmp(t->b + i, "&#8203;", 7)) { i += 6; c = ' '; }
    if (c == '\n') c = ' ';
    if (c == ' ' && (!n || t->b[n - 1] == ' ')) continue;
    t->b[n++] = c;
  }
  while (n && t->b[n - 1] == ' ') n--;
  t->b[t->n = n] = 0;
}

// the headings of the assertion that follows
typedef struct { int level; char title[24], text[24]; } Hd;
static struct { const char *label, *type; char text[60], formula[24]; int dv, lemma; Hd h[4]; } S[8]; // levels 0 to 3
static int nS;
static Hd cur[4]; // not yet used; no title: none
static const char *const MARK[] = {"####", "#*#*", "=-=-", "-.-."};
static void heading(int level, const char *title, const char *text, int nl) {
  tx(&D, nl ? "$( \n" : "$(\n");
  tx(&D, MARK[level]); tx(&D, "\n"); tx(&D, nl ? "  " : ""); tx(&D, title); tx(&D, "\n"); tx(&D, MARK[level]); tx(&D, "\n");
  tx(&D, text);
  tx(&D, "\n$)\n");
  for (int l = level; l < 4; l++) cur[l].title[0] = 0; // smaller ones before are ignored
  snprintf(cur[level].title, 24, "%s", title);
  snprintf(cur[level].text, 24, "%s", text);
}
static void used(void) {
  for (int l = 0; l < 4; l++) { S[nS].h[l] = cur[l]; cur[l].title[0] = 0; }
}
static void start(void) { D.n = 0; nS = 0; tx(&D, TDEF); for (int l = 0; l < 4; l++) cur[l].title[0] = 0; }
static void assertion(const char *label, int form, const char *descr) {
  if (form == 2) tx(&D, "${ h $e W W $.\n");
  if (form >= 3) tx(&D, "$d x y $.\n");
  tx(&D, "$( "); tx(&D, descr); tx(&D, " $)\n");
  used();
  S[nS].label = label;
  snprintf(S[nS].text, sizeof S[nS].text, "%s", descr);
  S[nS].dv = S[nS].lemma = 0;
  S[nS].type = form == 0 || form == 4 ? !strncmp(label, "ax-", 3) ? "Axiom" : !strncmp(label, "df-", 3) ? "Definition" : "Syntax" : "Theorem";
  S[nS].lemma = !strncmp(descr, "Lemma for ", 10);
  S[nS].dv = form == 4;
  tx(&D, label);
  static const char *const F[] = {" $a W W W $.\n", " $p W W $= ? $.\n", " $p W W $= h $. $}\n", " $p W x $= ? $.\n", " $a W x y $.\n"}, *const G[] = {"WWW", "WW", "WW > WW", "Wx", "Wxy"};
  tx(&D, F[form]);
  snprintf(S[nS].formula, 24, "%s", G[form]);
  nS++;
}
static void num(Txt *t, int k) { char s[4] = {(char)('0' + k), 0}; tx(t, s); }
static int cnt[4];
static void title(Txt *t, int s, int l) { // with its number
  if (l == 0) { tx(t, " PART "); num(t, cnt[0]); }
  else for (int i = 0; i <= l; i++) { tx(t, i ? "." : " "); num(t, cnt[i]); }
  tx(t, " "); tx(t, S[s].h[l].title);
}
static void next(int l) { cnt[l]++; for (int i = l + 1; i < 4; i++) cnt[i] = 0; }
static void compare(const char *what) {
  names = 0;
  plain(&W);
  if (W.n != X.n || memcmp(W.b, X.b, W.n)) { vfs_put("dbg1", W.b, W.n); vfs_put("dbg2", X.b, X.n); }
  vx_assert(W.n == X.n && !memcmp(W.b, X.b, W.n), what);
}
static char *after(char *p, const char *s, const char *what) {
  p = p ? strstr(p, s) : 0;
  vx_assert(p != 0, what);
  return p + strlen(s);
}
static char page[30000];
static char *load(int p) {
  char fn[24];
  size_t n;
  if (p) snprintf(fn, sizeof fn, "mmtheorems%d.html", p); else snprintf(fn, sizeof fn, "mmtheorems.html");
  char *o = vfs_get(fn, &n);
  if (!o) return 0;
  vx_assert(n < sizeof page, "long page");
  memcpy(page, o, n);
  page[n] = 0;
  return page;
}
static void part(char *a, char *e) { X.n = 0; txn(&X, a, e - a); plain(&X); }
static void list(int per, int lemmas) {
  int pages = (nS + per - 1) / per;
  vx_assert(!out_has("?BUG") && !out_has("?Error"), "the session does not end");
  vx_assert(load(pages + 1) == 0, "more pages than needed");
  for (int p = 0; p <= pages; p++) {
    char *o = load(p), *e;
    vx_assert(o != 0, "a page is missing");
    if (p == 0) { // the contents: summary and details
      for (int pass = 0; pass < 2; pass++) {
        char *b = after(o, pass ? ">Detailed Table of Contents</B>" : ">Table of Contents Summary</B>", "no table of contents");
        e = strstr(b, "<HR");
        vx_assert(e != 0, "no end of the table of contents");
        names = 0;
        part(b, e);
        W.n = 0;
        if (pass) tx(&W, "(* means the section header has a description) ");
        for (int l = 0; l < 4; l++) cnt[l] = 0;
        for (int s = 0; s < nS; s++) for (int l = 0; l < (pass ? 4 : 2); l++) if (S[s].h[l].title[0]) {
          next(l);
          if (pass) {
            tx(&W, " @mmtheorems"); num(&W, s / per + 1); tx(&W, ".html#mm"); num(&W, s + 1);
            tx(&W, l == 0 ? "h " : l == 1 ? "b " : "s ");
            tx(&W, S[s].h[l].text[0] ? "*" : "");
            W.b[W.n] = 0;
            Txt *t = &W;
            size_t at = t->n;
            title(t, s, l);
            memmove(t->b + at, t->b + at + 1, t->n - at - 1); // no blank after *
            t->n--;
            if (l > 1) { tx(&W, " @"); tx(&W, S[s].label); tx(&W, ".html "); tx(&W, S[s].label); tx(&W, " "); num(&W, s + 1); }
          } else {
            tx(&W, " @#dtl:"); num(&W, cnt[0]);
            if (l) { tx(&W, "."); num(&W, cnt[1]); }
            title(&W, s, l);
          }
        }
        compare(pass ? "the table of contents is not that of the headings" : "the summary is not that of the headings");
      }
    } else {
      char *b = after(o, "<CAPTION>", "no caption of the table");
      e = strstr(b, "</CAPTION>");
      vx_assert(e != 0, "no end of the caption");
      names = 0;
      part(b, e);
      W.n = 0;
      tx(&W, "Theorem List for T - "); num(&W, (p - 1) * per + 1); tx(&W, " - "); num(&W, p * per < nS ? p * per : nS); tx(&W, " *Has distinct variable group(s)");
      compare("the caption does not have the range of the page");
      b = after(o, "Statement</TH></TR>", "no table of assertions");
      e = strstr(b, "</TABLE>");
      vx_assert(e != 0, "no end of the table");
      names = 1;
      part(b, e);
      W.n = 0;
      for (int l = 0; l < 4; l++) cnt[l] = 0;
      for (int s = 0; s < nS && s < p * per; s++) {
        int here = s >= (p - 1) * per;
        for (int l = 0; l < 4; l++) if (S[s].h[l].title[0]) {
          next(l);
          if (!here) continue;
          tx(&W, " #mm"); num(&W, s + 1); tx(&W, l == 0 ? "h" : l == 1 ? "b" : "s");
          title(&W, s, l);
          tx(&W, " "); tx(&W, S[s].h[l].text);
        }
        if (!here) continue;
        tx(&W, " "); tx(&W, S[s].type); tx(&W, " @"); tx(&W, S[s].label); tx(&W, ".html "); tx(&W, S[s].label); tx(&W, " "); num(&W, s + 1);
        tx(&W, S[s].dv ? " *" : ""); tx(&W, " #"); tx(&W, S[s].label); tx(&W, " ");
        tx(&W, S[s].text); tx(&W, " ");
        tx(&W, S[s].lemma && !lemmas ? "[Auxiliary lemma - not displayed.]" : S[s].formula);
      }
      compare("the page does not list its assertions");
    }
    char *b = after(o, "Jump to page: ", "no list of the pages"); // on every page
    e = strstr(b, "<HR");
    vx_assert(e != 0, "no end of the list of the pages");
    names = 0;
    part(b, e);
    W.n = 0;
    for (int q = 0; q <= pages; q++) {
      if (q != p) { tx(&W, " @mmtheorems"); if (q) num(&W, q); tx(&W, ".html"); }
      tx(&W, " ");
      if (!q) { tx(&W, "Contents"); continue; }
      int lo = (q - 1) * per + 1, hi = q * per < nS ? q * per : nS;
      num(&W, q); tx(&W, " "); num(&W, lo);
      tx(&W, " - "); num(&W, hi);
    }
    compare("the list of the pages is wrong");
    b = after(b, "SIZE=-1 FACE=sans-serif>", "no links to the other pages");
    e = strstr(b, "</FONT>");
    vx_assert(e != 0, "no end of the links");
    part(b, e);
    W.n = 0;
    for (int q = 0; q < 2; q++) { // round the pages
      int to = q ? p == pages ? 0 : p + 1 : p ? p - 1 : pages;
      tx(&W, " @mmtheorems"); if (to) num(&W, to); tx(&W, ".html ");
      tx(&W, q ? p == pages ? "Wrap &gt;" : "Next &gt;" : p ? "&lt; Previous" : "&lt; Wrap");
    }
    compare("the links to the previous and next page are wrong");
  }
}
static void go(int per, int how) {
  static char cmd[200];
  static const char *const Q[] = {"", " / html", " / alt_html", " / alt_html / show_lemmas"};
  vfs_put("t.mm", D.b, D.n);
  if (per) snprintf(cmd, sizeof cmd, "read t.mm\nwrite theorem_list / theorems_per_page %d%s\nexit\n", per, Q[how]);
  else snprintf(cmd, sizeof cmd, "read t.mm\nwrite theorem_list%s\nexit\n", Q[how]);
  mm_script(cmd);
  list(per ? per : 100, how == 3);
  vx_cover("listed");
}
// pages and rows
static void rows(void) {
  static const char *const LB[] = {"a", "ax-b", "df-c", "d", "e", "f"}, *const DE[] = {"One.", "Lemma for the next.", "A lemma for all."};
  start();
  int n = 1 + pick(5);
  if (n < 3 && pick(2)) heading(0, "P", "", 0);
  for (int i = 0; i < n; i++) {
    int form = i < 3 ? pick(i == 1 ? 5 : i ? 1 : 2) : i == 3 ? 2 : 4;
    if (i == 1 && form == 2) form = 3;
    assertion(LB[i], form, DE[i < 2 ? pick(2) : i % 3]);
  }
  go(pick(6), n < 3 ? pick(4) : 2 + pick(2));
}
// headings
static void heads(int v) {
  static const char *const TI[] = {"A", "Bee", "C c", "D"};
  start();
  int nl = 0;
  for (int i = 0; i < 3; i++) {
    int n = i == 2 ? 1 : pick(3);
    for (int k = 0; k < n; k++) {
      int l = i == 2 ? 1 + k : pick(4);
      heading(l, TI[(k + i) % 4], v && (i + k) % 2 ? "About it." : "", nl++ % 2);
      if (k == 0 && v) tx(&D, "$( Comment. $)\n$c V0 $.\n" + 0), D.b[D.n - 5] = (char)('0' + i);
    }
    assertion(i == 0 ? "a" : i == 1 ? "b" : "c", 0, "X.");
  }
  go(1 + pick(3), 2);
}
static void sizes(void) {
  static const char *const Z[] = {"0", "-1", "-100", "-0"};
  static char cmd[120];
  start();
  assertion("a", 0, "X.");
  if (pick(2)) assertion("b", 1, "Y.");
  vfs_put("t.mm", D.b, D.n);
  snprintf(cmd, sizeof cmd, "read t.mm\nwrite theorem_list / theorems_per_page %s%s\nexit\n", Z[pick(4)], pick(2) ? " / alt_html" : "");
  mm_script(cmd);
  vx_assert(out_has("?") && !load(0) && !load(1), "a page size that is not positive is accepted");
  vx_cover("refused");
}
void vx_main(int v) {
  vx_libc_init();
  if (v == 3) { sizes(); return; }
  if (v == 0) rows();
  else heads(v - 1);
}
