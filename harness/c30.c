// WRITE RECENT_ADDITIONS lists the latest assertions.
#define TX 40000
#include "db.h"
static Txt D, W, X, F;
static int pick(int n) {
  unsigned char k = 0;
  vx_sym(&k, 1, "choice");
  vx_assume(k < n);
  return vx_conc(k);
}
#define TDEF "$( $t htmldef \"W\" as \"W\"; althtmldef \"W\" as \"W\"; latexdef \"W\" as \"W\"; htmlbibliography \"mmset.html\"; $)\n$c W $.\n"
static const char *const MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
#define TODAY 2024, 1, 15 // of the runtime
typedef struct { int y, m, d; } Date;
static int day(Date a) { return a.y * 500 + a.m * 40 + a.d; }
static const Date TD = {TODAY};
static void date_(Txt *t, Date a) {
  char s[20];
  snprintf(s, sizeof s, "%d-%s-%d", a.d, MON[a.m - 1], a.y);
  tx(t, s);
}
// the assertions
static struct { char label[8], *formula; char text[300]; Date last; int ok, number; } S[8];
static int nS;
static Txt E; // a description
static void assertion(Date last, int ok, const char *label, const char *form, const char *end) { // the description is in E
  tx(&D, "$( "); txn(&D, E.b, E.n); tx(&D, " $)\n");
  tx(&D, label); tx(&D, " "); tx(&D, form); tx(&D, end);
  snprintf(S[nS].label, 8, "%s", label);
  S[nS].last = last;
  S[nS].ok = ok && day(last) <= day(TD);
  S[nS].number = nS + 1;
  E.b[E.n] = 0;
  snprintf(S[nS].text, sizeof S[nS].text, "%s", E.b);
  nS++;
}
// text between tags, white space as one blank
static void plain(Txt *t) {
  size_t n = 0;
  for (size_t i = 0; i < t->n; i++) {
    char c = t->b[i];
    if (c == '<') {
      if (!strncmp(t->b + i, "<A HREF=\"", 9) || !strncmp(t->b + i, "<A\n HREF=\"", 10)) { // shows the link
        while (t->b[i] != '"') i++;
        t->b[n++] = '@';
        for (i++; t->b[i] != '"'; i++) t->b[n++] = t->b[i];
        t->b[n++] = ' ';
      }
      int img = !strncmp(t->b + i, "<IMG", 4);
      while (i < t->n && t->b[i] != '>') i++;
      c = img ? '>' : ' ';
    }
    if (c == '&' && !strncmp(t->b + i, "&nbsp;", 6)) { i += 5; c = ' '; }
    if (c == '&' && !strncmp(t->b + i, "&#8658;", 7)) { i += 6; c = '>'; }
    if (c == '\n') c = ' ';
    if (c == ' ' && (!n || t->b[n - 1] == ' ')) continue;
    t->b[n++] = c;
  }
  while (n && t->b[n - 1] == ' ') n--;
  t->b[t->n = n] = 0;
}
static const char *const TOP = "<HTML>\n <!-- #START# -->\n<!-- last updated --> then\n<!-- #START# -->", *const OLD = "\n<TR>old</TR>\n<!-- #START# -->\n", *const END = "<!-- #END# -->\nrest\n\n<!-- #END# -->\nend\n";
static void before(void) {
  F.n = 0;
  tx(&F, TOP); tx(&F, OLD); tx(&F, END);
  vfs_put("r.html", F.b, F.n);
  vfs_put("mmset.html", "x\n", 2);
  vfs_put("t.mm", D.b, D.n);
}
static int order(int *who) { // the latest first; of one day the last first
  int n = 0;
  for (int i = 0; i < nS; i++) if (S[i].ok) {
    int k = n++;
    while (k > 0 && day(S[who[k - 1]].last) <= day(S[i].last)) { who[k] = who[k - 1]; k--; }
    who[k] = i;
  }
  return n;
}
static void rows(int limit) {
  int who[8], n = order(who);
  W.n = 0;
  for (int i = 0; i < n && i < limit; i++) {
    int s = who[i];
    char num[4] = {(char)('0' + S[s].number), 0};
    tx(&W, " "); date_(&W, S[s].last);
    tx(&W, " @"); tx(&W, S[s].label); tx(&W, ".html "); tx(&W, S[s].label); tx(&W, " "); tx(&W, num); tx(&W, " ");
    tx(&W, S[s].text);
    tx(&W, s % 2 ? " W > WW" : " WWW");
  }
  plain(&W);
}
static void after(int limit) {
  size_t n;
  char *o = vfs_get("r.html", &n);
  vx_assert(o != 0 && !out_has("?BUG") && !out_has("?Error"), "the session does not end");
  size_t e = strlen(END);
  vx_assert(n >= e && !memcmp(o + n - e, END, e), "the text below the rows is changed");
  size_t at = 0;
  for (int line = 0; line < 4; line++) { // the four lines of TOP, the third with a date
    if (line == 2) vx_assert(n > at + 21 && !memcmp(o + at, "<!-- last updated -->", 21) && has(o + at, 60, "15-Jan-2024"), "the date above is not updated");
    else {
      const char *l = line == 0 ? "<HTML>\n" : line == 1 ? " <!-- #START# -->\n" : "<!-- #START# -->\n";
      vx_assert(n > at + strlen(l) && !memcmp(o + at, l, strlen(l)), "the text above the rows is changed");
    }
    while (at < n && o[at++] != '\n') ;
  }
  X.n = 0;
  txn(&X, o + at, n - e - at);
  plain(&X);
  rows(limit);
  if (W.n != X.n || memcmp(W.b, X.b, W.n)) { vfs_put("dbg1", W.b, W.n); vfs_put("dbg2", X.b, X.n); }
  vx_assert(W.n == X.n && !memcmp(W.b, X.b, W.n), "the rows are not the latest assertions");
  o = vfs_get("r.html~1", &n);
  vx_assert(o && n == F.n && !memcmp(o, F.b, n), "the old file is not kept");
}
static const char *const FORM[] = {"$a W W W", "$p W W", "$p W W W", "$a W W"}, *const LB[] = {"a", "b", "c", "d"};
static void add(int i, Date last, int ok) {
  if (i % 2) tx(&D, i == 1 ? "${ h1 $e W $.\n" : "${ h3 $e W $.\n");
  assertion(last, ok, LB[i], FORM[i], i == 1 ? " $= ? $. $}\n" : i == 2 ? " $= ? $.\n" : i == 3 ? " $. $}\n" : " $.\n");
}
static void start(void) { D.n = 0; nS = 0; tx(&D, TDEF); }
static void entry(const char *what, Date a) {
  tx(&E, " ("); tx(&E, what); tx(&E, " by NM, "); date_(&E, a); tx(&E, ".)");
}
static void descr(int i) {
  E.n = 0;
  tx(&E, i == 0 ? "First." : i == 1 ? "About 3-Jan-2024." : i == 2 ? "C." : "The last.");
}
static void go(int limit, int how) {
  static char cmd[200];
  before();
  static const char *const Q[] = {"", " / html", " / alt_html"};
  if (limit < 100) snprintf(cmd, sizeof cmd, "read t.mm\nwrite recent_additions r.html / limit %d%s\nexit\n", limit, Q[how]);
  else snprintf(cmd, sizeof cmd, "read t.mm\nwrite recent_additions r.html%s\nexit\n", Q[how]);
  mm_script(cmd);
}
// selection and order
static void latest(void) {
  static const Date C[] = {{2024, 1, 15}, {2024, 1, 14}, {2024, 1, 1}, {2023, 12, 31}, {2024, 1, 16}, {0, 0, 0}};
  start();
  int n = 0, ok;
  for (int i = 0; i < 4; i++) {
    int c = i == 3 ? 3 : pick(6);
    descr(i);
    if (c < 5) entry("Contributed", C[c]);
    ok = c < 4;
    n += ok;
    add(i, C[c], ok);
  }
  int limit = 1 + pick(4);
  vx_assume(limit <= n); // otherwise the search goes back to 1993
  go(limit, pick(3));
  after(limit);
  vx_cover("listed");
}
// any two dates
static void dates(void) {
  Date a = {2023, 1 + pick(12), 0}, b = {2023, 0, 0};
  static const int dd[] = {1, 2, 9, 10, 30, 31};
  b.m = a.m + pick(3) - 1;
  vx_assume(b.m >= 1 && b.m <= 12);
  a.d = dd[pick(6)];
  b.d = dd[pick(6)];
  start();
  descr(0); entry("Contributed", a); add(0, a, 1);
  descr(1); entry("Contributed", b); add(1, b, 1);
  go(2, 2);
  after(2);
  vx_cover("listed");
}
// all that there are
static void all(void) {
  static const Date C[] = {{1993, 1, 1}, {2000, 2, 29}, {2023, 11, 30}};
  start();
  for (int i = 0; i < 2; i++) { int c = pick(3); descr(i); entry("Contributed", C[c]); add(i, C[c], 1); }
  go(pick(2) ? 100 : 3, 2);
  after(100);
  vx_cover("listed");
}
// the date that counts
static void most(void) {
  static const char *const K[] = {"Contributed", "Revised", "Proof shortened", "Proof modification is discouraged"};
  static const Date C[] = {{2023, 12, 30}, {2024, 1, 2}, {2023, 12, 9}, {2024, 1, 12}};
  static const int base[] = {0, 1, 1, 2};
  Date last = {0, 0, 0}, first = last, rev = last, sh = last;
  start();
  descr(0); entry("Contributed", (Date){2024, 1, 3}); add(0, (Date){2024, 1, 3}, 1);
  descr(1);
  int n = 1 + pick(3);
  for (int i = 0; i < n; i++) {
    int k = i == 0 ? pick(4) : 1 + pick(2), c = pick(4);
    if (k == 3) { tx(&E, " (New usage is discouraged.)"); continue; }
    tx(&E, !i && pick(2) ? "\n    " : " ");
    entry(K[k], C[c]);
    if (k == 0) first = C[c];
    if (k == 1) rev = C[c]; // the last one
    if (k == 2) sh = C[c];
  }
  (void)base;
  last = first;
  if (day(rev) > day(last)) last = rev;
  if (day(sh) > day(last)) last = sh;
  add(1, last, day(last) > 0);
  descr(2); entry("Contributed", (Date){2023, 12, 1}); add(2, (Date){2023, 12, 1}, 1);
  int limit = 2 + (day(last) > 0);
  go(limit, 2);
  after(limit);
  vx_cover("listed");
}
// the dates of the database that is there now
static void history(void) {
  int how = pick(4), k = pick(3);
  static const Date C[] = {{2024, 1, 10}, {2024, 1, 12}, {2023, 12, 30}};
  start();
  for (int i = 0; i < 3; i++) { descr(i); entry("Contributed", C[(i + k) % 3]); add(i, C[(i + k) % 3], 1); }
  vfs_put("o.mm", D.b, D.n);
  start();
  for (int i = 0; i < 3; i++) {
    descr(i);
    if (i != 2 || how == 0) entry("Contributed", C[i]);
    add(i, C[i], i != 2 || how == 0);
  }
  // c $p W W W $= ? $. gets a proof
  if (how) {
    D.n = 0;
    tx(&D, TDEF);
    tx(&D, "$( First. (Contributed by NM, 10-Jan-2024.) $)\na $a W W W $.\n${ h1 $e W $.\n$( About 3-Jan-2024. (Contributed by NM, 12-Jan-2024.) $)\nb $p W W $= ? $. $}\n$( C. $)\nc $p W W W $= a $.\n");
    S[1].last = C[1];
    S[2].last = TD;
    S[2].ok = 1;
    snprintf(S[2].text, sizeof S[2].text, "C. (Contributed by NM, 15-Jan-2024.)");
  }
  before();
  vfs_put("s.html", F.b, F.n);
  mm_script(how == 0 ? "read o.mm\nwrite recent_additions s.html / limit 3\nerase\nread t.mm\nwrite recent_additions r.html / limit 3\nexit\n"
            : how == 1 ? "read t.mm\nset contributor NM\nwrite recent_additions s.html / limit 2\nsave proof c / normal\nwrite recent_additions r.html / limit 3\nexit\n"
            : how == 2 ? "read t.mm\nset contributor NM\nwrite recent_additions s.html / limit 2\nsave proof * / compressed\nwrite recent_additions r.html / limit 3\nexit\n"
                       : "read t.mm\nset contributor NM\nwrite recent_additions s.html / limit 2\nprove c\ndelete all\nassign last a\nsave new_proof\nexit\nwrite recent_additions r.html / limit 3\nexit\n");
  after(3);
  vx_cover("listed");
}
// files without the two lines are left alone; the date is updated
static void file(void) {
  static const char *const LN[] = {"<!-- #START# -->", "<!-- #END# -->", "x", " <!-- #START# -->", "This page was last updated on 1-Jan-2001."};
  int k[4], n = 1 + pick(4);
  F.n = 0;
  for (int i = 0; i < n; i++) {
    k[i] = pick(5);
    tx(&F, LN[k[i]]);
    tx(&F, "\n");
  }
  vfs_put("r.html", F.b, F.n);
  vfs_put("mmset.html", "x\n", 2);
  start();
  descr(0); entry("Contributed", (Date){2024, 1, 3}); add(0, (Date){2024, 1, 3}, 1);
  vfs_put("t.mm", D.b, D.n);
  mm_script("read t.mm\nwrite recent_additions r.html / limit 1\nexit\n");
  int s = 0, e;
  while (s < n && k[s] != 0) s++;
  e = s + 1;
  while (e < n && k[e] != 1) e++;
  size_t z;
  char *o = vfs_get("r.html", &z);
  vx_assert(o != 0 && !out_has("?BUG"), "the file is lost");
  if (s >= n || e >= n) {
    vx_assert(z == F.n && !memcmp(o, F.b, z), "a file without the two lines is changed");
    vx_assert(out_has("?"), "no message that the lines are missing");
    vx_cover("unchanged");
    return;
  }
  X.n = 0;
  txn(&X, o, z);
  plain(&X);
  rows(1);
  D.n = 0;
  txn(&D, W.b, W.n);
  W.n = 0;
  for (int i = 0; i <= s; i++) { tx(&W, LN[k[i]]); tx(&W, "\n"); }
  tx(&W, " ");
  txn(&W, D.b, D.n);
  tx(&W, " ");
  for (int i = e; i < n; i++) {
    tx(&W, k[i] == 4 ? "This page was last updated on 15-Jan-2024." : LN[k[i]]);
    tx(&W, "\n");
  }
  plain(&W);
  if (W.n != X.n || memcmp(W.b, X.b, W.n)) { vfs_put("dbg1", W.b, W.n); vfs_put("dbg2", X.b, X.n); }
  vx_assert(W.n == X.n && !memcmp(W.b, X.b, W.n), "the file is not updated between the two lines");
  o = vfs_get("r.html~1", &z);
  vx_assert(o && z == F.n && !memcmp(o, F.b, z), "the old file is not kept");
  vx_cover("listed");
}
void vx_main(int v) {
  vx_libc_init();
  if (v == 0) latest();
  else if (v == 1) dates();
  else if (v == 2) most();
  else if (v == 3) history();
  else if (v == 5) all();
  else file();
}
