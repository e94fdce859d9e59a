// Web pages and LaTeX show the formulas and descriptions of the database, symbol by symbol.
#include "db.h"
#include "gen.h"
static Txt S, W, W2, G_, E;
static size_t pn;
static char *pg;
static void squeeze(Txt *d, const char *s, size_t n) {
  d->n = 0;
  for (size_t i = 0; i < n; i++) if (s[i] != ' ' && s[i] != '\n') d->b[d->n++] = s[i];
  d->b[d->n] = 0;
}
static size_t find(const char *s, size_t n, size_t from, const char *what) {
  size_t m = strlen(what);
  for (size_t i = from; i + m <= n; i++) if (s[i] == what[0] && !memcmp(s + i, what, m)) return i;
  return (size_t)-1;
}
// what lies between a and b, after position from (moved past it), squeezed into G_
static int between(const char *a, const char *b, size_t *from) {
  size_t i = find(pg, pn, *from, a), j = i == (size_t)-1 ? i : find(pg, pn, i + strlen(a), b);
  if (j == (size_t)-1) return 0;
  squeeze(&G_, pg + i + strlen(a), j - i - strlen(a));
  *from = j + strlen(b);
  return 1;
}
static void page(const char *f) {
  pg = vfs_get(f, &pn);
  vx_assert(pg != 0, "no page was written");
}
#define SAME(d, msg) vx_assert(G_.n == (d)->n && !memcmp(G_.b, (d)->b, G_.n), msg)
static void eq(const char *s, const char *msg) { squeeze(&E, s, strlen(s)); SAME(&E, msg); }
#define DEFS "htmltitle \"T\"; htmlhome \"<A HREF='x.html'><IMG SRC='x.gif'></A>\"; exthtmllabel \"ax\"; htmldir \"h/\"; althtmldir \"a/\"; htmlbibliography \"b.html\"; exthtmlbibliography \"b.html\"; htmlvarcolor \"vars\";\n"
// --- typesetting definitions: quoted strings joined by +, ended by a semicolon, with C comments between
static const char *q;
static int ws(char c) { return c == ' ' || c == '\n'; }
static int al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static int skip(void) { // white space and comments; 0: a comment does not end
  for (;;) {
    while (ws(*q)) q++;
    if (q[0] != '/' || q[1] != '*') return 1;
    q += 2;
    while (*q && !(q[0] == '*' && q[1] == '/')) q++;
    if (!*q) return 0;
    q += 2;
  }
}
static int str(Txt *d) {
  if (!skip()) return 0;
  char c = *q;
  if (c != '"' && c != '\'') return 0;
  q++;
  for (;;) {
    if (!*q) return 0;
    if (*q == c) {
      if (q[1] != c) break;
      q++;
    }
    txn(d, q++, 1);
  }
  q++;
  return 1;
}
static int word(const char *w) {
  if (!skip()) return 0;
  size_t n = strlen(w);
  if (strncmp(q, w, n) || al(q[n])) return 0;
  q += n;
  return 1;
}
static Txt P, VAL;
static int nval;
static int defs(const char *t) { // 1: well formed; VAL, nval: the values of althtmldef p
  q = t;
  nval = 0;
  for (;;) {
    if (!skip()) return 1; // an unended comment hides the rest
    if (!*q) return 1;
    int alt = word("althtmldef"), htm = alt ? 0 : word("htmldef");
    if (!alt && !htm) return 0;
    P.n = 0; P.b[0] = 0;
    if (!str(&P)) return 0;
    if (!word("as")) return 0;
    E.n = 0; E.b[0] = 0;
    for (;;) {
      if (!str(&E)) return 0;
      if (!skip()) return 0;
      if (*q != '+') break;
      q++;
    }
    if (*q != ';') return 0;
    q++;
    if (alt && P.n == 1 && P.b[0] == 'p') { VAL.n = 0; VAL.b[0] = 0; txn(&VAL, E.b, E.n); nval++; }
  }
}
static const struct { const char *pre, *free_, *post; } DEF[] = {
  {"althtmldef \"p\" as \"a\"", "^\"'+;/* a^^\"'+;/* a^^\"'+;/* a^", "\"b\"; htmldef \"p\" as \"x\";"},
  {"althtmldef 'p' as \"", "^\"' a+;^^\"' a^^\"' a^^\"'+;^", "; htmldef 'p' as 'x';"},
  {"althtmldef /* ", "^*/ \"p^^*/ \"p^^*/ \"p^^*/ \"p^", "*/ \"p\" as 'c'; htmldef \"p\" as 'y' + \"z\"/**/;"},
  {"althtmldef \"p\"", "^ as\"/^^ as\"*^^ as\"*^^ as\"/^", "s 'c' + \"d\"; htmldef \"p\" as 'y';"},
  {"/* a */ althtmldef \"p\" as 'it''s' + \"e\" ;", "^h; */^^t; */^", "htmldef \"q\" as 'althtmldef \"p\" as \"f\" ;'; /* end */"}};
static void tdefs(void) {
  unsigned char k;
  vx_sym(&k, 1, "form");
  vx_assume(k < sizeof DEF / sizeof DEF[0]);
  k = (unsigned char)vx_conc(k);
  T.n = 0;
  W.n = 0;
  tx(&W, DEF[k].pre);
  txk(&W, DEF[k].free_, "d");
  tx(&W, DEF[k].post);
  tx(&T, "$c |- ( $. $v p $. wp $f |- p $. ax $a |- ( p $. $( $t\n" DEFS "althtmldef \"|-\" as '|-'; althtmldef \"(\" as '['; \nhtmldef \"|-\" as '|-'; htmldef \"(\" as '['; \n");
  tx(&T, W.b);
  tx(&T, "\n$)\n");
  vfs_put("t.mm", T.b, T.n);
  mm_script("read t.mm\nshow statement ax / alt_html\nexit\n");
  vx_assert(!out_has("?BUG") && !has(run_out(&pn), pn, "There are two comments"), "the program gives up");
  if (!defs(W.b)) {
    vx_assert(out_has("?Error") && out_has("here."), "ill-formed typesetting definitions are accepted");
    vx_assert(out_has("HTML generation was aborted"), "a page is written without definitions");
    vx_cover("ill-formed");
    return;
  }
  vx_assert(!out_has("?Error"), "well-formed typesetting definitions are rejected");
  if (nval > 1) { vx_cover("defined twice"); return; }
  if (nval == 0) {
    vx_assert(out_has("\"p\""), "a missing definition is not reported");
    vx_cover("not defined");
    return;
  }
  page("ax.html");
  size_t at = 0;
  vx_assert(between("SUMMARY=\"Assertion\"", "<SPAN", &at) && between(">", "</SPAN>", &at), "the page has no formula");
  S.n = 0;
  tx(&S, "|-[");
  txn(&S, VAL.b, VAL.n);
  eq(S.b, "the page shows a wrong formula");
  vx_cover("shown");
}
// --- descriptions
#define SYM "$c ( ) W |- -> < [ _ $. $v p q r ~ \" $. wp $f W p $. wq $f W q $. wr $f W r $. wn $f W ~ $. wo $f W \" $.\nwi $a W ( p -> q ) $.\n"
#define SYMDEFS "althtmldef '(' as '&lang;'; althtmldef ')' as '&rang;'; althtmldef 'W' as \"wff \"; althtmldef '|-' as \"&#8866; \"; althtmldef '->' as ' &rarr; '; althtmldef '<' as '&lt;'; althtmldef '[' as '&lsb;';\n" \
  "althtmldef '_' as '<U>u</U>'; althtmldef 'p' as \"<I>p</I>\"; althtmldef 'q' as '<I>q</I>'; althtmldef 'r' as \"r'\"; althtmldef '~' as '&sim;'; althtmldef '\"' as '&quot;';\n" \
  "htmldef '(' as '<('; htmldef ')' as ')>'; htmldef 'W' as \"w\"; htmldef '|-' as \"t\"; htmldef '->' as ' i '; htmldef '<' as 'lt'; htmldef '[' as 'lsb';\n" \
  "htmldef '_' as 'u_'; htmldef 'p' as \"P\"; htmldef 'q' as 'Q'; htmldef 'r' as \"R\"; htmldef '~' as 'sim'; htmldef '\"' as 'quo';\n" \
  "latexdef '(' as '('; latexdef ')' as ')'; latexdef 'W' as \"{\\rm wff}\"; latexdef '|-' as \"\\vdash\"; latexdef '->' as '\\rightarrow'; latexdef '<' as '\\langle'; latexdef '[' as '\\lbrack';\n" \
  "latexdef '_' as '\\us'; latexdef 'p' as \"\\varphi\"; latexdef 'q' as '\\psi'; latexdef 'r' as \"x\"; latexdef '~' as '\\neg'; latexdef '\"' as 'y';\n"
static const struct { const char *s, *alt, *htm, *tex; } SY[] = {
  {"(", "&lang;", "<(", "("}, {")", "&rang;", ")>", ")"}, {"W", "wff", "w", "{\\rmwff}"}, {"|-", "&#8866;", "t", "\\vdash"}, {"->", "&rarr;", "i", "\\rightarrow"},
  {"<", "&lt;", "lt", "\\langle"}, {"[", "&lsb;", "lsb", "\\lbrack"}, {"_", "<U>u</U>", "u_", "\\us"}, {"p", "<I>p</I>", "P", "\\varphi"}, {"q", "<I>q</I>", "Q", "\\psi"}, {"r", "r'", "R", "x"},
  {"~", "&sim;", "sim", "\\neg"}, {"\"", "&quot;", "quo", "y"}};
static void sym(Txt *d, const char *p, int n, int mode) { // appends what stands for a symbol
  for (unsigned i = 0; i < sizeof SY / sizeof SY[0]; i++)
    if ((int)strlen(SY[i].s) == n && !memcmp(SY[i].s, p, n)) { tx(d, mode == 0 ? SY[i].alt : mode == 1 ? SY[i].htm : SY[i].tex); return; }
  vx_assert(0, "ref: symbol");
}
#define PINK(n, c) "&nbsp;<SPANCLASS=rSTYLE=\"color:#" c "\">" n "</SPAN>"
static const struct { const char *s, *d; } BL[] = {
  {"word", "word"}, {"<b>", "&lt;b&gt;"}, {"\"q\"", "&quot;q&quot;"}, {"``", "`"}, {"~~", "~"}, {"[[x]", "[x]"}, {"a__b", "a_b"}, {"_em ph_", "<I>emph</I>"},
  {"a_n", "a<SUB><FONTSIZE=\"-1\">n</FONT></SUB>"}, {"~ ax", "<AHREF=\"ax.html\">ax</A>@"}, {"` ( p -> q ) `", "<SPAN>&lang;<I>p</I>&rarr;<I>q</I>&rang;</SPAN>"},
  {"` < [ _ ~ \" ]]`", 0}, {"` < _ [ ~ _ \" `", "<SPAN>&lt;<U>u</U>&lsb;&sim;<U>u</U>&quot;</SPAN>"}, {"~ http://x.y/a_b", "<AHREF=\"http://x.y/a_b\">http://x.y/a_b</A>"},
  {"[Bo-1]", "[<AHREF=\"b.html#Bo-1\">Bo-1</A>]"}, {"(~ w_1 ),", "(<AHREF=\"w_1.html\">w_1</A>@),"}, {"a&amp;b", "a&amp;b"}, {"$ 1.", "$1."}, {"` p `,", "<SPAN><I>p</I></SPAN>,"}, {"[ y", "[y"}, {"[[z", "[z"}, {"\n", "<PSTYLE=\"margin-bottom:0em\">"}};
#define NBL (sizeof BL / sizeof BL[0])
static void description(void) {
  unsigned char k[3];
  T.n = W.n = W2.n = 0;
  const char *stale = "";
  tx(&T, SYM "ax $a |- ( p -> p ) $. w_1 $a |- ( p -> q ) $.\n$( ");
  for (int i = 0; i < 3; i++) {
    vx_sym(k + i, 1, "block");
    vx_assume(k[i] < NBL && k[i] != 11);
    if (i == 1) vx_assume(k[1] >= 3);
    if (i == 0) vx_assume(k[0] != NBL - 1);
    if (i == 2) vx_assume(k[2] != NBL - 1 && ((k[0] < 3 || k[2] == 0 || k[2] == 5 || k[2] == 7 || k[2] == 8 || k[2] == 9 || k[2] == 10 || k[2] == 13)));
    k[i] = (unsigned char)vx_conc(k[i]);
    if (i) tx(&T, i == 1 ? "\n" : " ");
    tx(&T, BL[k[i]].s);
    for (const char *p = BL[k[i]].d; *p; p++)
      if (*p == '@') {
        stale = k[i] == 9 ? PINK("2", "7F8300") : PINK("3", "00915E");
        tx(&W, stale);
        tx(&W2, stale);
      } else { txn(&W, p, 1); txn(&W2, p, 1); }
    if (k[i] == 13) tx(&W2, stale); // a recorded defect: the link repeats the number of the label before it
  }
  tx(&T, " $)\nt $a |- ( q -> p ) $.\n$( $t " DEFS SYMDEFS "$)\n");
  vfs_put("t.mm", T.b, T.n);
  mm_script("read t.mm\nshow statement t / alt_html\nexit\n");
  vx_assert(!out_has("?BUG") && !out_has("?Error"), "the program gives up");
  page("t.html");
  size_t at = 0;
  vx_assert(between("<B>Description:", "</TD></TR></TABLE></CENTER>", &at), "the page has no description");
  S.n = 0;
  tx(&S, "</B>");
  txn(&S, W.b, W.n);
  squeeze(&E, S.b, S.n);
  if (W.n != W2.n && G_.n == W2.n + 4 && !memcmp(G_.b + 4, W2.b, W2.n)) vx_finding("number-after-link");
  else SAME(&E, "the page shows another description");
  vx_cover("shown");
}
// any bytes
static void bytes(void) {
  T.n = 0;
  tx(&T, SYM "ax $a |- ( p -> p ) $.\n$( ");
  char c;
  vx_sym_set(&c, 1, "abc", 3, "form");
  c = (char)vx_conc(c);
  txk(&T, c == 'a' ? "^~`_[]^^ ~`_[]a^^ ~`_[]a^^~`_]^" : c == 'b' ? "^ ~`_[<\"\n^^ ~`_]>\"\n^^ ~`_]>&\n^" : "<^/HM^TM^LP^>^ _~`^^ _~`\n^<^/H^TML>", "c");
  tx(&T, " $)\nt $a |- ( q -> p ) $.\n$( $t " DEFS SYMDEFS "$)\n");
  vfs_put("t.mm", T.b, T.n);
  int tex = 0;
  if (c != 'c') { char m; vx_sym_set(&m, 1, "ht", 2, "output"); tex = (char)vx_conc(m) == 't'; }
  mm_script(tex ? "read t.mm\nopen tex t.tex\nshow statement t / tex\nclose tex\nexit\n" : "read t.mm\nshow statement t / alt_html\nexit\n");
  vx_assert(!out_has("?BUG"), "the program gives up");
  page(tex ? "t.tex" : "t.html");
  if (tex) squeeze(&G_, pg, pn);
  else {
    size_t at = 0;
    vx_assert(between("SUMMARY=\"Assertion\"", "<SPAN", &at) && between(">", "</SPAN>", &at), "the page has no formula");
  }
  vx_assert(has(G_.b, G_.n, tex ? "\\vdash(\\psi\\rightarrow\\varphi)" : "&#8866;&lang;<I>q</I>&rarr;<I>p</I>&rang;"), "the page shows a wrong formula");
  vx_cover("written");
}
static void fml(Txt *d, const char *s, int mode) {
  while (*s) {
    while (*s == ' ') s++;
    const char *e = s;
    while (*e && *e != ' ') e++;
    if (e > s) sym(d, s, (int)(e - s), mode);
    s = e;
  }
}
// the formulas of a statement: hypotheses and assertion
static void formulas(void) {
  char m, x[3][24];
  vx_sym_set(&m, 1, "aht", 3, "output");
  m = (char)vx_conc(m);
  int mode = m == 'a' ? 0 : m == 'h' ? 1 : 2;
  T.n = 0;
  tx(&T, SYM "${ ");
  for (int i = 0; i < 3; i++) {
    W.n = 0;
    tx(&W, "|- ");
    txk(&W, i == 0 ? "^<[_~\"p^ ^(r^" : i == 1 ? "^pr^ -> ^pqr)^ r" : "^[r^ ^r\"^", "s");
    strcpy(x[i], W.b);
    tx(&T, i == 0 ? "h.1 $e " : i == 1 ? "h.2 $e " : "t $a ");
    tx(&T, W.b);
    tx(&T, " $. ");
  }
  tx(&T, "$}\n$( $t " DEFS SYMDEFS "$)\n");
  vfs_put("t.mm", T.b, T.n);
  mm_script(mode == 0 ? "read t.mm\nshow statement t / alt_html\nexit\n" : mode == 1 ? "read t.mm\nshow statement t / html\nexit\n" : "read t.mm\nopen tex t.tex / no_header\nshow statement t / tex\nclose tex\nexit\n");
  vx_assert(!out_has("?BUG") && !out_has("?Error"), "the program gives up");
  page(mode == 2 ? "t.tex" : "t.html");
  size_t at = 0;
  if (mode == 2) {
    S.n = 0; // spacing commands apart
    for (size_t i = 0; i < pn; i++) if (pg[i] == '\\' && i + 1 < pn && pg[i + 1] == ',') i++; else if (pg[i] != ' ' && pg[i] != '\n') txn(&S, pg + i, 1);
    for (int i = 0; i < 3; i++) {
      E.n = 0;
      E.b[0] = 0;
      fml(&E, x[i], 2);
      size_t k = find(S.b, S.n, at, E.b);
      vx_assert(k != (size_t)-1, "the page shows a wrong formula");
      at = k + E.n;
    }
  } else {
    for (int i = 0; i < 3; i++) {
      if (i == 0) vx_assert(between("SUMMARY=\"Hypotheses\"", "<TR ALIGN=LEFT>", &at), "the page has no table of hypotheses");
      if (i == 2) vx_assert(between("SUMMARY=\"Assertion\"", "<TR ALIGN=LEFT>", &at), "the page has no assertion");
      vx_assert(between("<TD>", "</TD>", &at) && has(G_.b, G_.n, i == 0 ? "h.1" : i == 1 ? "h.2" : "<B>t</B>"), "a row has another label");
      vx_assert(between("<TD>", "</TD></TR>", &at), "a row ends early");
      S.n = 0;
      S.b[0] = 0;
      if (mode == 0) tx(&S, "<SPAN>");
      fml(&S, x[i], mode);
      if (mode == 0) tx(&S, "</SPAN>");
      eq(S.b, "the page shows a wrong formula");
    }
  }
  vx_cover("shown");
}
// the proof table shows the steps that SHOW PROOF shows
static void proof(void) {
  char f;
  T.n = W.n = 0;
  vx_sym_set(&f, 1, "np", 2, "format");
  f = (char)vx_conc(f);
  generate(4);
  tx(&T, "$( $t " DEFS "althtmldef '(' as '['; althtmldef ')' as ']'; althtmldef 'W' as 'w'; althtmldef '|-' as '|- '; althtmldef 'p' as 'P'; althtmldef 'q' as 'Q'; althtmldef 'r' as ' R'; althtmldef 's' as 'S '; $)\n");
  vfs_put("t.mm", T.b, T.n);
  S.n = 0;
  tx(&S, "read t.mm\n");
  tx(&S, f == 'p' ? "save proof t / compressed\n" : "save proof t / normal\n");
  tx(&S, "show proof t / lemmon / renumber / no_repeated_steps\nshow statement t / alt_html\nexit / force\n");
  mm_script(S.b);
  vx_assert(!out_has("?BUG") && !out_has("?Error"), "the program gives up");
  size_t n, at = 0;
  const char *o = out_seg(3, &n), *e = o + n;
  page("t.html");
  vx_assert(between("SUMMARY=\"Proof of theorem\"", "Expression</TH></TR>", &at), "the page has no proof");
  char b[80];
  int rows = 0;
  while (o < e) { // number, perhaps step numbers, label, $x, formula
    const char *w[40];
    int l[40], nw = 0;
    while (o < e && *o != '\n') {
      if (*o == ' ') { o++; continue; }
      w[nw] = o;
      while (o < e && *o != ' ' && *o != '\n') o++;
      l[nw] = (int)(o - w[nw]);
      nw++;
      vx_assert(nw < 40, "ref: words");
    }
    o++;
    int k = w[1][0] >= '0' && w[1][0] <= '9' ? 2 : 1;
    vx_assert(nw > k + 2 && w[k + 1][0] == '$', "the proof is not shown");
    vx_assert(between("<TR ALIGN=LEFT><TD>", "</TD>", &at) && (int)G_.n == l[0] && !memcmp(G_.b, w[0], l[0]), "a row has another number");
    S.n = 0;
    S.b[0] = 0;
    if (k == 1) tx(&S, "&nbsp;");
    else for (int i = 0; i < l[1];) {
      int j = i;
      while (j < l[1] && w[1][j] != ',') j++;
      tx(&S, i ? ",<AHREF=\"#" : "<AHREF=\"#");
      txn(&S, w[1] + i, j - i);
      tx(&S, "\">");
      txn(&S, w[1] + i, j - i);
      tx(&S, "</A>");
      i = j + 1;
    }
    vx_assert(between("<TD>", "</TD>", &at), "a row ends early");
    eq(S.b, "a row refers to other steps");
    vx_assert(between("<TD>", "</TD>", &at), "a row ends early");
    S.n = 0;
    S.b[0] = 0;
    if (w[k][0] == 'h') txn(&S, w[k], l[k]);
    else {
      tx(&S, "<AHREF=\"");
      txn(&S, w[k], l[k]);
      tx(&S, ".html\"");
      vx_assert(G_.n > S.n && !memcmp(G_.b, S.b, S.n), "a row refers to another assertion");
      S.n = 0;
      tx(&S, ">");
      txn(&S, w[k], l[k]);
      tx(&S, "</A>&nbsp;<SPAN");
      vx_assert(has(G_.b, G_.n, S.b), "a row refers to another assertion");
      S.n = 0;
      tx(&S, "\">");
      tx(&S, w[k][0] == 'm' ? "3" : w[k][1] == 'x' ? "2" : "4");
      tx(&S, "</SPAN>");
      vx_assert(has(G_.b, G_.n, S.b), "a row gives another number of the assertion");
    }
    if (w[k][0] == 'h') eq(S.b, "a row refers to another hypothesis");
    S.n = 0;
    tx(&S, "<SPAN>");
    for (int i = k + 2; i < nw; i++)
      if (w[i][0] == '(') tx(&S, "[");
      else if (w[i][0] == ')') tx(&S, "]");
      else if (l[i] == 2) tx(&S, "|-");
      else { b[0] = (char)(w[i][0] - 'a' + 'A'); b[1] = 0; tx(&S, b); }
    tx(&S, "</SPAN>");
    vx_assert(between("<TD>", "</TD></TR>", &at), "a row ends early");
    vx_assert(G_.n > S.n && !memcmp(G_.b + G_.n - S.n, S.b, S.n), "the page shows a wrong formula");
    b[0] = 0;
    strcat(b, "<ANAME=\"");
    strncat(b, w[0], l[0]);
    strcat(b, "\">");
    vx_assert(has(G_.b, G_.n, b), "a row has another anchor");
    rows++;
  }
  size_t t = find(pg, pn, at, "<TR ALIGN=LEFT>"), end = find(pg, pn, at, "</TABLE>");
  vx_assert(rows && (t == (size_t)-1 || t > end), "the page has more rows");
  vx_cover("shown");
}
// distinct variable groups on a page; the kind of statement; the environment in LaTeX
static void groups(void) {
  char c[4], m;
  vx_sym_set(&m, 1, "pt", 2, "output");
  m = (char)vx_conc(m);
  vx_sym_set(c, 1, "adp", 3, "kind");
  c[0] = (char)vx_conc(c[0]);
  T.n = 0;
  tx(&T, "$c |- W $. $v p q r s t $. wp $f W p $. wq $f W q $. wr $f W r $. ws $f W s $. wt $f W t $. ${ ");
  txk(&T, m == 't' ? "$d ^p^ ^q^ $." : "$d ^pqr^ ^qst^ ^ r^ $. $d ^rs^ ^tp^ $.", "d");
  txk(&T, m == 't' ? " h $e |- p q $. " : " h $e |- p ^qr^ s $. ", "h");
  const char *lab = c[0] == 'a' ? "ax-t" : c[0] == 'd' ? "df-t" : "th-t", *kind = c[0] == 'a' ? "axiom" : c[0] == 'd' ? "definition" : "theorem";
  tx(&T, "$( Some words. $) ");
  tx(&T, lab);
  tx(&T, c[0] == 'p' ? " $p |- p t $= ? $. " : " $a |- p t $. ");
  tx(&T, "$}\n$( $t " DEFS "althtmldef 'W' as 'w'; althtmldef '|-' as '|-'; althtmldef 'p' as 'P'; althtmldef 'q' as 'Q'; althtmldef 'r' as 'R'; althtmldef 's' as 'S'; althtmldef 't' as 'T';\n"
    "latexdef 'W' as 'w'; latexdef '|-' as '|-'; latexdef 'p' as 'P'; latexdef 'q' as 'Q'; latexdef 'r' as 'R'; latexdef 's' as 'S'; latexdef 't' as 'T'; $)\n");
  vfs_put("t.mm", T.b, T.n);
  ref_check(&R, T.b, T.n);
  if (R.err != R_OK && R.err != R_INCOMPLETE) { vx_cover("rejected"); return; }
  S.n = 0;
  tx(&S, m == 't' ? "read t.mm\nopen tex t.tex\nshow statement " : "read t.mm\nshow statement ");
  tx(&S, lab);
  tx(&S, m == 't' ? " / tex\nclose tex\nexit\n" : " / alt_html\nexit\n");
  mm_script(S.b);
  vx_assert(!out_has("?BUG"), "the program gives up");
  char b[60];
  size_t at = 0;
  if (m == 't') {
    page("t.tex");
    sprintf(b, "\\begin{%s}\\label{%.3s:%s} Some words.", kind, kind, lab);
    size_t i = find(pg, pn, 0, b);
    vx_assert(i != (size_t)-1, "the statement does not begin as it should");
    sprintf(b, "\\end{%s}", kind);
    size_t j = find(pg, pn, i, b), k = find(pg, pn, 0, "\\begin{document}"), l = find(pg, pn, 0, "\\end{document}");
    vx_assert(j != (size_t)-1 && k < i && l > j && l != (size_t)-1, "the statement does not end as it should");
    vx_cover("shown");
    return;
  }
  sprintf(b, "%s.html", lab);
  page(b);
  b[0] = (char)(kind[0] - 'a' + 'A');
  sprintf(b + 1, "%s <FONT", kind + 1);
  size_t i = find(pg, pn, 0, b);
  vx_assert(i != (size_t)-1, "the page names another kind of statement");
  int want[5][5], got[5][5], any = 0;
  for (int x = 0; x < 25; x++) want[x / 5][x % 5] = got[x / 5][x % 5] = 0;
  RTok lt = {lab, 4};
  RSt *st = &R.st[r_findlabel(&R, lt)];
  for (int x = 0; x < st->nd; x++) {
    int y = R.sym[st->da[x]].t.p[0] - 'p', z = R.sym[st->db[x]].t.p[0] - 'p';
    want[y][z] = want[z][y] = any = 1;
  }
  int sh = between(">Distinct variable</A> group", "</SPAN>", &at);
  vx_assert(sh == any, any ? "the distinct variable conditions are not shown" : "distinct variable conditions are shown where there are none");
  if (sh) {
    char g[8];
    int n = 0, k = 0;
    while (k < (int)G_.n && G_.b[k] != '>') k++;
    for (k++; k <= (int)G_.n; k++) {
      char ch = k < (int)G_.n ? G_.b[k] : '&';
      if (ch == '&') { n = 0; k += 5; continue; } // &nbsp;
      if (ch == ',') continue;
      vx_assert(ch >= 'P' && ch <= 'T' && n < 8, "a group contains something else");
      g[n++] = ch;
      for (int x = 0; x + 1 < n; x++) { vx_assert(g[x] != ch, "a group contains a variable twice"); got[g[x] - 'P'][ch - 'P'] = got[ch - 'P'][g[x] - 'P'] = 1; }
    }
    for (int x = 0; x < 25; x++) vx_assert(got[x / 5][x % 5] == want[x / 5][x % 5], "the page shows other distinct variable conditions");
  }
  vx_cover("shown");
}
// symbols without a definition are shown as they are, special characters made visible
static void undefined(void) {
  char m;
  vx_sym_set(&m, 1, "aht", 3, "output");
  m = (char)vx_conc(m);
  T.n = W.n = 0;
  txk(&W, "^<~a\"^^<>&a\"^^<>&{_a\"^^<^\\%", "s");
  tx(&T, "$c |- ");
  tx(&T, W.b);
  tx(&T, " $. $v p $. wp $f |- p $. t $a |- ");
  tx(&T, W.b);
  tx(&T, " p $. $( $t " DEFS "htmldef 'p' as 'P'; htmldef '|-' as '|-'; althtmldef 'p' as 'P'; althtmldef '|-' as '|-'; latexdef 'p' as 'P'; latexdef '|-' as '|-'; $)\n");
  vfs_put("t.mm", T.b, T.n);
  mm_script(m == 'a' ? "read t.mm\nshow statement t / alt_html\nexit\n" : m == 'h' ? "read t.mm\nshow statement t / html\nexit\n" : "read t.mm\nopen tex t.tex / no_header\nshow statement t / tex\nclose tex\nexit\n");
  vx_assert(!out_has("?BUG") && !out_has("?Error"), "the program gives up");
  vx_assert(out_has("?Warning"), "a missing definition is not reported");
  S.n = 0;
  S.b[0] = 0;
  if (m == 't') tx(&S, "\\mathrm{");
  for (size_t i = W.b[0] == '~' && W.b[1] == 'a'; i < W.n; i++) {
    char c[2] = {W.b[i], 0};
    if (m != 't') tx(&S, c[0] == '<' ? "&lt;" : c[0] == '>' ? "&gt;" : c[0] == '"' ? "&quot;" : c);
    else if (c[0] == 'a') tx(&S, c);
    else {
      tx(&S, "{\\tt");
      tx(&S, c[0] == '&' || c[0] == '{' || c[0] == '%' ? "\\" : c[0] == '^' ? "\\^{}" : "\\char`\\");
      if (c[0] != '^') tx(&S, c);
      tx(&S, "}");
    }
  }
  if (m == 't') tx(&S, "}");
  page(m == 't' ? "t.tex" : "t.html");
  size_t at = 0;
  if (m == 't') {
    squeeze(&G_, pg, pn);
    vx_assert(has(G_.b, G_.n, S.b), "a symbol without definition is shown wrongly");
  } else {
    W2.n = 0;
    tx(&W2, m == 'a' ? "<SPAN" : "");
    vx_assert(between("SUMMARY=\"Assertion\"", "<TR ALIGN=LEFT>", &at) && between("<TD>", "</TD>", &at) && between("<TD>", "</TD></TR>", &at), "the page has no assertion");
    size_t i = find(G_.b, G_.n, 0, "|-"), e = G_.n - (m == 'a' ? 7 : 0);
    vx_assert(i != (size_t)-1 && i + 3 + S.n == e && !memcmp(G_.b + i + 2, S.b, S.n) && G_.b[e - 1] == 'P', "a symbol without definition is shown wrongly");
  }
  vx_cover("shown");
}
void vx_main(int v) {
  if (v == 0) tdefs();
  else if (v == 1) description();
  else if (v == 2) bytes();
  else if (v == 3) formulas();
  else if (v == 4) proof();
  else if (v == 5) groups();
  else undefined();
}
