// WRITE SOURCE after READ gives the source back; / FORMAT and / REWRAP change white space and comments only.
#include "db.h"
#define P1 "$c ( ) W |- $. $v p q $. wp $f W p $. wq $f W q $. "
#define PR "!\"#%&'()*+,-./09:;<=>?@AZ[\\]_`az{|}~"
static Txt N, A, B, s;
static void wrote(const char *name) {
  N.n = 0; // carriage returns become line ends, the last line is completed
  for (size_t i = 0; i < T.n; i++) {
    char c = T.b[i];
    if (c == '\r') {
      if (i + 1 < T.n && T.b[i + 1] == '\n') continue;
      c = '\n';
    }
    N.b[N.n++] = c;
  }
  if (!N.n || N.b[N.n - 1] != '\n') N.b[N.n++] = '\n';
  size_t n;
  char *o = vfs_get(name, &n);
  vx_assert(o != 0, "the file was not written");
  vx_assert(n == N.n && !memcmp(o, N.b, n), "the written source differs from the one read");
}
// tokens of a source, one per line; comments left out
static void tokens(Txt *d, const char *s, size_t n) {
  size_t i = 0;
  int in = 0;
  d->n = 0;
  while (i < n) {
    while (i < n && r_ws(s[i])) i++;
    size_t j = i;
    while (j < n && !r_ws(s[j])) j++;
    if (j == i) break;
    int two = j - i == 2 && s[i] == '$';
    if (!in && two && s[i + 1] == '(') in = 1;
    else if (in) { if (two && s[i + 1] == ')') in = 0; }
    else { txn(d, s + i, j - i); tx(d, "\n"); }
    i = j;
  }
  if (in) tx(d, "unterminated comment");
}
static void same_tokens(const char *name) {
  size_t n;
  char *o = vfs_get(name, &n);
  vx_assert(o != 0, "the file was not written");
  tokens(&A, T.b, T.n);
  tokens(&B, o, n);
  vx_assert(A.n == B.n && !memcmp(A.b, B.b, A.n), "the reformatted source has other tokens");
}
static int unread(void) { // the database has an error: nothing is claimed
  if (!out_has("?Error")) return 0;
  vx_cover("not readable");
  return 1;
}
void vx_main(int v) {
  vx_libc_init();
  const char *cmd = "write source o.mm";
  switch (v) {
  case 0: // comment text and the layout around it
    txf(&T, "$( ^" PR "^^ \n" PR "^^ \n^^" PR "^ $) " P1 "$(^ \n^$ ^()^^ \n^ $)^ \n^a $(^ \n^ $x $) $a |- p $.\n", "c");
    break;
  case 1: // white space
    txf(&T, "$c^ \n\r^( )^\r\n\t^\n|-\fW^ \n\r\t^$. $v^ \t^p^\r ^^\n^$. wp $f^\r ^^\n\r^W p $.^\r \n^$( x^\r ^^\r\n^$)^\r\n \t^", "w");
    break;
  case 2: // every kind of statement
    txf(&T, P1 "${^ \n^$d p^ \n^q $.^ \n^e $e |- p^\n ^$.  r $a^ \n^|- ( p^ \n^) $.^ \n^t $p |- p $=^ \n^e ^ \n^$. $}^ \n^$( end $)^ \n^", "w");
    break;
  case 3: // after the last statement, or no statement at all
    txf(&T, "^ \n\t^$(^ \n^^c$^^ ()^^ \n^ $)^ \n\r^$(^ \n^x^ \n\r^ $)^ \n\r^^ \n\r^", "w");
    break;
  case 4: // labels with text and comments around; comments inside statements and proofs
    txf(&T, P1 "$( ^wp^ $) wr ^ \n^ $( ^wr^ $x $) $a $( ^\n$^ $) |- $( ^p$^ $) p $. t $p $( $= x $) |- p $( ^$x^. $) $= ( $( ^w)^ ( ) $) ) $( ^$z^^.z^ $) ? $.\n", "c");
    break;
  case 5:
    cmd = "write source o.mm / format";
    txf(&T, P1 "\n${^ \n^$d p^ \n^q $.^ \n^ $d^ \n^q p $.^ \n^\n e $e |- p^\n ^$.\n  r $a^ \n^|- ( p^ \n^) $. $}\n", "w");
    break;
  case 6:
    cmd = "write source o.mm / rewrap";
    txf(&T, P1 "\n${^ \n^$d p^ \n^q $.\n e $e |- p^\n ^$.\n  $( ^xX.^^ .`~\n^^a\n ^^.\n^A $)\n  r $a^ \n^|- (^ ^ p^ \n^) $. $}\n", "w");
    break;
  case 7:
    cmd = "write source o.mm / rewrap";
    txf(&T, P1 "\n  $( Aaa bbb ccc ddd eee fff ggg hhh iii jjj kkk lll mmm nnn ooo ppp^ \n.~^^ q`^ ^r` ^ ` ^ \n`^ qqq rrr ^s.^^ \n^ $)\n  r $a |- p $.^ \n^\n  $( ^x\n^ $)\n  t $p |- p $= ^w\n^p r ^ \n^ $.\n", "w");
    break;
  case 8: // scopes
    cmd = "write source o.mm / format";
    txf(&T, P1 "\n${^ \n^$v r $.^ \n^$( ^c\n^ $)^\n ^${^ \n^$( x $)^\n ^ wr $f W r $.^ \n^$}^ \n^$}^ \n^${ $( y $)^ \n^$( z $)^ \n^ $d p q $. $( y $)^ \n^ $d p q $.\n $}\n", "w");
    break;
  case 9: // comments on one line, over several lines
    cmd = "write source o.mm / format";
    txf(&T, P1 "^ \n^$(^ \n^x^ \n^$)^ \n^$(^ \n^y $)^ \n^ wr $f W r $.\n", "w");
    T.n = 0;
    txf(&T, "^ \n^$(^ \n^x^ \n^$)^ \n^$(^ \n^y $)^ \n^ $c ( ) W |- $.^ \n^$(^ \n^x $)^ \n^$v p q $. wp $f W p $.^ \n^$(^ \n^x^ \n^$) $( y $)^ \n^wq $f W q $. ", "w");
    break;
  case 10:
    cmd = "write source o.mm / rewrap";
    txf(&T, P1 "^ \n^$(^ \n^x^ \n^$)^ \n^$(^ \n^y $)^ \n^ ${ e $e |- p $.^ \n^$( z^ \n^$)^ \n^r $a |- p $. $}^ \n^$(^ \n^a $)^ \n^$( b $)^ \n^s $p |- p $= ? $.\n", "w");
    break;
  case 11: // a comment between the label and the keyword
    cmd = "write source o.mm / rewrap";
    txf(&T, P1 "^ \n^r^\n ^$( ^rx^^ \n^$)^\n ^$a |- p $.^ \n^e^ \n^ $(^ \n^e $)^\n ^$e |- q $. $( x^ \n^$)^\n ^ s^\n ^$( ^\n s^ $) $p |- p $= ? $.\n", "w");
    break;
  case 12: // comments that mention labels and symbols
    tx(&T, P1 "$v r $.\n");
    txf(&T, "$( ^wx^^pr^^ \n^$)^ \n^wr $f W r $. ${ $( ^ex^^ex^^ \n^ $)^ \n^ee $e |- p $.^ \n^$( ^ir^^nr^ . $)^ \n^rr $a |- p $. $}\n", "w");
    tx(&s, "read t.mm\nwrite source o.mm / ");
    {
      char c;
      vx_sym_set(&c, 1, "fr", 2, "format");
      tx(&s, (char)vx_conc(c) == 'f' ? "format" : "rewrap");
    }
    cmd = "";
    break;
  }
  vfs_put("t.mm", T.b, T.n);
  if (*cmd) tx(&s, "read t.mm\n");
  tx(&s, cmd);
  tx(&s, "\nexit\n");
  db_run(s.b);
  if (unread()) return;
  vx_cover("written");
  if (v < 5) wrote("o.mm");
  else same_tokens("o.mm");
}
