// Scoping and frames: which hypotheses, variables and conditions are in force.
#include "db.h"
#define PRE "$c ( ) W V |- $. "
static void slotn(const char *set, int n) {
  static const char *const B[] = {"", "${ ", "$} ", "$} ${ ", "${ ${ ", "$} $} "};
  char c;
  vx_sym_set(&c, 1, set, n, "block");
  tx(&T, B[(char)vx_conc(c) - '0']);
}
static void slot(void) { slotn("012345", 6); }
void vx_main(int v) {
  vx_libc_init();
  switch (v) {
  case 0: // blocks open and close around hypotheses that a proof uses
    txf(&T, PRE "$v p q $. a $f W p $. b $f W q $. ${ h1 $e |- p $. ${ h2 $e |- q $. r1 $a |- ( p q ) $. $} r2 $a |- ( q p ) $. $} r3 $a |- ( p p ) $. "
        "${ g $e |- q $. ${ k $e |- p $. t1 $p |- ( ^pq^ ^pq^ ) $= ^ab^ ^abk^ ^gkh^ ^gkrab^ r^123^ $. $} $}\n", "s");
    break;
  case 1: // the order of mandatory hypotheses is the order of their statements
    txf(&T, PRE "$v p q r $. ${ $} ^abc^", "s");
    {
      char c = (char)vx_conc(T.b[T.n - 1]);
      T.n--;
      tx(&T, c == 'a' ? "a $f W p $. b $f W q $. c $f V r $. " : c == 'b' ? "b $f W q $. a $f W p $. c $f V r $. " : "c $f V r $. b $f W q $. a $f W p $. ");
    }
    txf(&T, "${ e1 $e |- ( p ^pqr^ ) $. ax $a |- ( q ^pqr^ ) $. $} w $a |- ( p r ) $. "
        "${ e2 $e |- ( q r ) $. th $p |- ( p r ) $= ^abc^ ^abc^ ^abc^ ^ew^2 ax $. $}\n", "s");
    break;
  case 2: // local variables with their own $f; a name that is a variable again in another block with another type
    txf(&T, PRE "$v p $. a $f W p $. ${ $v x $. x1 $f ^WV^ x $. ax $a |- ( x ^px^ ) $. $} "
        "${ $v x $. x2 $f ^WV^ x $. b1 $a W ( x ) $. t $p |- ( ^xp^ ^xp^ ) $= ^ax^^ 2^^ 2^ ^ax^^ 2^ ax $. $}\n", "s");
    break;
  case 3: // hypotheses of inner blocks do not leak into later assertions
    txf(&T, PRE "$v p q $. a $f W p $. b $f W q $. ${ ^h$^", "s");
    {
      char c = (char)vx_conc(T.b[T.n - 1]);
      T.n--;
      tx(&T, c == 'h' ? "h $e |- p $. " : "");
    }
    txf(&T, "r1 $a |- ( q p ) $. $} ${ g $e |- ( p ^pq^ ) $. r2 $p |- ( q p ) $= ^ab^ ^ab^ ^g ^ r1 $. $} c $a W ( p ) $. "
        "r3 $p |- ( ( p ) q ) $= ^ab^ ^ab^ ^c ^ r^12^ $.\n", "s");
    break;
  case 4: // a variable that occurs only in the proof; a variable that occurs only in a hypothesis
    txf(&T, PRE "$v p q r $. a $f W p $. b $f W q $. ${ c $f W r $. f $a W ( r ) $. $} "
        "${ e $e |- ( p ^pq^ ) $. ax $a |- ( q ) $. $} w $a |- ( p ^pq^ ) $. "
        "t1 $p |- ( ^pq^ ) $= ^ab^ ^abc^ ^f ^ ^ab^ ^b ^ w ax $.\n", "s");
    break;
  case 5: // deep nesting: the innermost and the outer hypotheses in order
    txf(&T, PRE "$v p q $. a $f W p $. ${ e1 $e |- p $. ${ b $f W q $. e2 $e |- q $. ${ e3 $e |- ( p q ) $. ax $a |- ( q p ) $. $} ax2 $a |- ( ^pq^ p ) $. $} "
        "ax3 $a |- ( p p ) $. $} $v r $. c $f W r $. ${ f1 $e |- p $. f2 $e |- r $. f3 $e |- ( p r ) $. "
        "th $p |- ( r p ) $= ^ac^ f^12^ ^ac^ f^123^ f^13^ ax^ 23^ $. $}\n", "s");
    break;
  case 6: // any blocks around any of the statements
    tx(&T, PRE "$v p r $. a $f W p $. ${ ");
    slot();
    tx(&T, "c $f W r $. ");
    slot();
    tx(&T, "e $e |- ( r ) $. ");
    slotn("0123", 4);
    tx(&T, "x $a |- ( p ) $. ");
    slotn("012", 3);
    txf(&T, "t $p |- ( p ) $= ^ac^ ^ ce^ ^ e^ ^xe^ $. $}\n", "s");
    break;
  }
  db_check();
}
