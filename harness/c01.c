// Normal proofs: verdict equals the reference checker's.
#include "db.h"
#define PROP "$c ( ) W -> |- $. $v p q $. a $f W p $. b $f W q $. c $a W ( p -> q ) $. "
void vx_main(int v) {
  vx_libc_init();
  switch (v) {
  case 0: // every proof of four steps over eight labels: hypotheses of this and another block, axioms, rules
    txf(&T, PROP "${ d $e |- p $. e $e |- ( p -> q ) $. f $a |- q $. $} "
        "${ g $e |- p $. h $a |- ( q -> p ) $. i $p |- ( p -> p ) $= ^abcdefgh^ ^abcdefgh^ ^abcdefgh^ ^abcdefgh^ $. $}\n", "s");
    break;
  case 1: // a rule with two hypotheses: every symbol of what the steps prove
    txf(&T, PROP "x $a |- ( ^pq(^ -> ^pq^ ) $. y $a |- ( ( p -> ^pq^ ) -> ( ^qp^ -> p ) ) $. "
        "${ d $e |- p $. e $e |- ( p -> q ) $. f $a |- q $. $} "
        "z $p |- ( q -> ^pq^ ) $= a b c b a c a ^ab^ x ^ab^ ^ab^ y f $.\n", "s");
    break;
  case 2: // substitution into hypotheses: tokens of the rule are symbolic
    txf(&T, "$c ( ) W > * |- $. $v p q $. a $f W p $. b $f W q $. c $a W ( p > q ) $. m $a |- ( p > ( q > p ) ) $. "
        "${ d $e |- ( ^pq^ ^>*^ ^pq^ ) $. f $a |- ( ^pq^ > ^pq^ ) $. $} "
        "z $p |- ( p > ( ^pq^ > p ) ) $= a ^ab^ a c ^ab^ b m f $.\n", "s");
    break;
  case 3: // two type codes; type mismatch; label order
    txf(&T, "$c set class wff = |- $. $v x y A B $. vx $f set x $. vy $f ^sc^", "s");
    // (continued below: the type code is one of two words)
    T.n--;
    if (T.b[T.n] == 's') tx(&T, "set"); else tx(&T, "class");
    txf(&T, " y $. cA $f class A $. cB $f class B $. cv $a class x $. weq $a wff A = B $. ax $a |- A = A $. "
        "t $p ^w|^", "s");
    T.n--;
    if (T.b[T.n] == 'w') tx(&T, "wff"); else tx(&T, "|-");
    tx(&T, " x = x $= vx ");
    for (int i = 0; i < 2; i++) {
      char c;
      vx_sym_set(&c, 1, "vycwa", 5, "step");
      c = (char)vx_conc(c);
      tx(&T, c == 'v' ? "vx " : c == 'y' ? "vy " : c == 'c' ? "cv " : c == 'w' ? "weq " : "ax ");
    }
    char c;
    vx_sym_set(&c, 1, "cwa", 3, "step");
    c = (char)vx_conc(c);
    tx(&T, c == 'c' ? "cv weq $.\n" : c == 'w' ? "weq $.\n" : "ax $.\n");
    break;
  case 4: // labels and symbols that are prefixes of each other; use of a theorem, of oneself, of a later one
    txf(&T, "$c w ww |- $. $v p pp $. a $f w p $. aa $f w pp $. ab $a w ww p $. "
        "ac $a |- p $. "
        "aca $p |- p^p ^ $= aa a^bc^ $. acab $p w ww ww p $= a ab ab $. "
        "acabc $p |- ww ww p $= a a^abc^ a^abc^ a^abc^ $. acabd $p |- ww ww p $= a acab^abcde^ $. acabe $a |- ww ww p $.\n", "s");
    break;
  case 5: // empty expressions and ambiguous concatenation
    txf(&T, "$c t ( ) |- $. $v x y z $. tx $f t x $. ty $f t y $. tz $f t z $. te $a t $. tc $a t x y $. tp $a t ( $. "
        "${ h $e |- x y ^xz)^ $. r $a |- y ^xz(^ $. $} s $a |- ( x $. "
        "th $p |- ^(x^ $= t^px^ t^ex^ t^epx^ t^xe^ s r $.\n", "s");
    break;
  case 6: // unknown steps
    db_unknown = 1;
    txf(&T, PROP "${ d $e |- p $. e $e |- ( p -> q ) $. f $a |- q $. $} "
        "${ g $e |- p $. h $a |- ( q -> p ) $. i $p |- ( p -> p ) $= ^ab?^ ^ab?^ ^cb?^ ^g?^ ^ah?^ ^hcf?^ $. $}\n", "s");
    break;
  case 7: // two theorems, the second uses the first; either may be wrong
    txf(&T, PROP "m $a |- ( p -> ( q -> p ) ) $. ${ d $e |- p $. e $e |- ( p -> q ) $. f $a |- q $. $} "
        "${ k $e |- p $. l $p |- ( q -> ^pq^ ) $= ^ab^ ^ab^ a c k ^ab^ b m f $. $} "
        "n $p |- ( p -> ( q -> ( ^pq^ -> q ) ) ) $= b ^ab^ b c c ^ab^ ^ab^ ^ab^ m l $.\n", "s");
    break;
  }
  db_check();
}
