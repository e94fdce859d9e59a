// Well-formedness of databases: the reader reports an error exactly when a rule of the language is broken.
#include "db.h"
#define KW "^cvdfeap{}.=()^"
#define P1 "$c ( ) W |- $. $v p q $. a $f W p $. "
#define P2 P1 "b $f W q $. c $a W ( p ) $. "
#define PRINTABLE "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]_`abcdefghijklmnopqrstuvwxyz{|}~"
static char any_b;
static void anyc(const char *name) { // a byte, any value but those the program's reader treats as the end of the file
  char *p = T.b + T.n++;
  vx_sym(p, 1, name);
  vx_assume((*p != 0) & (*p != 26) & (*p != 11)); // not: NUL, ^Z, vertical tab
  T.b[T.n] = 0;
}
void vx_main(int v) {
  vx_libc_init();
  switch (v) {
  case 0: // keyword letters
    txf(&T, P1 "b $" KW " W q $. c $a |- p $" KW " t $p |- p $= a c $.\n", "k");
    break;
  case 1:
    txf(&T, P1 "$" KW " e $e |- p $" KW " r $a |- ( p ) $. $" KW "\n", "k");
    break;
  case 2: // a keyword where a token should be
    txf(&T, P2 "$" KW " z $" KW " p q $.\n", "k");
    break;
  case 3: // label characters
    tx(&T, P2 "r");
    anyc("l"); txs(&T, "$a\t@-_.~\x80", "l");
    tx(&T, " $a |- p $. u $a |- q $.\n");
    break;
  case 4: // math symbol characters
    tx(&T, "$c ( ) W |- x");
    anyc("m");
    txf(&T, "y $. $v p $. a $f W p $. r $a |- x^yz$. ^y $.\n", "m");
    break;
  case 5: // duplicate and clashing names
    txf(&T, "$c ( ) W |- ^kpW(^ $. $v p q $. ^rab^ $f W p $. b $f W q $. ^acb^ $a W ( p ) $. "
        "d $a |- p $. ^bdkz^ $a |- q $.\n", "n");
    break;
  case 17:
    txf(&T, P2 "${ $v x $. ^drbx^ $f W ^px^ $. ^ed^ $a |- x $. $} ${ $v x $. ^dye^ $f W x $. $} ^f^ $a |- ^px^ $.\n", "n");
    break;
  case 18:
    txf(&T, P2 "${ $v ^pxW^ $. d $f W x $. e $a |- ^px^ $. $} $v ^xpq^ $. f $f W ^xp^ $.\n", "n");
    break;
  case 6: // declarations in blocks; constants in inner blocks; second $f for a variable
    txf(&T, P1 "${ $^cv^ ^xp^ $. b $f W ^xqp^ $. r $a |- ( ^pqx^ ) $. $} $^cv^ x $. d $f ^Wp^ ^qx^ $. s $a |- ^qx^ $.\n", "s");
    break;
  case 7: // first symbols, lengths, undeclared symbols
    txf(&T, P2 "d $f ^W |p^ ^pqW ^ $.\n", "s");
    break;
  case 8: // $d
    txf(&T, P2 "${ $v r $. $d ^pqrW ^ ^pq(x ^ ^qr ^ $. $d ^pq ^ ^pr^ $. $} $d ^pq^ ^rp^ $. s $a |- p $.\n", "s");
    break;
  case 9: // blocks
    txf(&T, P2 "$^{}^ e $e |- p $. $^{}^ r $a |- q $. $^{}^ $^{}^ s $a |- p $. $^{}^ $^{}^\n", "s");
    break;
  case 10: // comments
    txf(&T, P2 "$( x^$ ^^( )^ y $) r $a ^$ ^^( )^ |- p $^) .^ $( ^$ ^^ ()^ $^)( ^\n", "s");
    break;
  case 11: // labels missing or too many; text at the end
    txf(&T, P2 "^r ^ ^s ^ $a |- p $. ^t ^ ${ ^u ^ $v z $. ^w ^ $d p q $. $} ^x $^\n", "s");
    break;
  case 12: // the end of the file in every place
    tx(&T, P2 "${ $d p q $. e $e |- p $. t $p |- p $= e $. $( comment $) $} $c k $. ");
    {
      unsigned char cut;
      vx_sym(&cut, 1, "cut");
      vx_assume(cut <= T.n);
      T.n = (size_t)vx_conc(cut);
      T.b[T.n++] = '\n';
      T.b[T.n] = 0;
    }
    break;
  case 13: // white space of every kind between tokens, or none
    txf(&T, P1 "b^ \t\n\f\r.$^$f^ \t\n\f\ra^W q^ $^$.^ \n^c $a |- p $.^ $\t^$( ^ .^ $) d $a W^ _^q $.\n", "w");
    break;
  case 14: // proofs that are not there or in the wrong statement
    txf(&T, P2 "r $^apef^ W p $^=.^ a ^$ ^. s $^ap^ W ( p ) ^$ ^^=. ^ a c $.\n", "s");
    break;
  case 15:
    txf(&T, P2 "${ $v r $. d $f ^Wp ^ ^rqW ^ ^ rp^ $. e $e ^Wpx^ p $. s $a ^W)p^ r $. $}\n", "s");
    break;
  case 16:
    txf(&T, P2 "e $e ^Wp x^ p $. s $a ^W)p ^ ^pr ^ $. t $p ^Wqy^ ( p ) $= a c $.\n", "s");
    break;
  }
  db_check();
}
