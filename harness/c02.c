// Distinct variable conditions: verdict equals the reference checker's.
#include "db.h"
#define PRE "$c ( ) W |- $. $v x y z w $. vx $f W x $. vy $f W y $. vz $f W z $. vw $f W w $. c $a W ( x y ) $. k $a W ( ) $. "
static char pick(const char *set) { // one of the letters, split into paths
  char c;
  vx_sym_set(&c, 1, set, strlen(set), "v");
  return (char)vx_conc(c);
}
static void tc(char c) { txn(&T, &c, 1); }
void vx_main(int v) {
  vx_libc_init();
  char a, b, c;
  switch (v) {
  case 0: // composite substitutions against two symbolic $d pairs of the theorem
    a = pick("xyz"), b = pick("xy"), c = pick("xyzw");
    tx(&T, PRE "${ $d x y $. ax $a |- ( x y ) $. $} ${ ");
    txf(&T, "$d ^xyz^ ^zw^ $. $d ^xz^ ^yw^ $. ", "d");
    tx(&T, "th $p |- ( ( "); tc(a); tx(&T, " "); tc(b); tx(&T, " ) "); tc(c);
    tx(&T, " ) $= v"); tc(a); tx(&T, " v"); tc(b); tx(&T, " c v"); tc(c); tx(&T, " ax $. $}\n");
    break;
  case 1: // dummy variables: $d between a variable of the statement and one that occurs in the proof only
    tx(&T, PRE "${ $d x y $. ax1 $a |- ( x y ) $. $} ${ h $e |- ( x y ) $. r $a |- x $. $} ");
    a = pick("xz"), b = pick("yw");
    txf(&T, "${ ${ $d ^xyz^ ^yw^ $. $} $d ^xy^ ^zw^ $. $d ^xyz^ w $. th $p |- ^xz^ $= v", "d");
    tc(a); tx(&T, " v"); tc(b); tx(&T, " v"); tc(a); tx(&T, " v"); tc(b); tx(&T, " ax1 r $. $}\n");
    break;
  case 2: // lists of three and more variables; scopes that have ended; both orders
    txf(&T, PRE "${ $d ^xy^ ^zw^ $. $} $d ^xz^ y $. ${ $d x ^yz^ w $. ${ $d ^yz^ w x $. a1 $a |- ( ( x y ) ( z w ) ) $. $} "
        "th $p |- ( ( x y ) ( z w ) ) $= vx vy vz vw a1 $. $} "
        "${ $d z ^wy^ $. $d x w y $. $d ^xz^ ^zy^ $. t2 $p |- ( ( x y ) ( z w ) ) $= vx vy vz vw a1 $. $}\n", "d");
    break;
  case 3: // conditions of a theorem that is used: its own, and those it does not mention
    txf(&T, PRE "${ $d x y $. ax $a |- ( x y ) $. $} "
        "${ $d ^xyz^ ^yzw^ $. t1 $p |- ( z w ) $= vz vw ax $. $} "
        "${ $d ^xyz^ ^yzw^ $. t2 $p |- ( ^xy^ ( ) ) $= v^xy^ k t1 $. "
        "   t3 $p |- ( y ^zw^ ) $= vy v^zw^ t1 $. $}\n", "d");
    break;
  case 4: // constants and empty expressions give no pairs; repeated occurrences
    a = pick("xyze");
    b = pick("xyzk");
    tx(&T, PRE "e $a W $. ${ $d x y $. $d y z $. $d z x $. ax $a |- x y z $. $} ${ ");
    txf(&T, "$d ^xy^ ^zw^ $. $d ^xy^ ^zw^ $. th $p |- ", "d");
    if (a != 'e') { tc(a); tx(&T, " "); }
    if (b == 'k') tx(&T, "( ) "); else { tx(&T, "( "); tc(b); tx(&T, " x ) "); }
    tx(&T, "w $= ");
    if (a == 'e') tx(&T, "e "); else { tx(&T, "v"); tc(a); tx(&T, " "); }
    if (b == 'k') tx(&T, "k "); else { tx(&T, "v"); tc(b); tx(&T, " vx c "); }
    tx(&T, "vw ax $. $}\n");
    break;
  case 5: // hypotheses with variables, conditions over optional variables, symbolic condition of the axiom
    txf(&T, PRE "${ $d ^xyz^ ^yzw^ $. h $e |- ( x y ) $. ax $a |- ( z ( ) ) $. $} "
        "${ $d ^xyz^ ^yzw^ $. g $e |- ( ( x z ) y ) $. th $p |- ( ( w x ) ( ) ) $= vx vz c vy vw vx c g ax $. $}\n", "d");
    break;
  case 6: // compressed proof with a repeated step
    txf(&T, PRE "${ $d x y $. ax $a |- ( x y ) $. $} ${ h $e |- z $. i $e |- w $. r $a |- ( z w ) $. $} "
        "${ $d ^xyz^ ^yzw^ $. $d x z $. th $p |- ( ( x y ) ( x z ) ) $= ( ax r c ) ABFACFABDA^BC^DE $. $} "
        "${ $d x ^yzw^ $. t2 $p |- ( ( x y ) ( x y ) ) $= ( c ax r ) ABCZFABDZ^FG^E $. $}\n", "d");
    break;
  case 7: // pairs of a variable that is in the statement and one that is not, next to pairs of the statement
    a = pick("xyz"), b = pick("zwx");
    tx(&T, PRE "${ $d x y $. ax1 $a |- ( x y ) $. $} ${ h $e |- ( x y ) $. r $a |- x $. $} ");
    txf(&T, "${ $d ^xyz^ ^yzw^ $. $d ^xz^ ^yzw^ $. $d x y $. g $e |- ^yz^ $. th $p |- ", "d");
    tc(a); tx(&T, " $= v"); tc(a); tx(&T, " v"); tc(b); tx(&T, " v"); tc(a); tx(&T, " v"); tc(b); tx(&T, " ax1 r $. $}\n");
    break;
  }
  db_check();
}
