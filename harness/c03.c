// Compressed proofs: decoding and malformed encodings; verdict equals the reference checker's.
#define RM_SYM 170
#define RM_ST 170
#define RM_LEN 130
#define RM_LAB 160
#include "db.h"
#define PRE "$c ( ) W -> |- $. $v p q $. a $f W p $. b $f W q $. c $a W ( p -> q ) $. m $a |- ( p -> ( q -> p ) ) $. " \
  "${ d $e |- p $. e $e |- ( p -> q ) $. f $a |- q $. $} "
static void num(int i) { char n[8]; int k = 0; if (i >= 100) n[k++] = '0' + i / 100; n[k++] = '0' + i / 10 % 10; n[k++] = '0' + i % 10; txn(&T, n, k); }
void vx_main(int v) {
  vx_libc_init();
  switch (v) {
  case 0: // letters at every position; references in and out of range, Z in every place
    txf(&T, PRE "t $p |- ( p -> ( q -> p ) ) $= ( m c ) ^ABCZ^^ABCU^^ABCDEZ?^^ABCDEZ?U^ $.\n", "s");
    break;
  case 1: // saved steps
    txf(&T, PRE "t $p |- ( ( p -> p ) -> ( ( p -> p ) -> ( p -> p ) ) ) $= ( c m ) AA^BC^^Z ^^DCZ^^DCE^^ ACZ^ $.\n", "s");
    break;
  case 2: // the label list
    txf(&T, PRE "${ g $e |- p $. t $p |- ( q -> p ) $= ( ^acgmq^ ^acdefgm?^ ^mfg)^ ) ABADC^AB^BEF $. $} u $a |- p $.\n", "s");
    break;
  case 3: // valid proof with white space inside the letters and symbolic letters
    txf(&T, PRE "${ g $e |- p $. t $p |- ( q -> p ) $= ( c m f ) A^BA^A^D \n^^DC^\nC^AB^BE\t^FZ^ ^F \n^ $. $}\n", "s");
    break;
  case 4: // numbers of one to three letters over 130 labels
  case 5: {
    tx(&T, "$c |- ");
    for (int i = 0; i < 130; i++) { tx(&T, "c"); num(i); tx(&T, " "); }
    tx(&T, "$. ");
    for (int i = 0; i < 130; i++) { tx(&T, "a"); num(i); tx(&T, " $a |- c"); num(i); tx(&T, " $. "); }
    tx(&T, "t $p |- c");
    if (v == 4) txf(&T, "^01^^24^^09^ $= ( ", "s"); else txf(&T, "1^12^^09^ $= ( ", "s");
    for (int i = 0; i < 130; i++) { tx(&T, "a"); num(i); tx(&T, " "); }
    if (v == 4) txf(&T, ") ^UVY^^ABTU^^AT ^ $.\n", "s"); else txf(&T, ") ^UVY^^UVY^^ABJT^ $.\n", "s");
    break;
  }
  case 6: // malformed: end inside a number, wrong characters, nothing
    txf(&T, PRE "t $p W p $= ^( ^ ^cm)^ ^)(A ^ ^AUZ?a1 ^ ^AZUt ^ $.\n", "s");
    break;
  case 8: // numbers beyond any machine word
    txf(&T, PRE "t $p |- ( p -> ( q -> p ) ) $= ( m c ) A^BV^^VU^YVUXUUXYWYVVUUVUXWYVWYVYYX^BY^^DBAU^ $.\n", "s");
    break;
  case 7: { // many saved steps: number = labels + saved step, over the 20 limit
    tx(&T, "$c W [ ] ");
    for (int i = 0; i < 22; i++) { tx(&T, "c"); num(i); tx(&T, " "); }
    tx(&T, "$. $v p q $. a $f W p $. b $f W q $. f2 $a W [ p q ] $. ");
    for (int i = 0; i < 22; i++) { tx(&T, "k"); num(i); tx(&T, " $a W c"); num(i); tx(&T, " $. "); }
    tx(&T, "t $p W ");
    for (int i = 0; i < 22; i++) tx(&T, "[ ");
    tx(&T, "c00 ");
    for (int i = 1; i < 22; i++) { tx(&T, "c"); num(i); tx(&T, " ] "); }
    txf(&T, "c^012^^017^ ] $= ( f2 ", "s");
    for (int i = 0; i < 22; i++) { tx(&T, "k"); num(i); tx(&T, " "); }
    tx(&T, ") ");
    for (int i = 0; i < 22; i++) {
      char w[3] = {'U', (char)('A' + (i + 1) % 20), 0};
      tx(&T, i + 1 < 20 ? w + 1 : w);
      tx(&T, i ? "ZA" : "Z");
    }
    txf(&T, "^UVT^^ABDTZ ^A $.\n", "s");
    break;
  }
  }
  db_check();
}
