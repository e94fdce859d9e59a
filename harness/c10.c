// The Proof Assistant: what it calls complete verifies, and what it saves is what it shows.
#include "db.h"
#define P0 "$c ( ) W |- $. $v p q r s $. wp $f W p $. wq $f W q $. wr $f W r $. ws $f W s $. wi $a W ( p q ) $.\n"
#define AX "ax $a |- ( p ( q p ) ) $. ${ m1 $e |- p $. m2 $e |- ( p q ) $. mp $a |- q $. $}\n"
static Txt A, B, s;
static int pick(const char *set) {
  char c;
  vx_sym_set(&c, 1, set, strlen(set), "m");
  return vx_conc(c) - '0';
}
static void menu(const char *const *m, const char *set) { tx(&s, m[pick(set)]); tx(&s, "\n"); }
#define END "save new_proof / normal\nwrite source o.mm\nexit / force\nread o.mm / verify\n"
static int answers;
static int prompts(void) {
  size_t n;
  char *o = run_out(&n);
  answers = count_of(o, n, "Accept (A)");
  return count_of(o, n, "MM> ") + count_of(o, n, "MM-PA> ") + answers;
}

static const char *const M[] = {"assign last mp", "assign last ax", "assign first e1", "assign last e2", "improve all", "assign 1 wr", "delete step 4", "delete floating_hypotheses", "unify all", "initialize all",
  /* : */ "undo", /* ; */ "redo", /* < */ "set undo 2", /* = */ "improve last / depth 1", /* > */ "improve all / 3 / depth 1 / subproofs", /* ? */ "delete all", /* @ */ "assign last e1 / no_unify",
  /* A */ "let step 3 = \"|- r\"", /* B */ "let variable $1 = \"r\"", /* C */ "initialize user", /* D */ "unify step 5", /* E */ "replace 1 ws", /* F */ "delete step 3", /* G */ "let step -1 = \"|- ( r s )\"", /* H */ "initialize step 3", /* I */ "assign -1 e2"};
static const char *lim = "2";
static int limit = 10, pre, invisible;
// saves the new proof, and compares what the source then holds with what the assistant said
static int lines;
static void run(void) {
  lines = 1;
  for (size_t i = 0; i < s.n; i++) lines += s.b[i] == '\n';
  int r = mm_script(s.b);
  vx_assert(r == 0 && prompts() == lines, "the program did not get to the end of the script");
}
static int judge(void) {
  ref_check(&R, T.b, T.n);
  if (R.err == R_PROOF || R.err == R_STRUCT) return 0; // the proof was wrong before
  tx(&s, "save new_proof / normal\nexit / force\nwrite source o.mm\nverify proof *\nexit\n");
  vfs_put("t.mm", T.b, T.n);
  run();
  size_t n, sn;
  char *o = vfs_get("o.mm", &n);
  vx_assert(o != 0, "the source was not written");
  strip(&A, T.b, T.n);
  strip(&B, o, n);
  vx_assert(A.n == B.n && !memcmp(A.b, B.b, A.n), "saving the new proof changed another part of the source");
  ref_check(&R, o, n);
  const char *seg = out_seg(lines - 2 - answers, &sn);
  int bad = has(seg, sn, "?Error"), done = has(seg, sn, "All proofs in the database were verified");
  int said = out_has("CONGRATULATIONS!") || out_has("is already complete"), warned = out_has("ERROR IN THE PROOF") || out_has("proof has an error");
  if (R.err == R_OK) {
    vx_cover("complete");
    vx_assert(done && !bad, "a complete proof is not accepted");
    vx_assert(said, "a complete proof is not announced");
  } else if (R.err == R_INCOMPLETE) {
    vx_cover("incomplete");
    vx_assert(!done && (!bad || warned), "an incomplete proof");
  } else {
    vx_cover(R.why);
    int kf = !strcmp(R.why, "proves something else") || !strcmp(R.why, "missing distinct variable condition") || !strcmp(R.why, "distinct variables share a variable");
    vx_assert((!done || kf) && (bad || has(seg, sn, "were not proved")), "a wrong proof is accepted");
    vx_assert(warned || !strcmp(R.why, "missing distinct variable condition") || !strcmp(R.why, "distinct variables share a variable"), "the assistant saved a wrong proof");
  }
  return 1;
}
// does the proof of label l depend on statement m?
static int uses(const char *l, const char *m) {
  size_t ln = strlen(l), mn = strlen(m);
  for (int i = 0; i < r_logn;) {
    int e = i;
    while (r_log[e] != '\n') e++;
    int on = !strncmp(r_log + i, l, ln) && r_log[i + ln] == ' ';
    while (on && i < e) {
      while (r_log[i] != ' ' && i < e) i++;
      if (i == e) break;
      int b = ++i;
      while (i < e && r_log[i] != ' ') i++;
      if (i - b == (int)mn && !strncmp(r_log + b, m, mn)) return 1;
      char sub[40];
      memcpy(sub, r_log + b, i - b);
      sub[i - b] = 0;
      if (i > b && strcmp(sub, l) && uses(sub, m)) return 1;
    }
    i = e + 1;
  }
  return 0;
}
// UNDO and REDO against a model: a stack of what SHOW NEW_PROOF displays
static void undo_model(const char *set, int k, const char *last) {
  int cmd[12];
  for (int i = 0; i < k; i++) {
    cmd[i] = pick(i == k - 1 ? last : set);
    tx(&s, M[cmd[i]]);
    if (cmd[i] == 12) { s.n--; tx(&s, lim); }
    tx(&s, "\nshow new_proof / all\n");
  }
  tx(&s, "exit / force\nexit\n");
  vfs_put("t.mm", T.b, T.n);
  run();
  static const char *st[14];
  static size_t sl[14];
  static int opt[14]; // commands without a visible effect that UNDO may have to undo
  int top = 0, cur = 0, lost = 0, overflow = 0, did = 0;
  st[0] = out_seg(3 + pre, &sl[0]);
  for (int i = 0; i < k; i++) {
    size_t cn, dn;
    const char *c = out_seg(4 + pre + 2 * i, &cn), *d = out_seg(5 + pre + 2 * i, &dn);
    int same = dn == sl[cur] && !memcmp(d, st[cur], dn);
    if (cmd[i] == 10) {
      if (has(c, cn, "Undid:")) {
        did = 1;
        if (invisible && same && opt[cur] > 0) { opt[cur]--; continue; }
        vx_assert(cur > lost, "UNDO beyond the start");
        cur--;
        vx_assert(dn == sl[cur] && !memcmp(d, st[cur], dn), "UNDO does not restore the previous proof");
      } else {
        vx_assert(same, "a failing UNDO changes the proof");
        vx_assert(cur == lost && has(c, cn, overflow ? "Exceeded maximum" : "nothing to undo"), "UNDO refuses");
      }
    } else if (cmd[i] == 11) {
      if (has(c, cn, "Redid:")) {
        vx_cover("redo");
        vx_assert(cur < top, "REDO without UNDO");
        cur++;
        vx_assert(dn == sl[cur] && !memcmp(d, st[cur], dn), "REDO does not restore the proof");
      } else {
        vx_assert(same, "a failing REDO changes the proof");
        vx_assert(cur == top && has(c, cn, "nothing more to redo"), "REDO refuses");
      }
    } else if (cmd[i] == 12) {
      vx_assert(same, "SET UNDO changes the proof");
      if (limit != *lim - '0') {
        limit = *lim - '0';
        lost = top = cur;
        overflow = 0;
      }
    } else if (!same) { // the proof was changed
      cur++;
      top = cur;
      st[cur] = d;
      sl[cur] = dn;
      opt[cur] = 0;
      if (cur - lost > limit) {
        lost++;
        overflow = 1;
      }
    } else opt[cur]++;
  }
  if (did) vx_cover("undo");
}
void vx_main(int v) {
  vx_libc_init();
  tx(&s, "read t.mm\nprove t\n");
  switch (v) {
  case 0: // which theorem and which commands
    tx(&T, P0 AX);
    txf(&T, "${ e1 $e |- ( r s ) $. e2 $e |- r $. t $p |- ^sr^ $= ? $. $}\n", "p");
    menu(M, "013=");
    menu(M, "0123456789>");
    menu(M, "0123456789?@");
    menu(M, "0123468=");
    judge();
    break;
  case 1: // histories
    tx(&T, P0 AX "${ e1 $e |- ( r s ) $. e2 $e |- r $. t $p |- s $= ? $. $}\n");
    tx(&s, "show new_proof / all\n");
    undo_model("0246:;", 5, ":;");
    break;
  case 2: // limited
    tx(&T, P0 AX "${ e1 $e |- ( r s ) $. e2 $e |- r $. t $p |- s $= ? $. $}\n");
    tx(&s, "show new_proof / all\n");
    undo_model("05:;<", 6, ":;");
    break;
  case 9: // all that a proof holds: formulas given by LET, unification
    tx(&T, P0 AX);
    txf(&T, "${ e1 $e |- ( r s ) $. e2 $e |- r $. t $p |- s $= ^?^ ws ? ? mp $. $}\n", "p");
    tx(&s, "show new_proof / all\n");
    invisible = 1;
    undo_model("25:ABCDEFGHI", 4, ":");
    break;
  case 10: { // other limits
    static const char *const L[] = {"0", "1", "3"};
    tx(&T, P0 AX "${ e1 $e |- ( r s ) $. e2 $e |- r $. t $p |- s $= ? $. $}\n");
    lim = L[pick("012")];
    limit = *lim - '0';
    pre = 1;
    tx(&s, "set undo ");
    tx(&s, lim);
    tx(&s, "\nshow new_proof / all\n");
    undo_model("05:;", 5, ":;");
    break;
  }
  case 3: { // minimizing
    tx(&T, P0 AX "ax2 $a |- ( p p ) $.\n");
    txf(&T, "${ $d p ^qrs^ $. l1e $e |- p $. l1 $p |- ( q p ) $= wp wq wp wi l1e wp wq ax mp $. $}\n", "p");
    tx(&T, "l2 $p |- ( q ( p p ) ) $= wp wp wi wq wp wp wi wi wp ax2 wp wp wi wq ax mp $.\n");
    txf(&T, "l3 $a |- ( q ( ^pr^ p ) ) $.\n", "p");
    txf(&T, "${ $d r ^pqs^ $. e $e |- ( r r ) $. t $p |- ( s ( r r ) ) $= wr wr wi ws wr wr wi wi e wr wr wi ws ax mp $. $}\n", "p");
    static const char *const O[] = {"l1", "l2", "l3", "*", "l?,zz", "l1 / may_grow", "* / may_grow", "* / allow_new_axioms *", "* / allow_new_axioms ax2", "* / allow_new_axioms * / no_new_axioms_from ax*",
      "* / allow_new_axioms * / forbid ax2", "* / allow_new_axioms * / except l3", "* / allow_new_axioms l* / verbose / override"};
    int c = pick("0123456789:;<");
    tx(&s, "minimize_with ");
    tx(&s, O[c]);
    tx(&s, "\n");
    judge();
    vx_assert(R.err == R_OK, "minimizing broke the proof");
    int a2 = uses("t", "ax2"), a3 = uses("t", "l3");
    if (uses("t", "l1")) vx_cover("with l1");
    if (a2) vx_cover("with l2");
    if (a3) vx_cover("with l3");
    vx_assert(!a2 || c == 7 || c == 8 || c == 11, "a new axiom is used");
    vx_assert(!a3 || c == 7 || c == 9 || c == 10 || c == 12, "a new axiom is used");
    break;
  }
  case 4: { // arguments out of range
    tx(&T, P0 AX "${ e1 $e |- ( r s ) $. e2 $e |- r $. t $p |- s $= ? wr e2 ? mp $. $}\n");
    static const char *const C[] = {"delete step ", "assign ", "replace ", "improve ", "unify step ", "let step ", "let variable $", "expand ", "minimize_with ", "delete ", "initialize "};
    static const char *const N[] = {"0", "1", "2", "5", "6", "99", "-1", "-9", "+0", "+7", "all", "99999999999", "first", "x"};
    static const char *const L[] = {"0", "1", "5", "8:", "13"};
    for (int i = 0; i < 2; i++) {
      int c = pick("0123456789:");
      tx(&s, C[c]);
      tx(&s, N[pick(i ? "15" : "0123456789:;<=")]);
      tx(&s, c == 1 || c == 2 ? " mp\n" : c == 5 || c == 6 ? " = '|- s'\n" : "\n");
    }
    judge();
    break;
  }
  case 5: // expanding
    tx(&T, P0 AX "z $a |- ( p s ) $. ${ $d p s $. y1 $e |- ( p s ) $. y $a |- p $. $}\n");
    {
      static const char *const L1[] = {"wp wq wp wi l1e wp wq ax mp", "wq wp wi wr wq wp wi wr z y", "wp wp wp wi l1e wp wp ax mp wq wp wi ws wq wp wi ws z y"};
      static const char *const L3[] = {"wq wr wq wr z y", "wq wp wq wp z y", "wq ws wq ws z y", "?"};
      static const char *const T1[] = {"wr wr wi ws wr wr e l1 l1", "ws wr wr wi wi l3", "wr wr wi ws wr wr wi l3 l1", "wr wr wi ws wr wr ? l1 l1"};
      tx(&T, "${ l1e $e |- p $. $d q r $. l1 $p |- ( q p ) $= ");
      tx(&T, L1[pick("01")]);
      txf(&T, " $. $} ${ $d q ^rps^ $. l3 $p |- q $= ", "p");
      tx(&T, L3[pick("0123")]);
      txf(&T, " $. $} ${ $d s ^rpq^ $. e $e |- r $. t $p |- ( s ( r r ) ) $= ", "p");
      tx(&T, T1[pick("0123")]);
      tx(&T, " $. $}\n");
      static const char *const O[] = {"l1", "l*", "ax", "*", "l3,l1", "t", "l3"};
      tx(&s, "expand ");
      tx(&s, O[pick("0123456")]);
      tx(&s, "\n");
      if (!judge()) return;
      vx_assert(R.err == R_OK || R.err == R_INCOMPLETE || !strcmp(R.why, "missing distinct variable condition"), "expanding broke the proof");
    }
    break;
  case 6: { // replacing
    tx(&T, P0 AX);
    txf(&T, "${ l1e $e |- p $. l1 $a |- ( ^qp^ ^pq^ ) $. $} l2 $a |- ( r ^rs^ ) $.\n"
      "${ e $e |- r $. e3 $e |- ^rs^ $. t $p |- ( s ( r r ) ) $= wr wr wi ws wr wr ^e?^ l1 l1 $. $}\n", "p");
    static const char *const L[] = {"l1", "l2", "ax", "mp", "wi"};
    tx(&s, "replace ");
    char c;
    vx_sym_set(&c, 1, "123456789", 9, "n");
    c = vx_conc(c);
    txn(&s, &c, 1);
    tx(&s, " ");
    tx(&s, L[pick("01234")]);
    tx(&s, "\n");
    static const char *const M[] = {"", "improve all / 2 / subproofs", "undo", "delete floating_hypotheses", "improve all / 3 / depth 1 / no_distinct"};
    tx(&s, M[pick("01234")]);
    tx(&s, "\n");
    judge();
    break;
  }
  case 7: { // several unifications are possible: the user chooses
    tx(&T, "$c W |- $. $v p q r s $. wp $f W p $. wq $f W q $. wr $f W r $. ws $f W s $. wc $a W p q $. ${ c1 $e |- p $. c2 $e |- q $. c $a |- p q $. $} ${ d1 $e |- p q $. d $a |- q p $. $}\n");
    txf(&T, "${ e1 $e |- r s $. e2 $e |- s ^rs^ $. e3 $e |- r $. e4 $e |- ^rs^ s $. t $p |- r s s $= ? $. $}\n", "p");
    static const char *const L[] = {"assign last c", "assign last d", "assign last e1", "assign first e4", "assign last c / no_unify\nunify all / interactive"};
    static const char *const A[] = {"", "r\n", "r\nr\n", "zz\nr\n", "r\nr\nr"};
    tx(&s, L[pick("014")]);
    tx(&s, "\n");
    tx(&s, A[pick("01234")]);
    tx(&s, "\n");
    tx(&s, L[pick("123")]);
    tx(&s, "\n\n\nimprove all\n");
    tx(&s, L[pick("23")]);
    tx(&s, "\n\nimprove all\n");
    judge();
    break;
  }
  case 8: { // working variables and steps given by the user
    tx(&T, P0 AX "${ e1 $e |- ( r s ) $. e2 $e |- r $. t $p |- s $= ? $. $}\n");
    tx(&s, "assign last mp\n");
    static const char *const L[] = {"let variable $2 = ", "let step 3 = ", "let step last = ", "let step 1 = ", "let variable $1 = "};
    for (int i = 0; i < 1; i++) {
      tx(&s, L[pick("01234")]);
      txf(&s, "\"^|(W ^^- ^^(r ^^r ^^rs ^^)s ^ ^) ^\"\n", "c");
    }
    tx(&s, "assign first e2\nassign last e1\nimprove all\n");
    judge();
    break;
  }
  }
}
