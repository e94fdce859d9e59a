// Reads a database with the program, verifies all proofs and compares the
// verdict with the reference checker's.
#pragma once
#include "common.h"
#include "refmm.h"
static Txt T;
static Ref R;
static int db_reject, db_summary, db_unknown; // db_unknown: a proof contains '?'; its errors need not be found
static void db_run(const char *script) {
  int r = mm_script(script), lines = 1;
  for (const char *c = script; *c; c++) lines += *c == '\n';
  db_reject = out_has("?Error");
  db_summary = out_has("All proofs in the database were verified");
  size_t n;
  char *o = run_out(&n);
  if (has(o, n, "?BUG")) { // documented: earlier errors may lead to false bug detection
    vx_assert(db_reject, "the program reports an internal bug");
    vx_cover("bug check after an error");
  } else
  vx_assert(r == 0 && count_of(o, n, "MM> ") + count_of(o, n, "MM-PA> ") == lines, "the program did not get to the end of the script");
}
static void strip(Txt *d, const char *s, size_t n) { // everything but proofs and comments (SAVE PROOF may add a date to a description)
  d->n = 0;
  for (size_t i = 0; i < n; i++) {
    if (i + 1 < n && s[i] == '$' && s[i + 1] == '(') {
      while (!(s[i] == '$' && s[i + 1] == ')')) i++;
      i++;
      continue;
    }
    txn(d, s + i, 1);
    if (i && s[i - 1] == '$' && s[i] == '=') {
      while (i + 1 < n && !(s[i] == '$' && s[i + 1] == '.')) i++;
      i--;
    }
  }
}
// the output that follows the k-th prompt (0: the first), up to the next prompt
static const char *out_seg(int k, size_t *len) {
  size_t n;
  const char *o = run_out(&n), *start = 0;
  for (size_t i = 0; i + 4 <= n; i++) {
    if (o[i] != 'M' && o[i] != 'T') continue;
    size_t l = !strncmp(o + i, "MM> ", 4) ? 4 : !strncmp(o + i, "MM-PA> ", 7) ? 7 : !strncmp(o + i, "TOOLS> ", 7) ? 7 : 0;
    if (!l) continue;
    if (k-- == 0) start = o + i + l;
    else if (start) {
      *len = o + i - start;
      return start;
    }
  }
  *len = start ? (size_t)(o + n - start) : 0;
  return start;
}
static void db_compare(void) {
  size_t n;
  char *o = run_out(&n);
  if (R.odd && (R.err == R_OK || R.err == R_INCOMPLETE)) {
    vx_cover("a step is tagged twice");
    vx_assert(db_summary != db_reject || (R.err == R_INCOMPLETE && has(o, n, "were not proved")), "no clear verdict");
    return;
  }
  if (R.err == R_OK) {
    vx_cover("valid");
    vx_assert(!db_reject, "a valid database is rejected");
    vx_assert(db_summary, "no summary for a valid database");
  } else if (R.err == R_INCOMPLETE) {
    vx_cover("incomplete");
    vx_assert(!db_summary, "an unfinished proof counts as verified");
    vx_assert(db_reject || has(o, n, "were not proved"), "an unfinished proof is not reported");
  } else {
    vx_cover(R.why);
    vx_assert(strncmp(R.why, "ref:", 4) != 0, "reference checker limit");
    vx_assert(db_reject || (db_unknown && has(o, n, "were not proved")), "an invalid database is accepted");
    if (db_summary && R.err == R_PROOF) {
      if (!strcmp(R.why, "proves something else") || !strcmp(R.why, "distinct variables share a variable") ||
          !strcmp(R.why, "missing distinct variable condition"))
        vx_finding("summary-after-dv-or-result-error");
      else vx_assert(0, "an error is reported together with the all-verified summary");
    }
  }
}
static void db_check(void) {
  vfs_put("t.mm", T.b, T.n);
  db_run("read t.mm\nverify proof *\nexit\n");
  ref_check(&R, T.b, T.n);
  db_compare();
}
