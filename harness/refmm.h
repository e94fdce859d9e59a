// Reference Metamath database checker, written from the language specification
// (Metamath book, ch. 4 and appendix B).  Independent of the program under test.
#pragma once
#include <stddef.h>
#include <string.h>
#define R_OK 0
#define R_STRUCT 1   // the database is not well formed
#define R_PROOF 2    // a proof is wrong
#define R_INCOMPLETE 3 // well formed, a proof contains an unknown step

#ifndef RM_SYM
#define RM_SYM 60
#endif
#ifndef RM_ST
#define RM_ST 70
#endif
#ifndef RM_LEN
#define RM_LEN 60
#endif
#define RM_HYP 24
#define RM_D 64
#ifndef RM_LAB
#define RM_LAB 64
#endif
#ifndef RM_STACK
#define RM_STACK 40
#endif
#ifndef RM_STEPS
#define RM_STEPS 200
#endif

typedef struct { const char *p; int n; } RTok;
typedef struct { RTok t; int isvar; int active; int depth; int hasf; } RSym; // hasf: active $f statement + 1
typedef struct { short s[RM_LEN]; int n; } RExpr;
typedef struct {
  char kind; // f e a p
  RTok label;
  RExpr x;
  int active, depth;
  int nh; short h[RM_HYP];             // mandatory hypotheses (statement numbers)
  int nd; short da[RM_D], db[RM_D];    // mandatory distinct variable pairs
  const char *pb, *pe; // proof text
} RSt;
typedef struct {
  const char *p, *e;
  RSym sym[RM_SYM]; int nsym;
  RSt st[RM_ST]; int nst;
  short da[RM_D], db[RM_D], dd[RM_D]; int nd;   // active $d pairs with depth
  int depth;
  int err;      // first structural error
  const char *why;
  int incomplete;
  int odd;      // a proof tags one step twice: neither verdict is wrong
  int ext;      // accept packed and explicit proofs
} Ref;

static int r_ws(char c) { return (c == ' ') | (c == '\n') | (c == '\t') | (c == '\r') | (c == '\f'); }
static int r_fail(Ref *r, const char *why) { if (!r->err) { r->err = R_STRUCT; r->why = why; } return 0; }
static int r_bad(Ref *r, const char *why) { if (!r->err) { r->err = R_PROOF; r->why = why; } return 0; }
static int r_is(RTok t, const char *s) { int n = (int)strlen(s); return t.n == n && !memcmp(t.p, s, n); }
static int r_same(RTok a, RTok b) { return a.n == b.n && !memcmp(a.p, b.p, a.n); }

// next token, comments skipped; n==0 at the end
static RTok r_raw(Ref *r) {
  RTok t;
  while (r->p < r->e && r_ws(*r->p)) r->p++;
  t.p = r->p;
  while (r->p < r->e && !r_ws(*r->p)) {
    unsigned char c = (unsigned char)*r->p;
    if ((c < 33) | (c > 126)) r_fail(r, "illegal character");
    r->p++;
  }
  t.n = (int)(r->p - t.p);
  return t;
}
static RTok r_tok(Ref *r) {
  for (;;) {
    RTok t = r_raw(r);
    if (t.n != 2 || t.p[0] != '$' || t.p[1] != '(') {
      return t;
    }
    for (;;) {
      t = r_raw(r);
      if (t.n == 0) { r_fail(r, "unterminated comment"); return t; }
      if (r_is(t, "$)")) break;
      for (int i = 0; i + 1 < t.n; i++)
        if (t.p[i] == '$' && (t.p[i + 1] == '(' || t.p[i + 1] == ')')) r_fail(r, "$( or $) inside a comment");
    }
  }
}
static int r_labelok(RTok t) {
  for (int i = 0; i < t.n; i++) {
    unsigned char c = (unsigned char)t.p[i];
    int ok = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) |
             (c == '.') | (c == '-') | (c == '_');
    if (!ok) return 0;
  }
  return t.n > 0;
}
static int r_findsym(Ref *r, RTok t) { // active symbol or -1
  for (int i = 0; i < r->nsym; i++)
    if (r->sym[i].active && r_same(r->sym[i].t, t)) return i;
  return -1;
}
static int r_everdecl(Ref *r, RTok t, int isvar) {
  for (int i = 0; i < r->nsym; i++)
    if (r->sym[i].isvar == isvar && r_same(r->sym[i].t, t)) return 1;
  return 0;
}
static int r_findlabel(Ref *r, RTok t) {
  for (int i = 0; i < r->nst; i++)
    if (r_same(r->st[i].label, t)) return i;
  return -1;
}
static int r_issym(Ref *r, RTok t) { return r_everdecl(r, t, 0) || r_everdecl(r, t, 1); }

static int r_math(Ref *r, RExpr *x, const char *end) { // tokens up to `end`
  x->n = 0;
  for (;;) {
    RTok t = r_tok(r);
    if (t.n == 0) return r_fail(r, "unexpected end of file in a statement");
    if (r_is(t, end)) return 1;
    for (int i = 0; i < t.n; i++) if (t.p[i] == '$') return r_fail(r, "keyword inside a statement");
    int s = r_findsym(r, t);
    if (s < 0) return r_fail(r, "math symbol is not active");
    if (x->n >= RM_LEN) return r_fail(r, "ref: expression too long");
    x->s[x->n++] = (short)s;
  }
}
static int r_occurs(RExpr *x, int s) { for (int i = 0; i < x->n; i++) if (x->s[i] == s) return 1; return 0; }
// mandatory frame of an assertion
static void r_frame(Ref *r, int k) {
  RSt *s = &r->st[k];
  s->nh = 0;
  s->nd = 0;
  char mv[RM_SYM];
  for (int v = 0; v < r->nsym; v++) {
    mv[v] = 0;
    if (!r->sym[v].isvar || !r->sym[v].active) continue;
    if (r_occurs(&s->x, v)) mv[v] = 1;
    for (int i = 0; i < k; i++)
      if (r->st[i].active && r->st[i].kind == 'e' && r_occurs(&r->st[i].x, v)) mv[v] = 1;
  }
  for (int i = 0; i < k; i++) {
    RSt *h = &r->st[i];
    if (!h->active) continue;
    if (h->kind == 'e' || (h->kind == 'f' && mv[h->x.s[1]])) {
      if (s->nh >= RM_HYP) { r_fail(r, "ref: too many hypotheses"); return; }
      s->h[s->nh++] = (short)i;
    }
  }
  for (int i = 0; i < r->nd; i++)
    if (mv[r->da[i]] && mv[r->db[i]]) { s->da[s->nd] = r->da[i]; s->db[s->nd++] = r->db[i]; }
}
static int r_isd(Ref *r, int a, int b) {
  for (int i = 0; i < r->nd; i++)
    if ((r->da[i] == a && r->db[i] == b) || (r->da[i] == b && r->db[i] == a)) return 1;
  return 0;
}
// ---- proofs
typedef struct { RExpr x; int unk; int rs, rl; RTok tag; } REnt; // rs, rl: its steps in r_rec
#ifndef RM_LOG
#define RM_LOG 4000
#endif
static short r_rec[RM_LOG / 4]; // the proof's steps with references expanded: statement number, -1 for ?
static int r_recn;
static char r_log[RM_LOG];  // all proofs, as text
static int r_logn;
static void r_add(const char *p, int n) { if (r_logn + n < (int)sizeof r_log) { memcpy(r_log + r_logn, p, n); r_logn += n; } }
static REnt r_stack[RM_STACK];
static int r_sp;
static REnt r_saved[RM_STEPS];
static RTok r_savedname[RM_STEPS];
static int r_nsaved;
static long r_steps_total;

static int r_push(Ref *r, REnt *e) {
  if (r_sp >= RM_STACK) return r_fail(r, "ref: stack");
  r_stack[r_sp++] = *e;
  return 1;
}
static int r_step(Ref *r, int k) {
  if (r_recn >= (int)(sizeof r_rec / sizeof *r_rec)) return r_fail(r, "ref: steps");
  r_rec[r_recn++] = (short)k;
  return 1;
}
static REnt r_tmp;
static int r_again(Ref *r, REnt *e) { // push a saved entry again
  r_tmp = *e;
  r_tmp.rs = r_recn;
  for (int i = 0; i < e->rl; i++) if (!r_step(r, r_rec[e->rs + i])) return 0;
  return r_push(r, &r_tmp);
}
// use statement k (hypothesis or earlier assertion) in the proof of statement me
static int r_use(Ref *r, int me, int k) {
  RSt *s = &r->st[k];
  if (s->kind == 'f' || s->kind == 'e') {
    if (!s->active) return r_bad(r, "inactive hypothesis used");
    r_tmp.x = s->x;
    r_tmp.unk = 0;
    r_tmp.rs = r_recn;
    r_tmp.tag.n = 0;
    if (!r_step(r, k)) return 0;
    return r_push(r, &r_tmp);
  }
  if (r_sp < s->nh) return r_bad(r, "stack underflow");
  int base = r_sp - s->nh;
  int start = s->nh ? r_stack[base].rs : r_recn;
  if (r->ext) // an explicit proof gives the hypotheses in any order
    for (int i = 0; i < s->nh; i++)
      for (int j = i + 1; j < s->nh; j++)
        if (r_stack[base + j].tag.n && r_same(r_stack[base + j].tag, r->st[s->h[i]].label)) {
          REnt w = r_stack[base + i];
          r_stack[base + i] = r_stack[base + j];
          r_stack[base + j] = w;
          break;
        }
  int sub[RM_SYM];
  int unk = 0;
  for (int i = 0; i < r->nsym; i++) sub[i] = -1;
  for (int i = 0; i < s->nh; i++) {
    RSt *h = &r->st[s->h[i]];
    REnt *e = &r_stack[base + i];
    if (r->ext && e->tag.n && !r_same(e->tag, h->label)) return r_bad(r, "wrong target");
    if (e->unk) { unk = 1; if (h->kind == 'f') sub[h->x.s[1]] = base + i; continue; }
    if (h->kind == 'f') {
      if (e->x.n < 1 || e->x.s[0] != h->x.s[0]) return r_bad(r, "type mismatch");
      sub[h->x.s[1]] = base + i;
    }
  }
  for (int pass = 0; pass < 2; pass++) {
    RExpr *t; REnt *e = 0;
    for (int i = 0; i < (pass ? 1 : s->nh); i++) {
      RExpr *hx;
      if (!pass) {
        if (r->st[s->h[i]].kind != 'e') continue;
        hx = &r->st[s->h[i]].x;
        e = &r_stack[base + i];
        if (e->unk) continue;
      } else hx = &s->x;
      t = &r_tmp.x;
      t->n = 0;
      int hole = 0;
      for (int j = 0; j < hx->n; j++) {
        int c = hx->s[j];
        if (!r->sym[c].isvar) {
          if (t->n >= RM_LEN) return r_fail(r, "ref: expression too long");
          t->s[t->n++] = (short)c;
          continue;
        }
        if (sub[c] < 0) return r_fail(r, "ref: no substitution");
        REnt *u = &r_stack[sub[c]];
        if (u->unk) { hole = 1; continue; }
        for (int m = 1; m < u->x.n; m++) {
          if (t->n >= RM_LEN) return r_fail(r, "ref: expression too long");
          t->s[t->n++] = u->x.s[m];
        }
      }
      if (!pass) {
        if (hole) continue;
        if (t->n != e->x.n) return r_bad(r, "hypothesis mismatch");
        for (int j = 0; j < t->n; j++)
          if (t->s[j] != e->x.s[j]) return r_bad(r, "hypothesis mismatch");
      } else
        r_tmp.unk = hole || unk;
    }
  }
  for (int i = 0; i < s->nd; i++) {
    REnt *u = &r_stack[sub[s->da[i]]], *v = &r_stack[sub[s->db[i]]];
    if (u->unk || v->unk) continue;
    for (int a = 1; a < u->x.n; a++) {
      int x = u->x.s[a];
      if (!r->sym[x].isvar) continue;
      for (int b = 1; b < v->x.n; b++) {
        int y = v->x.s[b];
        if (!r->sym[y].isvar) continue;
        if (x == y) return r_bad(r, "distinct variables share a variable");
        if (!r_isd(r, x, y)) return r_bad(r, "missing distinct variable condition");
      }
    }
  }
  r_tmp.rs = start;
  r_tmp.tag.n = 0;
  r_sp = base;
  if (!r_step(r, k)) return 0;
  return r_push(r, &r_tmp);
}
static int r_unknown(Ref *r) {
  r->incomplete = 1;
  r_tmp.unk = 1;
  r_tmp.x.n = 0;
  r_tmp.rs = r_recn;
  r_tmp.tag.n = 0;
  if (!r_step(r, -1)) return 0;
  return r_push(r, &r_tmp);
}
static int r_dollar(RTok t) { for (int i = 0; i < t.n; i++) if (t.p[i] == '$') return 1; return 0; }
static int r_proof(Ref *r, int me) { // r->p is after $=
  RSt *s = &r->st[me];
  RTok t = r_tok(r);
  r_sp = 0;
  r_nsaved = 0;
  r_recn = 0;
  int steps = 0;
  if (t.n == 0) return r_fail(r, "end of file in a proof");
  if (r_is(t, "$.")) return r_bad(r, "empty proof");
  if (r_is(t, "(")) {
    short lab[RM_LAB];
    int nl = 0;
    for (int i = 0; i < s->nh; i++) lab[nl++] = s->h[i];
    for (;;) {
      t = r_tok(r);
      if (t.n == 0) return r_fail(r, "end of file in a proof");
      if (r_is(t, "$.")) return r_bad(r, "no ) in a compressed proof");
      if (r_dollar(t)) return r_fail(r, "keyword in a proof");
      if (r_is(t, ")")) break;
      int k = r_findlabel(r, t);
      if (k < 0 || k == me) return r_bad(r, "unknown label in a compressed proof");
      for (int i = 0; i < nl; i++)
        if (lab[i] == k) return r_bad(r, i < s->nh ? "mandatory hypothesis in the label list" : "duplicate label in the label list");
      if (!r->st[k].active && (r->st[k].kind == 'e' || r->st[k].kind == 'f')) return r_bad(r, "inactive hypothesis in the label list");
      if (nl >= RM_LAB) return r_fail(r, "ref: labels");
      lab[nl++] = (short)k;
    }
    long acc = 0;
    int canz = 0, inhi = 0; // canz: the last step may be tagged (2: it has been already)
    int uu = 0, uv = 0;     // the obsolete encoding is recognised by UV without UU
    for (const char *q = r->p; q < r->e && *q != '$'; q++) {
      if (q[0] == 'U' && q[1] == 'U') uu = 1;
      if (q[0] == 'U' && q[1] == 'V') uv = 1;
    }
    for (;;) {
      t = r_tok(r);
      if (t.n == 0) return r_fail(r, "end of file in a proof");
      if (r_is(t, "$.")) break;
      if (r_dollar(t)) return r_fail(r, "keyword in a proof");
      for (int i = 0; i < t.n; i++) {
        unsigned char c = (unsigned char)t.p[i];
        if ((c >= 'A') & (c <= 'T')) {
          long v = acc * 20 + (c - 'A');
          acc = 0;
          inhi = 0;
          steps++;
          if (v < nl) canz = r->st[lab[v]].kind == 'a' || r->st[lab[v]].kind == 'p';
          if (v < nl) { if (!r_use(r, me, lab[v])) return 0; }
          else {
            v -= nl;
            if (v >= r_nsaved) return r_bad(r, "compressed reference out of range");
            if (!r_again(r, &r_saved[v])) return 0;
            canz = 0; // a reference is not a new step that could be saved again
          }
        } else if ((c >= 'U') & (c <= 'Y')) {
          acc = acc * 5 + (c - 'U' + ((uv && !uu && inhi) ? 0 : 1));
          inhi = 1;
          canz = 0;
          if (acc > 1000000) return r_bad(r, "number too large");
        } else if (c == 'Z') {
          if (inhi || !canz || !r_sp) return r_bad(r, "misplaced Z");
          if (r_nsaved >= RM_STEPS) return r_fail(r, "ref: saved");
          r_saved[r_nsaved] = r_stack[r_sp - 1];
          r_saved[r_nsaved].rl = r_recn - r_saved[r_nsaved].rs;
          r_nsaved++;
          if (canz == 2) r->odd = 1;
          canz = 2;
        } else if (c == '?') {
          if (inhi) return r_bad(r, "misplaced ?");
          canz = 0;
          steps++;
          if (!r_unknown(r)) return 0;
        } else return r_bad(r, "bad character in a compressed proof");
      }
    }
    if (inhi) return r_bad(r, "truncated number");
  } else {
    for (;; t = r_tok(r)) {
      if (t.n == 0) return r_fail(r, "end of file in a proof");
      if (r_is(t, "$.")) break;
      if (r_dollar(t)) return r_fail(r, "keyword in a proof");
      steps++;
      RTok name = {0, 0}, tag = {0, 0};
      if (r->ext) {
        for (int i = 0; i < t.n; i++)
          if (t.p[i] == ':' || t.p[i] == '=') {
            RTok w = {t.p, i};
            if (t.p[i] == ':') name = w; else tag = w;
            t.p += i + 1;
            t.n -= i + 1;
            i = -1;
          }
        if (r_is(t, "?") == 0) { // no local label on a hypothesis or on a reference
          int k = r_findlabel(r, t);
          if (name.n && (k < 0 || r->st[k].kind == 'e' || r->st[k].kind == 'f')) return r_bad(r, "misplaced local label");
        }
        if ((name.n && r_findlabel(r, name) >= 0)) return r_bad(r, "local label is a label");
      }
      int done = 0;
      for (int i = 0; r->ext && i < r_nsaved; i++)
        if (r_same(r_savedname[i], t)) { if (!r_again(r, &r_saved[i])) return 0; done = 1; }
      if (!done) {
        if (r_is(t, "?")) { if (!r_unknown(r)) return 0; }
        else {
          int k = r_findlabel(r, t);
          if (k < 0 || k == me) return r_bad(r, "unknown label");
          if (!r_use(r, me, k)) return 0;
        }
      }
      r_stack[r_sp - 1].tag = tag;
      if (name.n) {
        for (int i = 0; i < r_nsaved; i++) if (r_same(r_savedname[i], name)) return r_bad(r, "local label again");
        if (r_nsaved >= RM_STEPS) return r_fail(r, "ref: saved");
        r_savedname[r_nsaved] = name;
        r_saved[r_nsaved] = r_stack[r_sp - 1];
        r_saved[r_nsaved].rl = r_recn - r_saved[r_nsaved].rs;
        r_nsaved++;
      }
    }
  }
  r_steps_total = steps;
  r_add(s->label.p, s->label.n);
  for (int i = 0; i < r_recn; i++) {
    r_add(" ", 1);
    if (r_rec[i] < 0) r_add("?", 1); else r_add(r->st[r_rec[i]].label.p, r->st[r_rec[i]].label.n);
  }
  r_add("\n", 1);
  if (steps == 0) return r_bad(r, "empty proof");
  if (r_sp != 1) return r_bad(r, "stack does not hold exactly one entry");
  if (r_stack[0].unk) return 1;
  if (r_stack[0].x.n != s->x.n) return r_bad(r, "proves something else");
  for (int i = 0; i < s->x.n; i++)
    if (r_stack[0].x.s[i] != s->x.s[i]) return r_bad(r, "proves something else");
  return 1;
}
static void r_newlabel(Ref *r, RTok lab) {
  if (!lab.n) { r_fail(r, "missing label"); return; }
  if (!r_labelok(lab)) r_fail(r, "bad label");
  else if (r_findlabel(r, lab) >= 0) r_fail(r, "duplicate label");
}
static Ref *ref_check(Ref *r, const char *buf, size_t n) {
  int ext = r->ext;
  memset(r, 0, sizeof *r);
  r->ext = ext;
  r_logn = 0;
  r->p = buf;
  r->e = buf + n;
  RTok lab = {0, 0};
  while (!r->err) {
    RTok t = r_tok(r);
    if (r->err) break;
    if (t.n == 0) {
      if (lab.n) r_fail(r, "label at the end of the file");
      if (r->depth) r_fail(r, "missing $}");
      break;
    }
    if (t.p[0] != '$') {
      if (lab.n) { r_fail(r, "two labels"); break; }
      lab = t;
      continue;
    }
    if (t.n != 2) { r_fail(r, "bad keyword"); break; }
    char k = t.p[1];
    if (k == 'c' || k == 'v') {
      if (lab.n) { r_fail(r, "label before $c/$v"); break; }
      if (k == 'c' && r->depth) { r_fail(r, "$c in an inner scope"); break; }
      int cnt = 0;
      for (;;) {
        t = r_tok(r);
        if (t.n == 0) { r_fail(r, "end of file"); break; }
        if (r_is(t, "$.")) break;
        int bad = 0;
        for (int i = 0; i < t.n; i++) if (t.p[i] == '$') bad = 1;
        if (bad) { r_fail(r, "$ in a math symbol"); break; }
        if (r_findsym(r, t) >= 0) { r_fail(r, "symbol already active"); break; }
        if (r_everdecl(r, t, k == 'c')) { r_fail(r, "constant and variable"); break; }
        if (k == 'c' && r_everdecl(r, t, 0)) { r_fail(r, "constant again"); break; }
        if (r->nsym >= RM_SYM) { r_fail(r, "ref: symbols"); break; }
        RSym *s = &r->sym[r->nsym++];
        s->t = t; s->isvar = k == 'v'; s->active = 1; s->depth = r->depth; s->hasf = 0;
        cnt++;
      }
      if (!r->err && !cnt) r_fail(r, "empty $c/$v");
    } else if (k == '{') {
      if (lab.n) { r_fail(r, "label before ${"); break; }
      r->depth++;
    } else if (k == '}') {
      if (lab.n) { r_fail(r, "label before $}"); break; }
      if (!r->depth) { r_fail(r, "unmatched $}"); break; }
      for (int i = 0; i < r->nsym; i++) if (r->sym[i].active && r->sym[i].depth == r->depth) r->sym[i].active = 0;
      for (int i = 0; i < r->nst; i++)
        if (r->st[i].active && r->st[i].depth == r->depth && (r->st[i].kind == 'f' || r->st[i].kind == 'e')) {
          r->st[i].active = 0;
          if (r->st[i].kind == 'f') r->sym[r->st[i].x.s[1]].hasf = 0;
        }
      int m = 0;
      for (int i = 0; i < r->nd; i++)
        if (r->dd[i] != r->depth) { r->da[m] = r->da[i]; r->db[m] = r->db[i]; r->dd[m++] = r->dd[i]; }
      r->nd = m;
      r->depth--;
    } else if (k == 'd') {
      if (lab.n) { r_fail(r, "label before $d"); break; }
      RExpr x;
      if (!r_math(r, &x, "$.")) break;
      if (x.n < 2) { r_fail(r, "$d needs two variables"); break; }
      for (int i = 0; i < x.n; i++) {
        if (!r->sym[x.s[i]].isvar) { r_fail(r, "constant in $d"); break; }
        for (int j = 0; j < i; j++) {
          if (x.s[i] == x.s[j]) { r_fail(r, "repeated variable in $d"); break; }
          if (!r_isd(r, x.s[j], x.s[i])) {
            if (r->nd >= RM_D) { r_fail(r, "ref: $d"); break; }
            r->da[r->nd] = x.s[j]; r->db[r->nd] = x.s[i]; r->dd[r->nd++] = (short)r->depth;
          }
        }
      }
    } else if (k == 'f' || k == 'e' || k == 'a' || k == 'p') {
      r_newlabel(r, lab);
      if (r->err) break;
      if (r->nst >= RM_ST) { r_fail(r, "ref: statements"); break; }
      RSt *s = &r->st[r->nst];
      s->kind = k;
      s->label = lab;
      lab.n = 0;
      s->active = 1;
      s->depth = r->depth;
      if (!r_math(r, &s->x, k == 'p' ? "$=" : "$.")) break;
      if (s->x.n < 1 || r->sym[s->x.s[0]].isvar) { r_fail(r, "the first symbol must be a constant"); break; }
      if (k == 'f') {
        if (s->x.n != 2 || !r->sym[s->x.s[1]].isvar) { r_fail(r, "$f needs a constant and a variable"); break; }
        RSym *v = &r->sym[s->x.s[1]];
        if (v->hasf) { r_fail(r, "variable already has an active $f"); break; }
        v->hasf = r->nst + 1;
      } else
        for (int i = 1; i < s->x.n; i++)
          if (r->sym[s->x.s[i]].isvar && !r->sym[s->x.s[i]].hasf) { r_fail(r, "variable without an active $f"); break; }
      if (r->err) break;
      if (k == 'a' || k == 'p') r_frame(r, r->nst);
      r->nst++;
      if (k == 'p') { s->pb = r->p; r_proof(r, r->nst - 1); r->st[r->nst - 1].pe = r->p; }
    } else { r_fail(r, "bad keyword"); break; }
  }
  if (!r->err) // labels and math symbols share no name
    for (int i = 0; i < r->nst && !r->err; i++)
      if (r_issym(r, r->st[i].label)) r_fail(r, "label equals a math symbol");
  if (!r->err && r->incomplete) r->err = R_INCOMPLETE;
  return r;
}
