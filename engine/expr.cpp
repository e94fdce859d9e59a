#include "expr.h"
#include <algorithm>
#include <deque>

uint64_t g_nExpr = 0;
static uint32_t g_epoch = 1;

struct KeyHash {
  size_t operator()(const Expr *e) const {
    uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull + e->w * 1000003u + e->aux * 7919u;
    for (int i = 0; i < 3; i++) {
      h ^= (uint64_t)(uintptr_t)e->k[i] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    }
    h ^= e->c * 0xff51afd7ed558ccdull;
    if (e->op == E_BTAB)
      for (int i = 0; i < 4; i++) h = (h ^ e->bt->w[i]) * 0xc4ceb9fe1a85ec53ull;
    if (e->op == E_VTAB)
      for (int i = 0; i < 256; i++) h = (h ^ e->vt[i]) * 0xc4ceb9fe1a85ec53ull;
    return h ^ (h >> 29);
  }
};
struct KeyEq {
  bool operator()(const Expr *a, const Expr *b) const {
    if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->c != b->c ||
        a->k[0] != b->k[0] || a->k[1] != b->k[1] || a->k[2] != b->k[2])
      return false;
    if (a->op == E_BTAB) return *a->bt == *b->bt;
    if (a->op == E_VTAB) return !memcmp(a->vt, b->vt, 256 * 8);
    return true;
  }
};
static std::unordered_set<Expr *, KeyHash, KeyEq> g_tab;
static std::deque<Expr> g_arena;

struct SupHash {
  size_t operator()(const Support &s) const {
    size_t h = s.size();
    for (auto x : s) h = h * 1000003u + x;
    return h;
  }
};
static std::unordered_set<Support, SupHash> g_sups;

static Expr *intern(Expr &t) {
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  g_arena.push_back(t);
  Expr *e = &g_arena.back();
  e->id = (uint32_t)++g_nExpr;
  if (e->op == E_BTAB) {
    e->bt = new Bits256(*t.bt);
    e->vt = (uint64_t *)malloc(256 * 8);
    for (int i = 0; i < 256; i++) e->vt[i] = e->bt->get(i);
  } else if (e->op == E_VTAB) {
    e->vt = (uint64_t *)malloc(256 * 8);
    memcpy(e->vt, t.vt, 256 * 8);
  }
  g_tab.insert(e);
  return e;
}
static void blank(Expr &t, Op op, int w) {
  memset(&t, 0, sizeof t);
  t.op = op;
  t.w = (uint8_t)w;
}
Expr *mkConst(uint64_t v, int w) {
  Expr t;
  blank(t, E_CONST, w);
  t.c = v & maskw(w);
  t.sv = -1;
  return intern(t);
}
Expr *mkSym(int idx) {
  Expr t;
  blank(t, E_SYM, 8);
  t.c = idx;
  t.sv = idx;
  Expr *e = intern(t);
  if (!e->vt) {
    e->vt = (uint64_t *)malloc(256 * 8);
    for (int i = 0; i < 256; i++) e->vt[i] = i;
  }
  return e;
}
Expr *mkBtab(int var, const Bits256 &b) {
  if (b == BITS_ALL) return mkConst(1, 1);
  if (b.empty()) return mkConst(0, 1);
  Expr t;
  blank(t, E_BTAB, 1);
  Bits256 bb = b;
  t.bt = &bb;
  t.sv = var;
  t.c = var;
  return intern(t);
}
Expr *mkVtab(int var, int w, const uint64_t *tab) {
  bool same = true;
  for (int i = 1; i < 256 && same; i++) same = tab[i] == tab[0];
  if (same) return mkConst(tab[0], w);
  if (w == 1) {
    Bits256 b = BITS_NONE;
    for (int i = 0; i < 256; i++)
      if (tab[i] & 1) b.set(i);
    return mkBtab(var, b);
  }
  Expr t;
  blank(t, E_VTAB, w);
  t.vt = (uint64_t *)tab;
  t.sv = var;
  t.c = var;
  return intern(t);
}
void supportOf(Expr *e, Support &out) {
  if (e->sv == -1) return;
  if (e->sv >= 0) { out.push_back((uint16_t)e->sv); return; }
  out.insert(out.end(), e->sup->begin(), e->sup->end());
}

Expr *mk(Op op, int w, Expr *a, Expr *b, Expr *c, int aux) {
  // algebraic simplifications
  switch (op) {
  case E_ZEXT: case E_SEXT:
    if (a->w == w) return a;
    if (op == E_ZEXT && a->op == E_ZEXT) a = a->k[0];
    if (op == E_SEXT && a->op == E_SEXT) a = a->k[0];
    if (op == E_SEXT && a->op == E_ZEXT) { op = E_ZEXT; a = a->k[0]; }
    break;
  case E_EXTRACT:
    if (aux == 0 && a->w == w) return a;
    if (a->op == E_EXTRACT) { aux += a->aux; a = a->k[0]; }
    if (a->op == E_ZEXT || a->op == E_SEXT) {
      Expr *i = a->k[0];
      if (aux + w <= i->w) return mk(E_EXTRACT, w, i, nullptr, nullptr, aux);
      if (a->op == E_ZEXT && aux >= i->w) return mkConst(0, w);
      if (aux == 0 && w > i->w) return mk(a->op, w, i);
    }
    if (a->op == E_CONCAT) {
      int lw = a->k[1]->w;
      if (aux >= lw) return mk(E_EXTRACT, w, a->k[0], nullptr, nullptr, aux - lw);
      if (aux + w <= lw) return mk(E_EXTRACT, w, a->k[1], nullptr, nullptr, aux);
    }
    break;
  case E_CONCAT:
    if (isC(a) && a->c == 0) return mk(E_ZEXT, w, b);
    // adjacent extracts of the same expression
    if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->k[0] == b->k[0] &&
        a->aux == b->aux + b->w)
      return mk(E_EXTRACT, w, a->k[0], nullptr, nullptr, b->aux);
    if (a->op == E_EXTRACT && a->k[0] == b && a->aux == b->w) // extract above whole
      return mk(E_EXTRACT, w, a->k[0], nullptr, nullptr, 0);
    break;
  case E_ADD: case E_OR: case E_XOR:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->c == 0) return a;
    if (op == E_OR && a == b) return a;
    if (op == E_OR && isC(b) && b->c == maskw(w)) return b;
    if (op == E_XOR && a == b) return mkConst(0, w);
    if (op == E_ADD && isC(b) && a->op == E_ADD && isC(a->k[1]))
      return mk(E_ADD, w, a->k[0], mkConst(a->k[1]->c + b->c, w));
    if (op == E_XOR && isC(b) && a->op == E_XOR && isC(a->k[1]))
      return mk(E_XOR, w, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
    break;
  case E_SUB:
    if (isC(b) && b->c == 0) return a;
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mk(E_ADD, w, a, mkConst(0 - b->c, w));
    break;
  case E_AND:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->c == 0) return b;
    if (isC(b) && b->c == maskw(w)) return a;
    if (a == b) return a;
    break;
  case E_MUL:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->c == 1) return a;
    if (isC(b) && b->c == 0) return b;
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if (isC(b) && b->c == 0) return a;
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (a->w == 1 && isC(b)) return b->c ? a : mkNot(a);
    if (isC(b)) {
      if (a->op == E_ZEXT || a->op == E_SEXT) {
        Expr *i = a->k[0];
        uint64_t lo = b->c & maskw(i->w);
        uint64_t back = a->op == E_ZEXT ? lo : ((uint64_t)sx64(lo, i->w) & maskw(a->w));
        if (back != b->c) return mkConst(0, 1);
        return mk(E_EQ, 1, i, mkConst(lo, i->w));
      }
      if (a->op == E_ADD && isC(a->k[1]))
        return mk(E_EQ, 1, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
      if (a->op == E_CONCAT) {
        int lw = a->k[1]->w;
        return mk(E_AND, 1, mk(E_EQ, 1, a->k[0], mkConst(b->c >> lw, a->k[0]->w)),
                  mk(E_EQ, 1, a->k[1], mkConst(b->c, lw)));
      }
      if (a->op == E_SUB && b->c == 0) return mk(E_EQ, 1, a->k[0], a->k[1]);
    }
    if ((a->op == E_ZEXT && b->op == E_ZEXT || a->op == E_SEXT && b->op == E_SEXT) &&
        a->k[0]->w == b->k[0]->w)
      return mk(E_EQ, 1, a->k[0], b->k[0]);
    if (a->id > b->id && !isC(b)) std::swap(a, b);
    break;
  case E_ULT: case E_SLT:
    if (a == b) return mkConst(0, 1);
    break;
  case E_ULE: case E_SLE:
    if (a == b) return mkConst(1, 1);
    break;
  case E_ITE:
    if (isC(a)) return a->c ? b : c;
    if (b == c) return b;
    if (w == 1 && isC(b) && isC(c)) return b->c ? a : mkNot(a);
    if (w == 1 && isC(b)) return b->c ? mk(E_OR, 1, a, c) : mk(E_AND, 1, mkNot(a), c);
    if (w == 1 && isC(c)) return c->c ? mk(E_OR, 1, mkNot(a), b) : mk(E_AND, 1, a, b);
    break;
  default: break;
  }
  int wa = a->w, wb = b ? b->w : 0;
  bool allc = isC(a) && (!b || isC(b)) && (!c || isC(c));
  if (allc)
    return mkConst(evalOp(op, w, aux, a->c, b ? b->c : 0, c ? c->c : 0, wa, wb), w);
  // support
  int sv = -1;
  bool many = false;
  Expr *ks[3] = {a, b, c};
  for (int i = 0; i < 3; i++)
    if (ks[i]) {
      if (ks[i]->sv == -2) many = true;
      else if (ks[i]->sv >= 0) {
        if (sv == -1) sv = ks[i]->sv;
        else if (sv != ks[i]->sv) many = true;
      }
    }
  Expr t;
  blank(t, op, w);
  t.aux = (uint8_t)aux;
  t.k[0] = a; t.k[1] = b; t.k[2] = c;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  if (!many) {
    uint64_t tab[256];
    for (int i = 0; i < 256; i++) {
      uint64_t va = a->vt ? a->vt[i] : a->c;
      uint64_t vb = b ? (b->vt ? b->vt[i] : b->c) : 0;
      uint64_t vc = c ? (c->vt ? c->vt[i] : c->c) : 0;
      tab[i] = evalOp(op, w, aux, va, vb, vc, wa, wb);
    }
    if (w == 1) return mkVtab(sv, 1, tab);
    bool same = true;
    for (int i = 1; i < 256 && same; i++) same = tab[i] == tab[0];
    if (same) return mkConst(tab[0], w);
    t.sv = sv;
    Expr *e = intern(t);
    e->vt = (uint64_t *)malloc(256 * 8);
    memcpy(e->vt, tab, sizeof tab);
    return e;
  }
  t.sv = -2;
  Support s;
  for (int i = 0; i < 3; i++)
    if (ks[i]) supportOf(ks[i], s);
  std::sort(s.begin(), s.end());
  s.erase(std::unique(s.begin(), s.end()), s.end());
  t.sup = &*g_sups.insert(s).first;
  return intern(t);
}

static uint64_t evalRec(Expr *e, const uint8_t *model) {
  if (e->sv == -1) return e->c;
  if (e->sv >= 0) return e->vt[model[e->sv]];
  if (e->epoch == g_epoch) return e->mval;
  uint64_t a = evalRec(e->k[0], model);
  uint64_t r;
  if (e->op == E_ITE) r = a ? evalRec(e->k[1], model) : evalRec(e->k[2], model);
  else
    r = evalOp(e->op, e->w, e->aux, a, e->k[1] ? evalRec(e->k[1], model) : 0,
               e->k[2] ? evalRec(e->k[2], model) : 0, e->k[0]->w,
               e->k[1] ? e->k[1]->w : 0);
  e->epoch = g_epoch;
  e->mval = r;
  return r;
}
uint64_t evalModel(Expr *e, const uint8_t *model) {
  if (e->sv == -1) return e->c;
  if (e->sv >= 0) return e->vt[model[e->sv]];
  g_epoch++;
  return evalRec(e, model);
}

static std::unordered_map<Expr *, Expr *> *g_sub;
static Expr *substRec(Expr *e, const std::vector<Bits256> &dom) {
  if (e->sv == -1) return e;
  if (e->sv >= 0) {
    const Bits256 &d = dom[e->sv];
    if (d.count() == 1) return mkConst(e->vt[d.first()], e->w);
    return e;
  }
  auto it = g_sub->find(e);
  if (it != g_sub->end()) return it->second;
  Expr *a = substRec(e->k[0], dom), *b = e->k[1] ? substRec(e->k[1], dom) : nullptr,
       *c = e->k[2] ? substRec(e->k[2], dom) : nullptr;
  Expr *r = (a == e->k[0] && b == e->k[1] && c == e->k[2]) ? e : mk(e->op, e->w, a, b, c, e->aux);
  (*g_sub)[e] = r;
  return r;
}
Expr *substPinned(Expr *e, const std::vector<Bits256> &dom) {
  if (e->sv != -2) {
    if (e->sv >= 0 && dom[e->sv].count() == 1)
      return mkConst(e->vt[dom[e->sv].first()], e->w);
    return e;
  }
  bool any = false;
  for (auto v : *e->sup)
    if (dom[v].count() == 1) { any = true; break; }
  if (!any) return e;
  std::unordered_map<Expr *, Expr *> m;
  g_sub = &m;
  return substRec(e, dom);
}
