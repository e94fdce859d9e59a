// Hash-consed bit-vector expression DAG (widths 1..64) over 8-bit symbolic
// variables, with a Z3 back end.  Expressions that depend on one variable only
// carry a 256-entry value table, used as a simplifier.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

enum Op : uint8_t {
  E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND,
  E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_BTAB, E_VTAB
};

struct Bits256 {
  uint64_t w[4];
  bool get(int i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void set(int i) { w[i >> 6] |= 1ull << (i & 63); }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  int count() const {
    return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) +
           __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]);
  }
  int first() const {
    for (int i = 0; i < 4; i++)
      if (w[i]) return i * 64 + __builtin_ctzll(w[i]);
    return -1;
  }
  bool operator==(const Bits256 &o) const { return !memcmp(w, o.w, 32); }
};
static inline Bits256 band(const Bits256 &a, const Bits256 &b) {
  return {{a.w[0] & b.w[0], a.w[1] & b.w[1], a.w[2] & b.w[2], a.w[3] & b.w[3]}};
}
static inline Bits256 bnot(const Bits256 &a) {
  return {{~a.w[0], ~a.w[1], ~a.w[2], ~a.w[3]}};
}
static const Bits256 BITS_ALL = {{~0ull, ~0ull, ~0ull, ~0ull}};
static const Bits256 BITS_NONE = {{0, 0, 0, 0}};

typedef std::vector<uint16_t> Support; // sorted

struct Expr {
  Op op;
  uint8_t w;
  uint8_t aux; // EXTRACT: low bit
  int32_t sv;  // -1: constant, >=0: the only variable, -2: several
  uint32_t id;
  Expr *k[3];
  uint64_t c;        // CONST value, SYM index
  uint64_t *vt;      // value table if sv>=0
  Bits256 *bt;       // truth table if sv>=0 && w==1
  const Support *sup; // if sv==-2
  Z3_ast z3b, z3v;   // boolean / bit-vector translation
  uint32_t epoch;
  uint64_t mval;
};

static inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, int w) {
  return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w);
}

// ---- evaluation of one operator -------------------------------------------
static inline uint64_t evalOp(Op op, int w, int aux, uint64_t a, uint64_t b,
                              uint64_t c, int wa, int wb) {
  uint64_t m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? (a / b) & m : m;
  case E_UREM: return b ? (a % b) & m : a;
  case E_SDIV: {
    int64_t x = sx64(a, w), y = sx64(b, w);
    if (!y) return x < 0 ? 1 : m;
    if (y == -1) return (0 - (uint64_t)x) & m;
    return (uint64_t)(x / y) & m;
  }
  case E_SREM: {
    int64_t x = sx64(a, w), y = sx64(b, w);
    if (!y) return a;
    if (y == -1) return 0;
    return (uint64_t)(x % y) & m;
  }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= (uint64_t)w ? 0 : (a << b) & m;
  case E_LSHR: return b >= (uint64_t)w ? 0 : a >> b;
  case E_ASHR: {
    int64_t x = sx64(a, w);
    return (uint64_t)(x >> (b >= (uint64_t)w ? w - 1 : b)) & m;
  }
  case E_ZEXT: return a;
  case E_SEXT: return (uint64_t)sx64(a, wa) & m;
  case E_EXTRACT: return (a >> aux) & m;
  case E_CONCAT: return (a << wb) | b;
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sx64(a, wa) < sx64(b, wa);
  case E_SLE: return sx64(a, wa) <= sx64(b, wa);
  case E_ITE: return a ? b : c;
  default: abort();
  }
}

// ---- construction -----------------------------------------------------------
extern uint64_t g_nExpr;
Expr *mkConst(uint64_t v, int w);
Expr *mkSym(int idx);
Expr *mk(Op op, int w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, int aux = 0);
Expr *mkBtab(int var, const Bits256 &b);
Expr *mkVtab(int var, int w, const uint64_t *tab);
static inline Expr *mkNot(Expr *e) { return mk(E_XOR, 1, e, mkConst(1, 1)); }
static inline bool isC(Expr *e) { return e->op == E_CONST; }
void supportOf(Expr *e, Support &out);
uint64_t evalModel(Expr *e, const uint8_t *model);
Expr *substPinned(Expr *e, const std::vector<Bits256> &dom);
