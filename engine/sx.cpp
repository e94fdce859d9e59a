// sx: a whole-program symbolic executor for C compiled to LLVM IR.
//
// usage: sx --prog P.bc [--lib L.bc]... --out R.json [--variant N] [--jobs N]
//           [--time SECONDS] [--steps N] [--stats]
//
// The modules are linked, lightly normalised (mem2reg etc.), translated into a
// compact register code and executed from vx_main(variant).  Inputs are 8-bit
// symbolic variables; every branch whose condition depends on them is decided
// for all values that satisfy the path condition (Z3), and both sides are
// explored when both are feasible.  The run is exhaustive within the bounds of
// the harness or it reports itself as incomplete.
#include "expr.h"
#include <memory>
#include <llvm/IR/Constants.h>
#include <llvm/Transforms/Scalar/LoopPassManager.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <deque>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;
using std::string;
using std::vector;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
[[noreturn]] static void die(const string &m) {
  fprintf(stderr, "sx: %s\n", m.c_str());
  exit(3);
}

// ============================ values and memory ==============================
struct Val {
  uint64_t c;
  Expr *e;
};
static inline Val VC(uint64_t c) { return {c, nullptr}; }
static inline Val VE(Expr *e) {
  if (isC(e)) return {e->c, nullptr};
  return {0, e};
}
static inline Expr *toE(const Val &v, int w) { return v.e ? v.e : mkConst(v.c, w); }

static const uint32_t CHB = 10, CHSZ = 1u << CHB;
struct Chunk {
  uint32_t ref, cap;
  Expr **s;
  uint8_t d[1];
};
struct Obj {
  uint32_t ref, size, nch;
  uint8_t flags; // 1 readonly
  Chunk *ch[1];
};
static const uint32_t PGB = 8, PGSZ = 1u << PGB;
struct Page {
  uint32_t ref, live;
  Obj *o[PGSZ];
};
static Obj FREED = {1u << 30, 0, 0, 0, {nullptr}};
static Page FREEDPAGE;

static Chunk *newChunk(uint32_t cap) {
  Chunk *c = (Chunk *)malloc(sizeof(Chunk) + cap);
  c->ref = 1;
  c->cap = cap;
  c->s = nullptr;
  return c;
}
static void dropChunk(Chunk *c) {
  if (--c->ref == 0) {
    free(c->s);
    free(c);
  }
}
static Chunk *copyChunk(Chunk *c) {
  Chunk *n = newChunk(c->cap);
  memcpy(n->d, c->d, c->cap);
  if (c->s) {
    n->s = (Expr **)malloc(sizeof(Expr *) * c->cap);
    memcpy(n->s, c->s, sizeof(Expr *) * c->cap);
  }
  return n;
}
static Obj *newObj(uint32_t size, int fill) {
  uint32_t nch = (size + CHSZ - 1) >> CHB;
  Obj *o = (Obj *)malloc(sizeof(Obj) + nch * sizeof(Chunk *));
  o->ref = 1;
  o->size = size;
  o->nch = nch;
  o->flags = 0;
  for (uint32_t i = 0; i < nch; i++) {
    uint32_t cap = i + 1 < nch ? CHSZ : size - (nch - 1) * CHSZ;
    o->ch[i] = newChunk(cap);
    memset(o->ch[i]->d, fill, cap);
  }
  return o;
}
static void dropObj(Obj *o) {
  if (o == &FREED || !o) return;
  if (--o->ref == 0) {
    for (uint32_t i = 0; i < o->nch; i++) dropChunk(o->ch[i]);
    free(o);
  }
}
static Obj *copyObj(Obj *o) {
  Obj *n = (Obj *)malloc(sizeof(Obj) + o->nch * sizeof(Chunk *));
  memcpy(n, o, sizeof(Obj) + o->nch * sizeof(Chunk *));
  n->ref = 1;
  for (uint32_t i = 0; i < n->nch; i++) n->ch[i]->ref++;
  return n;
}
static void dropPage(Page *p) {
  if (p == &FREEDPAGE) return;
  if (--p->ref == 0) {
    for (uint32_t i = 0; i < PGSZ; i++)
      if (p->o[i]) dropObj(p->o[i]);
    free(p);
  }
}
struct Table {
  vector<Page *> pg;
  uint32_t n = 0;
  Table() {}
  Table(const Table &t) : pg(t.pg), n(t.n) {
    for (auto p : pg)
      if (p != &FREEDPAGE) p->ref++;
  }
  Table &operator=(const Table &) = delete;
  ~Table() {
    for (auto p : pg) dropPage(p);
  }
  Obj *get(uint32_t i) const { return i < n ? pg[i >> PGB]->o[i & (PGSZ - 1)] : nullptr; }
  Page *wpage(uint32_t i) {
    Page *&p = pg[i >> PGB];
    if (p->ref > 1) {
      Page *q = (Page *)malloc(sizeof(Page));
      memcpy(q, p, sizeof(Page));
      q->ref = 1;
      for (uint32_t k = 0; k < PGSZ; k++)
        if (q->o[k] && q->o[k] != &FREED) q->o[k]->ref++;
      p->ref--;
      p = q;
    }
    return p;
  }
  uint32_t add(Obj *o) {
    uint32_t i = n++;
    if ((i >> PGB) >= pg.size()) {
      Page *p = (Page *)calloc(1, sizeof(Page));
      p->ref = 1;
      pg.push_back(p);
    }
    Page *p = wpage(i);
    p->o[i & (PGSZ - 1)] = o;
    p->live++;
    return i;
  }
  void kill(uint32_t i) {
    Page *p = wpage(i);
    dropObj(p->o[i & (PGSZ - 1)]);
    p->o[i & (PGSZ - 1)] = &FREED;
    if (--p->live == 0 && (n & ~(PGSZ - 1)) > i) { // page completely dead
      dropPage(p);
      pg[i >> PGB] = &FREEDPAGE;
    }
  }
  void pop(uint32_t mark) { // stack discipline
    while (n > mark) {
      n--;
      Page *p = wpage(n);
      dropObj(p->o[n & (PGSZ - 1)]);
      p->o[n & (PGSZ - 1)] = nullptr;
      p->live--;
    }
  }
  Obj *wget(uint32_t i) {
    Page *p = wpage(i);
    Obj *&o = p->o[i & (PGSZ - 1)];
    if (o->ref > 1 && o != &FREED) {
      Obj *q = copyObj(o);
      o->ref--;
      o = q;
    }
    return o;
  }
};
static inline Chunk *wchunk(Obj *o, uint32_t ci) {
  Chunk *&c = o->ch[ci];
  if (c->ref > 1) {
    Chunk *n = copyChunk(c);
    c->ref--;
    c = n;
  }
  return c;
}

// address spaces: id = addr>>32
static const uint32_t HEAPB = 0x00000010, GLOBB = 0x20000000, STKB = 0x40000000, FNB = 0x60000000;

// ============================ translated code =================================
enum IOp : uint8_t {
  I_BIN, I_ICMP, I_FBIN, I_FCMP, I_CAST, I_MOV, I_SEL, I_LOAD, I_STORE, I_GEPC,
  I_GEPI, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_UNREACH, I_MOVES,
  I_FCAST, I_FNEG
};
struct Move { int32_t dst, src; };
struct SwitchInfo { vector<uint64_t> v; vector<uint32_t> t; uint32_t def; };
struct Fn;
struct CallInfo {
  Fn *fn = nullptr;
  int32_t callee = 0;
  vector<int32_t> args;
  vector<uint32_t> byval; // size or 0
  vector<uint8_t> argw;
  int nres = 0;
};
struct Inst {
  IOp op;
  uint8_t w, w2, sub;
  int32_t dst, a, b, c;
  uint32_t line;
  uint32_t t1, t2;
  uint64_t imm;
  void *x;
};
struct State;
typedef bool (*Builtin)(State &s, const Inst &I, const CallInfo &ci);
struct Fn {
  string name;
  Function *F = nullptr;
  vector<Inst> code;
  vector<Val> consts;
  uint32_t nregs = 0;
  uint32_t nargs = 0;
  bool vararg = false, defined = false, translated = false;
  Builtin bi = nullptr;
  uint32_t idx = 0;
};
static vector<Fn *> g_fns;
static std::map<const Function *, Fn *> g_fnOf;
static std::map<string, Fn *> g_fnByName;
static std::map<const GlobalVariable *, uint64_t> g_gaddr;
static const DataLayout *DL;
static vector<uint32_t> g_progGlobals; // indices of globals of the program under test
static vector<Obj *> g_initial;       // pristine copies

struct Frame {
  Fn *fn;
  uint32_t pc, base;
  int32_t ret;
  uint32_t smark;
  uint64_t va;
  uint8_t kind; // 1: exit() is caught here
};
struct SymName { string name; uint32_t idx; };
struct State {
  vector<Frame> fr;
  vector<Val> regs;
  Table heap, glob, stk;
  vector<Bits256> dom;
  vector<uint8_t> model;
  vector<string> names;
  vector<Expr *> multi;
  vector<uint8_t> inMulti;
  uint64_t steps = 0, symDepth = 0;
  uint64_t slimit = 0; // step at which the current budget is exhausted
  vector<std::pair<uint8_t, Expr *>> digest; // observed output bytes
  bool failed = false;
};

// ============================ statistics ======================================
struct Stats {
  uint64_t paths = 0, forks = 0, steps = 0, queries = 0, cached = 0, sat = 0, unsat = 0,
           unknown = 0, asserts = 0, assertQ = 0, domDecided = 0, killedAssume = 0, incomplete = 0;
  double solver = 0, maxq = 0;
};
static Stats st;
static std::map<string, uint64_t> g_covers, g_assertNames;
static std::map<string, uint64_t> g_forkAt;
static vector<string> g_incomplete;
struct Violation {
  string kind, msg, where;
  vector<std::pair<string, string>> inputs; // name -> hex
};
static vector<Violation> g_viol;
struct Sample { vector<std::pair<string, string>> inputs; string flat; uint64_t digest; uint64_t n; };
static vector<Sample> g_samples;
static std::map<string, uint64_t> g_findings;
static std::map<string, string> g_findingEx;
static uint64_t g_stepLimit = 400000000ull, g_maxViol = 5;
static double g_deadline = 0;
static bool g_stats = false;
static std::deque<State *> g_work;

// ============================ solver ==========================================
static Z3_context Z;
static Z3_solver ZS;
static vector<Z3_ast> g_zsym;
static Z3_sort bvSort(int w) { return Z3_mk_bv_sort(Z, w); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast zconst(uint64_t v, int w) { return Z3_mk_unsigned_int64(Z, v, bvSort(w)); }
static Z3_ast zsym(int i) {
  while ((int)g_zsym.size() <= i) g_zsym.push_back(nullptr);
  if (!g_zsym[i]) {
    string n = "b" + std::to_string(i);
    g_zsym[i] = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), bvSort(8)));
  }
  return g_zsym[i];
}
static Z3_ast zset(int var, const Bits256 &b) { // membership as a disjunction of ranges
  vector<Z3_ast> ors;
  Z3_ast x = zsym(var);
  int i = 0;
  while (i < 256) {
    if (!b.get(i)) { i++; continue; }
    int j = i;
    while (j + 1 < 256 && b.get(j + 1)) j++;
    if (i == j) ors.push_back(Z3_mk_eq(Z, x, zconst(i, 8)));
    else {
      Z3_ast t[2] = {Z3_mk_bvuge(Z, x, zconst(i, 8)), Z3_mk_bvule(Z, x, zconst(j, 8))};
      ors.push_back(Z3_mk_and(Z, 2, t));
    }
    i = j + 1;
  }
  if (ors.empty()) return Z3_mk_false(Z);
  return Z3_mk_or(Z, ors.size(), ors.data());
}
static Z3_ast zv(Expr *e);
static Z3_ast zb(Expr *e) {
  if (e->z3b) return e->z3b;
  Z3_ast r;
  switch (e->op) {
  case E_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
  case E_BTAB: r = zset(e->sv, *e->bt); break;
  case E_AND: { Z3_ast t[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_and(Z, 2, t); break; }
  case E_OR: { Z3_ast t[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_or(Z, 2, t); break; }
  case E_XOR: r = Z3_mk_xor(Z, zb(e->k[0]), zb(e->k[1])); break;
  case E_EQ:
    if (e->k[0]->w == 1) r = Z3_mk_iff(Z, zb(e->k[0]), zb(e->k[1]));
    else r = Z3_mk_eq(Z, zv(e->k[0]), zv(e->k[1]));
    break;
  case E_ULT: r = Z3_mk_bvult(Z, zv(e->k[0]), zv(e->k[1])); break;
  case E_ULE: r = Z3_mk_bvule(Z, zv(e->k[0]), zv(e->k[1])); break;
  case E_SLT: r = Z3_mk_bvslt(Z, zv(e->k[0]), zv(e->k[1])); break;
  case E_SLE: r = Z3_mk_bvsle(Z, zv(e->k[0]), zv(e->k[1])); break;
  case E_ITE: r = Z3_mk_ite(Z, zb(e->k[0]), zb(e->k[1]), zb(e->k[2])); break;
  default: r = Z3_mk_eq(Z, zv(e), zconst(1, 1)); break;
  }
  return e->z3b = keep(r);
}
static Z3_ast zv(Expr *e) {
  if (e->z3v) return e->z3v;
  Z3_ast r = nullptr;
  if (e->w == 1 && (e->op == E_BTAB || (e->op >= E_AND && e->op <= E_XOR) ||
                    (e->op >= E_EQ && e->op <= E_ITE)))
    r = Z3_mk_ite(Z, zb(e), zconst(1, 1), zconst(0, 1));
  else
    switch (e->op) {
    case E_CONST: r = zconst(e->c, e->w); break;
    case E_SYM: r = zsym(e->sv); break;
    case E_VTAB: {
      std::map<uint64_t, Bits256> by;
      for (int i = 0; i < 256; i++) {
        auto it = by.find(e->vt[i]);
        if (it == by.end()) it = by.emplace(e->vt[i], BITS_NONE).first;
        it->second.set(i);
      }
      uint64_t def = 0; int best = -1;
      for (auto &p : by) if (p.second.count() > best) { best = p.second.count(); def = p.first; }
      r = zconst(def, e->w);
      for (auto &p : by)
        if (p.first != def) r = Z3_mk_ite(Z, zset(e->sv, p.second), zconst(p.first, e->w), r);
      break;
    }
    case E_ADD: r = Z3_mk_bvadd(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_SUB: r = Z3_mk_bvsub(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_MUL: r = Z3_mk_bvmul(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_UDIV: r = Z3_mk_bvudiv(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_SDIV: r = Z3_mk_bvsdiv(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_UREM: r = Z3_mk_bvurem(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_SREM: r = Z3_mk_bvsrem(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_AND: r = Z3_mk_bvand(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_OR: r = Z3_mk_bvor(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_XOR: r = Z3_mk_bvxor(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_SHL: r = Z3_mk_bvshl(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_LSHR: r = Z3_mk_bvlshr(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_ASHR: r = Z3_mk_bvashr(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, zv(e->k[0])); break;
    case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, zv(e->k[0])); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, e->aux + e->w - 1, e->aux, zv(e->k[0])); break;
    case E_CONCAT: r = Z3_mk_concat(Z, zv(e->k[0]), zv(e->k[1])); break;
    case E_ITE: r = Z3_mk_ite(Z, zb(e->k[0]), zv(e->k[1]), zv(e->k[2])); break;
    default: die("zv: bad op");
    }
  return e->z3v = keep(r);
}
static void z3err(Z3_context c, Z3_error_code e) { die(string("z3: ") + Z3_get_error_msg(c, e)); }
static void initSolver() {
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, z3err);
  ZS = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, ZS);
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 60000);
  Z3_solver_set_params(Z, ZS, p);
}
struct QRes { int sat; vector<std::pair<uint16_t, uint8_t>> m; };
static std::unordered_map<string, QRes> g_qcache;

// 1 sat (model gets the assignment), 0 unsat, -1 unknown
static int z3query(const vector<Expr *> &cons, const Support &vars, vector<uint8_t> &model, bool useCache = true) {
  vector<uint32_t> ids;
  for (auto e : cons) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end());
  string key((char *)ids.data(), ids.size() * 4);
  if (useCache) {
    auto it = g_qcache.find(key);
    if (it != g_qcache.end()) {
      st.cached++;
      for (auto &p : it->second.m) model[p.first] = p.second;
      return it->second.sat;
    }
  }
  double t0 = now();
  Z3_solver_push(Z, ZS);
  for (auto e : cons) Z3_solver_assert(Z, ZS, zb(e));
  Z3_lbool r = Z3_solver_check(Z, ZS);
  st.queries++;
  QRes q;
  q.sat = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(Z, ZS);
    Z3_model_inc_ref(Z, m);
    for (auto v : vars) {
      Z3_ast out;
      uint64_t val = 0;
      if (Z3_model_eval(Z, m, zsym(v), true, &out)) {
        Z3_inc_ref(Z, out);
        Z3_get_numeral_uint64(Z, out, &val);
        Z3_dec_ref(Z, out);
      }
      q.m.push_back({v, (uint8_t)val});
    }
    Z3_model_dec_ref(Z, m);
  }
  Z3_solver_pop(Z, ZS, 1);
  double dt = now() - t0;
  st.solver += dt;
  if (dt > st.maxq) st.maxq = dt;
  if (q.sat == 1) st.sat++;
  else if (q.sat == 0) st.unsat++;
  else st.unknown++;
  for (auto &p : q.m) model[p.first] = p.second;
  if (q.sat >= 0) g_qcache[key] = q;
  return q.sat;
}
static int solveWith(State &s, Expr *cond, vector<uint8_t> &model, bool full = false) {
  // slice: constraints connected with cond
  Support vars;
  supportOf(cond, vars);
  std::set<uint16_t> vs(vars.begin(), vars.end());
  vector<Expr *> cons{cond};
  vector<char> used(s.multi.size(), 0);
  if (full)
    for (size_t v = 0; v < s.dom.size(); v++) vs.insert(v);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.multi.size(); i++)
      if (!used[i]) {
        Expr *m = s.multi[i];
        bool hit = false;
        for (auto v : *m->sup)
          if (vs.count(v) && (full || s.dom[v].count() > 1)) { hit = true; break; }
        if (hit) {
          used[i] = 1;
          ch = true;
          cons.push_back(m);
          for (auto v : *m->sup) vs.insert(v);
        }
      }
  }
  for (auto v : vs)
    if (!(s.dom[v] == BITS_ALL)) cons.push_back(mkBtab(v, s.dom[v]));
  return z3query(cons, Support(vs.begin(), vs.end()), model);
}

// Decisions over one byte variable are read off its value table; every distinct
// one (condition, domain) is put to the solver as well, which works on the
// operators, not on the table.
static std::unordered_set<uint64_t> g_certified;
static void certify(Expr *cond, int v, const Bits256 &dm, bool t, bool f, vector<uint8_t> &scratch) {
  uint64_t h = cond->id * 0x9E3779B97F4A7C15ull;
  for (int i = 0; i < 4; i++) h = (h ^ dm.w[i]) * 0xD6E8FEB86659FD93ull, h ^= h >> 29;
  if (!g_certified.insert(h).second) return;
  Expr *d = mkBtab(v, dm);
  vector<uint8_t> m = scratch;
  Support vars{(uint16_t)v};
  int rt = z3query({d, cond}, vars, m), rf = z3query({d, mkNot(cond)}, vars, m);
  if ((rt >= 0 && rt != (int)t) || (rf >= 0 && rf != (int)f)) die("the solver contradicts a value table");
}
struct Decision {
  bool t, f, unk;
  vector<uint8_t> mt, mf;
};
static void decide(State &s, Expr *cond, Decision &d) {
  d.unk = false;
  if (cond->sv == -2) cond = substPinned(cond, s.dom);
  if (isC(cond)) { d.t = cond->c; d.f = !cond->c; return; }
  if (cond->sv >= 0) {
    int v = cond->sv;
    const Bits256 &dm = s.dom[v];
    Bits256 dt = band(dm, *cond->bt), df = band(dm, bnot(*cond->bt));
    if (dm.count() > 1) certify(cond, v, dm, !dt.empty(), !df.empty(), s.model);
    if (dt.empty() || df.empty()) { d.t = df.empty(); d.f = dt.empty(); st.domDecided++; return; }
    if (!s.inMulti[v]) {
      bool cur = cond->bt->get(s.model[v]);
      d.t = d.f = true;
      d.mt = d.mf = s.model;
      if (cur) d.mf[v] = (uint8_t)df.first(); else d.mt[v] = (uint8_t)dt.first();
      st.domDecided++;
      return;
    }
  }
  bool cur = evalModel(cond, s.model.data());
  vector<uint8_t> m = s.model;
  int r = solveWith(s, cur ? mkNot(cond) : cond, m);
  if (r < 0) d.unk = true;
  if (cur) { d.t = true; d.mt = s.model; d.f = r > 0; if (r > 0) d.mf = m; }
  else { d.f = true; d.mf = s.model; d.t = r > 0; if (r > 0) d.mt = m; }
}
static void addCons(State &s, Expr *c) {
  if (c->sv == -2) c = substPinned(c, s.dom);
  if (isC(c)) return;
  if (c->sv >= 0) {
    s.dom[c->sv] = band(s.dom[c->sv], *c->bt);
    return;
  }
  if (c->op == E_AND) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
  s.multi.push_back(c);
  for (auto v : *c->sup) s.inMulti[v] = 1;
}

// ============================ reporting =======================================
static string where(State &s, int maxf = 14) {
  string r;
  int n = 0;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < maxf; i--, n++) {
    Frame &f = s.fr[i];
    uint32_t line = f.pc < f.fn->code.size() ? f.fn->code[f.pc].line : 0;
    if (i != (int)s.fr.size() - 1 && f.pc > 0) line = f.fn->code[f.pc - 1].line;
    r += (n ? " < " : "") + f.fn->name + ":" + std::to_string(line);
  }
  return r;
}
static bool modelOK(State &s, const vector<uint8_t> &m) {
  for (size_t i = 0; i < s.dom.size(); i++)
    if (!s.dom[i].get(m[i])) return false;
  for (auto e : s.multi)
    if (!evalModel(e, m.data())) return false;
  return true;
}
static vector<std::pair<string, string>> inputsOf(State &s, const vector<uint8_t> &model) {
  vector<std::pair<string, string>> r;
  string cur, hex;
  for (size_t i = 0; i < s.names.size(); i++) {
    if (i == 0 || s.names[i] != cur) {
      if (i) r.push_back({cur, hex});
      cur = s.names[i];
      hex.clear();
    }
    char b[4];
    snprintf(b, sizeof b, "%02x", model[i]);
    hex += b;
  }
  if (s.names.size()) r.push_back({cur, hex});
  return r;
}
static void report(State &s, const string &kind, const string &msg, const vector<uint8_t> &model) {
  Violation v;
  v.kind = kind;
  v.msg = msg;
  v.where = where(s);
  v.inputs = inputsOf(s, model);
  s.failed = true;
  g_viol.push_back(v);
  if (g_stats) {
    fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
    for (auto &p : v.inputs) {
      fprintf(stderr, "   %s = ", p.first.c_str());
      for (size_t i = 0; i + 1 < p.second.size(); i += 2) {
        int c = strtol(p.second.substr(i, 2).c_str(), 0, 16);
        if (c >= 32 && c < 127) fputc(c, stderr); else fprintf(stderr, "\\x%02x", c);
      }
      fputc('\n', stderr);
    }
  }
}
static void incomplete(State &s, const string &m) {
  st.incomplete++;
  s.failed = true;
  if (g_incomplete.size() < 10) g_incomplete.push_back(m + " at " + where(s));
  if (g_stats) fprintf(stderr, "INCOMPLETE %s at %s\n", m.c_str(), where(s).c_str());
}

// ============================ memory access ====================================
struct PathEnd {};
struct Restart {};
static Obj *findObj(State &s, uint64_t addr, Table *&t, uint32_t &i) {
  uint32_t id = addr >> 32;
  if (id >= FNB) return nullptr;
  if (id >= STKB) { t = &s.stk; i = id - STKB; }
  else if (id >= GLOBB) { t = &s.glob; i = id - GLOBB; }
  else if (id >= HEAPB) { t = &s.heap; i = id - HEAPB; }
  else return nullptr;
  return t->get(i);
}
static string memWhy(State &s, uint64_t addr, uint32_t n) {
  Table *t;
  uint32_t i;
  Obj *o = findObj(s, addr, t, i);
  char b[160];
  if ((addr >> 32) < HEAPB) snprintf(b, sizeof b, "null or wild pointer 0x%llx", (unsigned long long)addr);
  else if (o == &FREED) snprintf(b, sizeof b, "use after free");
  else if (!o) snprintf(b, sizeof b, "dangling or wild pointer 0x%llx", (unsigned long long)addr);
  else snprintf(b, sizeof b, "out of bounds: offset %d, %u bytes, object of %u bytes", (int)(uint32_t)addr, n, o->size);
  return b;
}
[[noreturn]] static void memErr(State &s, uint64_t addr, uint32_t n, const char *what) {
  report(s, "memory", string(what) + ": " + memWhy(s, addr, n), s.model);
  throw PathEnd();
}
static inline bool validAddr(State &s, uint64_t addr, uint32_t n) {
  Table *t;
  uint32_t i;
  Obj *o = findObj(s, addr, t, i);
  if (!o) return false;
  uint64_t off = (uint32_t)addr;
  return off + n <= o->size;
}
static inline Expr *pin(State &s, Expr *e) { // replace a pinned single-variable expression by its value
  if (e->sv >= 0) {
    const Bits256 &d = s.dom[e->sv];
    if (d.count() == 1) return mkConst(e->vt[d.first()], e->w);
  }
  return e;
}
static Val loadConc(State &s, uint64_t addr, uint32_t n) {
  Table *t;
  uint32_t i;
  Obj *o = findObj(s, addr, t, i);
  uint32_t off = (uint32_t)addr;
  if (!o || (uint64_t)off + n > o->size) memErr(s, addr, n, "read");
  uint32_t ci = off >> CHB, co = off & (CHSZ - 1);
  Chunk *c = o->ch[ci];
  if (co + n <= c->cap) {
    bool sym = false;
    if (c->s)
      for (uint32_t k = 0; k < n; k++)
        if (c->s[co + k]) { sym = true; break; }
    if (!sym) {
      uint64_t v = 0;
      memcpy(&v, c->d + co, n);
      return VC(v);
    }
  }
  Expr *r = nullptr;
  for (uint32_t k = 0; k < n; k++) {
    uint32_t f = off + k;
    Chunk *cc = o->ch[f >> CHB];
    Expr *b = cc->s && cc->s[f & (CHSZ - 1)] ? pin(s, cc->s[f & (CHSZ - 1)])
                                             : mkConst(cc->d[f & (CHSZ - 1)], 8);
    r = r ? mk(E_CONCAT, 8 * (k + 1), b, r) : b;
  }
  return VE(r);
}
static void putByte(Obj *o, uint32_t f, Expr *e, uint8_t v) {
  Chunk *c = wchunk(o, f >> CHB);
  uint32_t p = f & (CHSZ - 1);
  if (e && !isC(e)) {
    if (!c->s) c->s = (Expr **)calloc(c->cap, sizeof(Expr *));
    c->s[p] = e;
  } else {
    c->d[p] = e ? (uint8_t)e->c : v;
    if (c->s) c->s[p] = nullptr;
  }
}
static Obj *writable(State &s, uint64_t addr, uint32_t n) {
  Table *t;
  uint32_t i;
  Obj *o = findObj(s, addr, t, i);
  uint32_t off = (uint32_t)addr;
  if (!o || (uint64_t)off + n > o->size) memErr(s, addr, n, "write");
  if (o->flags & 1) {
    report(s, "memory", "write to a read-only object", s.model);
    throw PathEnd();
  }
  return t->wget(i);
}
static void storeConc(State &s, uint64_t addr, uint32_t n, Val v) {
  Obj *o = writable(s, addr, n);
  uint32_t off = (uint32_t)addr;
  uint32_t ci = off >> CHB, co = off & (CHSZ - 1);
  if (!v.e && co + n <= o->ch[ci]->cap) {
    Chunk *c = wchunk(o, ci);
    memcpy(c->d + co, &v.c, n);
    if (c->s)
      for (uint32_t k = 0; k < n; k++) c->s[co + k] = nullptr;
    return;
  }
  for (uint32_t k = 0; k < n; k++)
    putByte(o, off + k, v.e ? mk(E_EXTRACT, 8, v.e, nullptr, nullptr, 8 * k) : nullptr,
            (uint8_t)(v.c >> (8 * k)));
}
struct MB { uint8_t v; Expr *e; };
static MB getB(State &s, uint64_t addr) {
  Table *t;
  uint32_t i;
  Obj *o = findObj(s, addr, t, i);
  uint32_t off = (uint32_t)addr;
  if (!o || off >= o->size) memErr(s, addr, 1, "read");
  Chunk *c = o->ch[off >> CHB];
  uint32_t p = off & (CHSZ - 1);
  if (c->s && c->s[p]) {
    Expr *e = pin(s, c->s[p]);
    if (isC(e)) return {(uint8_t)e->c, nullptr};
    return {0, e};
  }
  return {c->d[p], nullptr};
}
static void copyMem(State &s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  if (!validAddr(s, src, n > 0xffffffff ? 0xffffffff : n)) memErr(s, src, n, "read (block copy)");
  if (!validAddr(s, dst, n > 0xffffffff ? 0xffffffff : n)) memErr(s, dst, n, "write (block copy)");
  vector<uint8_t> b(n);
  vector<Expr *> x;
  Table *t;
  uint32_t i;
  Obj *o = findObj(s, src, t, i);
  uint32_t off = (uint32_t)src;
  for (uint64_t k = 0; k < n;) {
    Chunk *c = o->ch[(off + k) >> CHB];
    uint32_t p = (off + k) & (CHSZ - 1);
    uint32_t m = std::min<uint64_t>(n - k, c->cap - p);
    memcpy(&b[k], c->d + p, m);
    if (c->s)
      for (uint32_t j = 0; j < m; j++)
        if (c->s[p + j]) {
          if (x.empty()) x.resize(n, nullptr);
          x[k + j] = c->s[p + j];
        }
    k += m;
  }
  o = writable(s, dst, n);
  off = (uint32_t)dst;
  for (uint64_t k = 0; k < n;) {
    Chunk *c = wchunk(o, (off + k) >> CHB);
    uint32_t p = (off + k) & (CHSZ - 1);
    uint32_t m = std::min<uint64_t>(n - k, c->cap - p);
    memcpy(c->d + p, &b[k], m);
    if (c->s)
      for (uint32_t j = 0; j < m; j++) c->s[p + j] = x.empty() ? nullptr : x[k + j];
    else if (!x.empty())
      for (uint32_t j = 0; j < m; j++)
        if (x[k + j]) {
          if (!c->s) c->s = (Expr **)calloc(c->cap, sizeof(Expr *));
          c->s[p + j] = x[k + j];
        }
    k += m;
  }
}

// ============================ forking ==========================================
static void pushState(State *n) { g_work.push_back(n); }
// make `cond` hold in s; if its negation is feasible as well, queue a copy in which
// the current instruction is executed again under the negation
static bool choose(State &s, Expr *cond) {
  Decision d;
  decide(s, cond, d);
  if (d.unk) { incomplete(s, "solver gave no answer"); throw PathEnd(); }
  if (d.t && d.f) {
    st.forks++;
    if (g_stats) g_forkAt[where(s, 3)]++;
    State *n = new State(s);
    n->model = d.mf;
    addCons(*n, mkNot(cond));
    pushState(n);
    s.model = d.mt;
    addCons(s, cond);
    return true;
  }
  // implied by constraints over several variables: narrow the domain, so that it is decided once
  Expr *c1 = cond->sv == -2 ? substPinned(cond, s.dom) : cond;
  if (c1->sv >= 0) addCons(s, d.t ? c1 : mkNot(c1));
  return d.t;
}
static uint64_t concretize(State &s, Val v, int w) {
  if (!v.e) return v.c;
  Expr *e = v.e->sv == -2 ? substPinned(v.e, s.dom) : pin(s, v.e);
  if (isC(e)) return e->c;
  if (e->sv == -2) { // split on the variables, so that every decision stays a small query
    for (auto v : *e->sup)
      if (s.dom[v].count() > 1 && !choose(s, mk(E_EQ, 1, mkSym(v), mkConst(s.model[v], 8)))) die("concretize: model does not satisfy its own value");
    return evalModel(e, s.model.data());
  }
  uint64_t x = evalModel(e, s.model.data());
  if (!choose(s, mk(E_EQ, 1, e, mkConst(x, w)))) die("concretize: model does not satisfy its own value");
  return x;
}
static uint64_t g_addrForks = 0;

static Val loadMem(State &s, Val addr, uint32_t n) {
  if (!addr.e) return loadConc(s, addr.c, n);
  Expr *e = addr.e->sv == -2 ? substPinned(addr.e, s.dom) : pin(s, addr.e);
  if (isC(e)) return loadConc(s, e->c, n);
  if (e->sv < 0) { g_addrForks++; return loadConc(s, concretize(s, VE(e), 64), n); }
  const Bits256 dm = s.dom[e->sv];
  Bits256 bad = BITS_NONE;
  for (int v = 0; v < 256; v++)
    if (dm.get(v) && !validAddr(s, e->vt[v], n)) bad.set(v);
  if (!bad.empty()) {
    // some address is invalid: split it off so that it is reported with its own input
    if (choose(s, mkBtab(e->sv, bad))) {
      uint64_t a = evalModel(e, s.model.data());
      memErr(s, a, n, "read");
    }
    return loadMem(s, VE(pin(s, e)), n);
  }
  uint64_t tab[256] = {0};
  bool allc = true;
  std::map<uint64_t, Val> seen;
  for (int v = 0; v < 256; v++)
    if (dm.get(v)) {
      uint64_t a = e->vt[v];
      auto it = seen.find(a);
      if (it == seen.end()) it = seen.emplace(a, loadConc(s, a, n)).first;
      if (it->second.e) allc = false;
      else tab[v] = it->second.c;
    }
  uint64_t first = tab[dm.first()];
  if (allc) {
    for (int v = 0; v < 256; v++)
      if (!dm.get(v)) tab[v] = first;
    return VE(mkVtab(e->sv, 8 * n, tab));
  }
  if (seen.size() > 64) { g_addrForks++; return loadConc(s, concretize(s, VE(e), 64), n); }
  Expr *r = nullptr;
  for (auto &p : seen) {
    Expr *v = toE(p.second, 8 * n);
    r = r ? mk(E_ITE, 8 * n, mk(E_EQ, 1, e, mkConst(p.first, 64)), v, r) : v;
  }
  return VE(r);
}
static void storeMem(State &s, Val addr, uint32_t n, Val v) {
  uint64_t a = addr.e ? (g_addrForks++, concretize(s, addr, 64)) : addr.c;
  storeConc(s, a, n, v);
}
static uint64_t hallocate(State &s, uint64_t size, int fill) {
  if (size > 0x40000000ull) { incomplete(s, "allocation too large"); throw PathEnd(); }
  return (uint64_t)(HEAPB + s.heap.add(newObj((uint32_t)size, fill))) << 32;
}

#include "translate.inc"
#include "interp.inc"
