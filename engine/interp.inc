// ============================ interpreter =======================================
static inline Val getop(const Val *R, const Val *K, int32_t x) { return x >= 0 ? R[x] : K[~x]; }

// ---- builtins ---------------------------------------------------------------
struct BI {
  State &s;
  const Inst &I;
  const CallInfo &ci;
  Val arg(int k) {
    Frame &f = s.fr.back();
    Val v = getop(&s.regs[f.base], f.fn->consts.data(), ci.args[k]);
    if (v.e) v = VE(pin(s, v.e));
    return v;
  }
  uint64_t carg(int k) { return concretize(s, arg(k), ci.argw[k]); }
  void ret(Val v) {
    if (I.dst >= 0) {
      if (v.e) v = VE(v.e);
      s.regs[s.fr.back().base + I.dst] = v;
    }
  }
};
static string cstr(State &s, uint64_t a) {
  string r;
  for (;; a++) {
    MB b = getB(s, a);
    if (b.e) { r += '?'; continue; }
    if (!b.v) return r;
    r += (char)b.v;
    if (r.size() > 100000) return r;
  }
}
static Bits256 domOf(State &s, MB b) { // possible values of a byte
  Bits256 r = BITS_NONE;
  if (!b.e) { r.set(b.v); return r; }
  if (b.e->sv >= 0) {
    const Bits256 &d = s.dom[b.e->sv];
    for (int i = 0; i < 256; i++)
      if (d.get(i)) r.set((int)b.e->vt[i]);
    return r;
  }
  return BITS_ALL;
}
static void bheapfree(State &s, uint64_t p) {
  uint32_t id = p >> 32;
  Obj *o = id >= HEAPB && id < GLOBB ? s.heap.get(id - HEAPB) : nullptr;
  if (!o || o == &FREED || (uint32_t)p) {
    report(s, "memory", o == &FREED ? "double free" : "free of an invalid pointer", s.model);
    throw PathEnd();
  }
  s.heap.kill(id - HEAPB);
}
static bool b_malloc(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t n = b.carg(0);
  b.ret(VC(hallocate(s, n, 0xA5)));
  return true;
}
static bool b_calloc(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t n = b.carg(0), m = b.carg(1);
  b.ret(VC(hallocate(s, n * m, 0)));
  return true;
}
static bool b_free(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t p = b.carg(0);
  if (p) bheapfree(s, p);
  return true;
}
static bool b_realloc(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t p = b.carg(0), n = b.carg(1);
  uint64_t q = hallocate(s, n, 0xA5);
  if (p) {
    uint32_t id = p >> 32;
    Obj *o = id >= HEAPB && id < GLOBB ? s.heap.get(id - HEAPB) : nullptr;
    if (!o || o == &FREED || (uint32_t)p) memErr(s, p, 1, "realloc");
    copyMem(s, q, p, std::min<uint64_t>(n, o->size));
    s.heap.kill(id - HEAPB);
  }
  b.ret(VC(q));
  return true;
}
static bool b_memcpy(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t d = b.carg(0), sr = b.carg(1), n = b.carg(2);
  copyMem(s, d, sr, n);
  b.ret(VC(d));
  return true;
}
static bool b_memset(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t d = b.carg(0), n = b.carg(2);
  Val v = b.arg(1);
  if (n) {
    if (!validAddr(s, d, n > 0xffffffff ? 0xffffffff : n)) memErr(s, d, n, "write (memset)");
    Obj *o = writable(s, d, n);
    Expr *e = v.e ? mk(E_EXTRACT, 8, v.e, nullptr, nullptr, 0) : nullptr;
    for (uint64_t k = 0; k < n; k++) putByte(o, (uint32_t)d + k, e, (uint8_t)v.c);
  }
  b.ret(VC(d));
  return true;
}
static bool b_strlen(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t p = b.carg(0), q = p;
  for (;; q++) {
    MB x = getB(s, q);
    if (!x.e) { if (!x.v) break; continue; }
    Bits256 d = domOf(s, x);
    if (d.get(0)) return false; // undecided: run the C version
  }
  b.ret(VC(q - p));
  return true;
}
static bool cmpCore(State &s, const Inst &I, const CallInfo &ci, uint64_t lim, bool str) {
  BI b{s, I, ci};
  uint64_t p = b.carg(0), q = b.carg(1);
  for (uint64_t k = 0; k < lim; k++, p++, q++) {
    MB x = getB(s, p), y = getB(s, q);
    if (!x.e && !y.e) {
      if (x.v != y.v) { b.ret(VC((uint32_t)((int)x.v - (int)y.v))); return true; }
      if (str && !x.v) break;
      continue;
    }
    Bits256 dx = domOf(s, x), dy = domOf(s, y);
    if (x.e == y.e) {
      if (str && dx.get(0)) return false;
      continue;
    }
    if (!band(dx, dy).empty()) return false;
    // certainly different here: the result is the difference of the two bytes
    Expr *d = mk(E_SUB, 32, mk(E_ZEXT, 32, x.e ? x.e : mkConst(x.v, 8)),
                 mk(E_ZEXT, 32, y.e ? y.e : mkConst(y.v, 8)));
    b.ret(VE(d));
    return true;
  }
  b.ret(VC(0));
  return true;
}
static bool b_strcmp(State &s, const Inst &I, const CallInfo &ci) { return cmpCore(s, I, ci, ~0ull, true); }
static bool b_strncmp(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  return cmpCore(s, I, ci, b.carg(2), true);
}
static bool b_memcmp(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  return cmpCore(s, I, ci, b.carg(2), false);
}
static bool b_strcpy(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t d = b.carg(0), p = b.carg(1), q = p;
  for (;; q++) {
    MB x = getB(s, q);
    if (!x.e) { if (!x.v) break; continue; }
    if (domOf(s, x).get(0)) return false;
  }
  copyMem(s, d, p, q - p + 1);
  b.ret(VC(d));
  return true;
}
static bool b_strchr(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t p = b.carg(0);
  Val c = b.arg(1);
  if (c.e) return false;
  uint8_t ch = (uint8_t)c.c;
  for (;; p++) {
    MB x = getB(s, p);
    if (!x.e) {
      if (x.v == ch) { b.ret(VC(p)); return true; }
      if (!x.v) { b.ret(VC(0)); return true; }
      continue;
    }
    Bits256 d = domOf(s, x);
    if (d.get(ch) || d.get(0)) return false;
  }
}
static bool b_exit(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t code = b.carg(0);
  int k = (int)s.fr.size() - 1;
  while (k > 0 && s.fr[k].kind != 1) k--;
  if (k <= 0) throw PathEnd();
  uint32_t mark = s.fr[k].smark;
  int32_t ret = s.fr[k].ret;
  s.regs.resize(s.fr[k].base);
  s.fr.resize(k);
  s.stk.pop(mark);
  if (ret >= 0) s.regs[s.fr.back().base + ret] = VC(code & 0xff);
  return true;
}
static bool b_abort(State &s, const Inst &I, const CallInfo &ci) {
  report(s, "abort", "abort or failed internal assertion", s.model);
  throw PathEnd();
}
static bool b_nop(State &s, const Inst &I, const CallInfo &ci) { return true; }
static bool b_expect(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  b.ret(b.arg(0));
  return true;
}
static bool b_va_start(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t p = b.carg(0);
  storeConc(s, p, 4, VC(48));
  storeConc(s, p + 4, 4, VC(176));
  storeConc(s, p + 8, 8, VC(s.fr.back().va));
  storeConc(s, p + 16, 8, VC(0));
  return true;
}
static bool b_va_copy(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  copyMem(s, b.carg(0), b.carg(1), 24);
  return true;
}
static void minmax(State &s, const Inst &I, const CallInfo &ci, Op lt, bool swap) {
  BI b{s, I, ci};
  int w = ci.argw[0];
  Expr *x = toE(b.arg(0), w), *y = toE(b.arg(1), w);
  Expr *c = mk(lt, 1, x, y);
  b.ret(VE(swap ? mk(E_ITE, w, c, y, x) : mk(E_ITE, w, c, x, y)));
}
static bool b_smin(State &s, const Inst &I, const CallInfo &ci) { minmax(s, I, ci, E_SLT, false); return true; }
static bool b_smax(State &s, const Inst &I, const CallInfo &ci) { minmax(s, I, ci, E_SLT, true); return true; }
static bool b_umin(State &s, const Inst &I, const CallInfo &ci) { minmax(s, I, ci, E_ULT, false); return true; }
static bool b_umax(State &s, const Inst &I, const CallInfo &ci) { minmax(s, I, ci, E_ULT, true); return true; }
static bool b_iabs(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  int w = ci.argw[0];
  Expr *x = toE(b.arg(0), w);
  b.ret(VE(mk(E_ITE, w, mk(E_SLT, 1, x, mkConst(0, w)), mk(E_SUB, w, mkConst(0, w), x), x)));
  return true;
}
static void fsh(State &s, const Inst &I, const CallInfo &ci, bool left) {
  BI b{s, I, ci};
  int w = ci.argw[0];
  Expr *x = toE(b.arg(0), w), *y = toE(b.arg(1), w);
  uint64_t n = b.carg(2) % w;
  Expr *r;
  if (left) r = n ? mk(E_OR, w, mk(E_SHL, w, x, mkConst(n, w)), mk(E_LSHR, w, y, mkConst(w - n, w))) : x;
  else r = n ? mk(E_OR, w, mk(E_SHL, w, x, mkConst(w - n, w)), mk(E_LSHR, w, y, mkConst(n, w))) : y;
  b.ret(VE(r));
}
static bool b_fshl(State &s, const Inst &I, const CallInfo &ci) { fsh(s, I, ci, true); return true; }
static bool b_fshr(State &s, const Inst &I, const CallInfo &ci) { fsh(s, I, ci, false); return true; }
static bool b_fabs(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t v = b.carg(0);
  b.ret(VC(v & 0x7fffffffffffffffull));
  return true;
}
static bool b_fmuladd(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  double x[3];
  for (int k = 0; k < 3; k++) { uint64_t v = b.carg(k); memcpy(&x[k], &v, 8); }
  double r = x[0] * x[1] + x[2];
  uint64_t v;
  memcpy(&v, &r, 8);
  b.ret(VC(v));
  return true;
}
// ---- harness interface
static void mksym(State &s, uint64_t p, uint64_t n, const string &name, const Bits256 &dom) {
  for (uint64_t k = 0; k < n; k++) {
    int i = s.dom.size();
    s.dom.push_back(dom);
    s.model.push_back((uint8_t)dom.first());
    s.names.push_back(name);
    s.inMulti.push_back(0);
    storeConc(s, p + k, 1, VE(mkSym(i)));
  }
}
static bool b_vx_sym(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  mksym(s, b.carg(0), b.carg(1), cstr(s, b.carg(2)), BITS_ALL);
  return true;
}
static bool b_vx_sym_in(State &s, const Inst &I, const CallInfo &ci) { // (p, n, set, setlen, name)
  BI b{s, I, ci};
  Bits256 d = BITS_NONE;
  uint64_t a = b.carg(2), m = b.carg(3);
  for (uint64_t k = 0; k < m; k++) d.set(getB(s, a + k).v);
  mksym(s, b.carg(0), b.carg(1), cstr(s, b.carg(4)), d);
  return true;
}
static bool b_vx_assume(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  Val v = b.arg(0);
  if (!v.e) {
    if (!v.c) { st.killedAssume++; s.failed = true; throw PathEnd(); }
    return true;
  }
  Expr *c = mkNot(mk(E_EQ, 1, v.e, mkConst(0, v.e->w)));
  Decision d;
  decide(s, c, d);
  if (d.unk) { incomplete(s, "solver gave no answer"); throw PathEnd(); }
  if (!d.t) { st.killedAssume++; s.failed = true; throw PathEnd(); }
  if (d.f) { s.model = d.mt; addCons(s, c); }
  return true;
}
static bool b_vx_assert(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  Val v = b.arg(0);
  string msg = cstr(s, b.carg(1));
  st.asserts++;
  g_assertNames[msg]++;
  if (!v.e) {
    if (!v.c) {
      report(s, "assert", msg, s.model);
      throw PathEnd();
    }
    return true;
  }
  Expr *c = mkNot(mk(E_EQ, 1, v.e, mkConst(0, v.e->w)));
  Expr *neg = mkNot(c);
  vector<uint8_t> m = s.model;
  st.assertQ++;
  int r = isC(neg) ? (int)neg->c : solveWith(s, neg, m, true);
  if (r < 0) { incomplete(s, "solver gave no answer for an assertion"); throw PathEnd(); }
  if (r > 0) {
    if (!modelOK(s, m)) die("assert model does not satisfy the path condition");
    s.model = m;
    report(s, "assert", msg, m);
    throw PathEnd();
  }
  return true;
}
static bool b_vx_cover(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  g_covers[cstr(s, b.carg(0))]++;
  return true;
}
static bool b_vx_finding(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  string id = cstr(s, b.carg(0));
  if (!g_findings[id]++) {
    string r;
    for (auto &p : inputsOf(s, s.model)) r += p.second;
    g_findingEx[id] = r;
  }
  return true;
}
static bool b_vx_digest(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  uint64_t p = b.carg(0), n = b.carg(1);
  for (uint64_t k = 0; k < n; k++) {
    MB x = getB(s, p + k);
    s.digest.push_back({x.v, x.e});
  }
  return true;
}
static bool b_vx_conc(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  b.ret(VC(b.carg(0)));
  return true;
}
static bool b_vx_print(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  if (!g_stats) return true;
  uint64_t a = b.carg(0);
  string r;
  for (;; a++) {
    MB x = getB(s, a);
    uint8_t c = x.e ? (uint8_t)evalModel(x.e, s.model.data()) : x.v;
    if (!c) break;
    r += (char)c;
  }
  fprintf(stderr, "%s", r.c_str());
  return true;
}
static bool b_vx_reset(State &s, const Inst &I, const CallInfo &ci) {
  for (uint32_t gi : g_progGlobals) {
    Page *p = s.glob.wpage(gi);
    Obj *&o = p->o[gi & (PGSZ - 1)];
    dropObj(o);
    o = g_initial[gi];
    o->ref++;
  }
  return true;
}
static bool b_vx_budget(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  s.slimit = s.steps + b.carg(0);
  return true;
}
static bool b_vx_issym(State &s, const Inst &I, const CallInfo &ci) {
  BI b{s, I, ci};
  b.ret(VC(1));
  return true;
}
static bool b_vx_catch(State &s, const Inst &I, const CallInfo &ci);

static std::map<string, Builtin> g_builtins = {
    {"malloc", b_malloc}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free},
    {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"strlen", b_strlen},
    {"strcmp", b_strcmp}, {"strncmp", b_strncmp}, {"memcmp", b_memcmp}, {"strcpy", b_strcpy},
    {"strchr", b_strchr}, {"exit", b_exit}, {"_exit", b_exit}, {"abort", b_abort},
    {"__assert_fail", b_abort}, {"llvm.trap", b_abort},
    {"vx_sym", b_vx_sym}, {"vx_sym_set", b_vx_sym_in}, {"vx_assume", b_vx_assume},
    {"vx_assert", b_vx_assert}, {"vx_cover", b_vx_cover}, {"vx_finding", b_vx_finding}, {"vx_digest", b_vx_digest}, {"vx_conc", b_vx_conc},
    {"vx_print", b_vx_print}, {"vx_reset_globals", b_vx_reset}, {"vx_budget", b_vx_budget},
    {"vx_symbolic", b_vx_issym}, {"vx_catch", b_vx_catch}};
static Builtin intrinsicBI(const string &n) {
  auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (pre("llvm.memcpy") || pre("llvm.memmove")) return b_memcpy;
  if (pre("llvm.memset")) return b_memset;
  if (pre("llvm.va_start")) return b_va_start;
  if (pre("llvm.va_end")) return b_nop;
  if (pre("llvm.va_copy")) return b_va_copy;
  if (pre("llvm.stack")) return b_nop;
  if (pre("llvm.expect")) return b_expect;
  if (pre("llvm.smin")) return b_smin;
  if (pre("llvm.smax")) return b_smax;
  if (pre("llvm.umin")) return b_umin;
  if (pre("llvm.umax")) return b_umax;
  if (pre("llvm.abs")) return b_iabs;
  if (pre("llvm.fshl")) return b_fshl;
  if (pre("llvm.fshr")) return b_fshr;
  if (pre("llvm.fabs")) return b_fabs;
  if (pre("llvm.fmuladd")) return b_fmuladd;
  return nullptr;
}

static Fn *fnOfAddr(State &s, uint64_t a) {
  uint32_t id = a >> 32;
  if (id < FNB || id - FNB >= g_fns.size() || (uint32_t)a) {
    report(s, "memory", "call through an invalid function pointer", s.model);
    throw PathEnd();
  }
  return g_fns[id - FNB];
}
static void pushFrame(State &s, Fn *fn, const Val *av, size_t na, const CallInfo *ci, int32_t ret, uint8_t kind) {
  if (!fn->translated) translate(fn);
  if (s.fr.size() > 4000) { report(s, "recursion", "call depth exceeds 4000", s.model); throw PathEnd(); }
  Frame f;
  f.fn = fn;
  f.pc = 0;
  f.base = s.regs.size();
  f.ret = ret;
  f.smark = s.stk.n;
  f.va = 0;
  f.kind = kind;
  if (na < fn->nargs) die("too few arguments in a call of " + fn->name);
  if (fn->vararg) {
    uint64_t a = (uint64_t)(STKB + s.stk.add(newObj(8 * (na - fn->nargs), 0))) << 32;
    f.va = a;
    for (size_t k = fn->nargs; k < na; k++) {
      Val v = av[k];
      if (v.e && v.e->w < 64) v = VE(mk(E_ZEXT, 64, v.e));
      storeConc(s, a + 8 * (k - fn->nargs), 8, v);
    }
  }
  s.regs.resize(f.base + fn->nregs, VC(0));
  for (size_t k = 0; k < fn->nargs; k++) {
    Val v = av[k];
    if (ci && ci->byval[k]) {
      uint32_t n = ci->byval[k];
      uint64_t a = (uint64_t)(STKB + s.stk.add(newObj(n, 0))) << 32;
      copyMem(s, a, v.c, n);
      v = VC(a);
    }
    s.regs[f.base + k] = v;
  }
  s.fr.push_back(f);
}
static bool b_vx_catch(State &s, const Inst &I, const CallInfo &ci) { // int vx_catch(int(*)(int,char**), int, char**)
  BI b{s, I, ci};
  Fn *fn = fnOfAddr(s, b.carg(0));
  Val a[2] = {b.arg(1), b.arg(2)};
  pushFrame(s, fn, a, fn->nargs, nullptr, I.dst, 1);
  return true;
}

static Expr *icmpE(int p, Expr *a, Expr *b) {
  switch (p) {
  case 0: return mk(E_EQ, 1, a, b);
  case 1: return mkNot(mk(E_EQ, 1, a, b));
  case 2: return mk(E_ULT, 1, b, a);
  case 3: return mk(E_ULE, 1, b, a);
  case 4: return mk(E_ULT, 1, a, b);
  case 5: return mk(E_ULE, 1, a, b);
  case 6: return mk(E_SLT, 1, b, a);
  case 7: return mk(E_SLE, 1, b, a);
  case 8: return mk(E_SLT, 1, a, b);
  default: return mk(E_SLE, 1, a, b);
  }
}
static double d_(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t u_(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

static void loop(State &s) {
  Frame *f;
  const Inst *code;
  Val *R;
  const Val *K;
  uint32_t pc;
#define RELOAD() (f = &s.fr.back(), code = f->fn->code.data(), R = s.regs.data() + f->base, K = f->fn->consts.data(), pc = f->pc)
#define OP(x) getop(R, K, x)
  RELOAD();
  for (;;) {
    const Inst &I = code[pc];
    f->pc = pc;
    s.steps++;
    switch (I.op) {
    case I_BIN: {
      Val a = OP(I.a), b = OP(I.b);
      bool isdiv = I.sub >= E_UDIV && I.sub <= E_SREM;
      if (isdiv) {
        if (b.e) {
          if (choose(s, mk(E_EQ, 1, b.e, mkConst(0, I.w)))) { report(s, "arith", "division by zero", s.model); throw PathEnd(); }
        } else if (!b.c) { report(s, "arith", "division by zero", s.model); throw PathEnd(); }
      }
      if (!a.e && !b.e) {
        uint64_t m = maskw(I.w);
        switch (I.sub) {
        case E_ADD: R[I.dst] = VC((a.c + b.c) & m); break;
        case E_SUB: R[I.dst] = VC((a.c - b.c) & m); break;
        case E_AND: R[I.dst] = VC(a.c & b.c); break;
        case E_OR: R[I.dst] = VC(a.c | b.c); break;
        case E_XOR: R[I.dst] = VC(a.c ^ b.c); break;
        default: R[I.dst] = VC(evalOp((Op)I.sub, I.w, 0, a.c, b.c, 0, I.w, I.w));
        }
      } else R[I.dst] = VE(mk((Op)I.sub, I.w, toE(a, I.w), toE(b, I.w)));
      pc++;
      break;
    }
    case I_ICMP: {
      Val a = OP(I.a), b = OP(I.b);
      if (!a.e && !b.e) {
        int64_t x = sx64(a.c, I.w), y = sx64(b.c, I.w);
        bool r;
        switch (I.sub) {
        case 0: r = a.c == b.c; break;
        case 1: r = a.c != b.c; break;
        case 2: r = a.c > b.c; break;
        case 3: r = a.c >= b.c; break;
        case 4: r = a.c < b.c; break;
        case 5: r = a.c <= b.c; break;
        case 6: r = x > y; break;
        case 7: r = x >= y; break;
        case 8: r = x < y; break;
        default: r = x <= y; break;
        }
        R[I.dst] = VC(r);
      } else R[I.dst] = VE(icmpE(I.sub, toE(a, I.w), toE(b, I.w)));
      pc++;
      break;
    }
    case I_FBIN: {
      double a = d_(concretize(s, OP(I.a), 64)), b = d_(concretize(s, OP(I.b), 64)), r;
      switch (I.sub) {
      case 0: r = a + b; break;
      case 1: r = a - b; break;
      case 2: r = a * b; break;
      case 3: r = a / b; break;
      default: r = fmod(a, b);
      }
      R[I.dst] = VC(u_(r));
      pc++;
      break;
    }
    case I_FNEG: R[I.dst] = VC(concretize(s, OP(I.a), 64) ^ (1ull << 63)); pc++; break;
    case I_FCMP: {
      double a = d_(concretize(s, OP(I.a), 64)), b = d_(concretize(s, OP(I.b), 64));
      bool un = std::isnan(a) || std::isnan(b), r;
      int p = I.sub; // bits: 8 unordered, 4 lt, 2 gt, 1 eq
      r = un ? (p & 8) : ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b);
      R[I.dst] = VC(r);
      pc++;
      break;
    }
    case I_FCAST: {
      uint64_t v = concretize(s, OP(I.a), I.w);
      switch (I.sub) {
      case 0: R[I.dst] = VC(u_((double)sx64(v, I.w))); break;
      case 1: R[I.dst] = VC(u_((double)v)); break;
      case 2: R[I.dst] = VC((uint64_t)(int64_t)d_(v) & maskw(I.w2)); break;
      case 3: R[I.dst] = VC((uint64_t)d_(v) & maskw(I.w2)); break;
      case 6: R[I.dst] = VC(v); break;
      case 4: { float x; uint32_t u = v; memcpy(&x, &u, 4); R[I.dst] = VC(u_((double)x)); break; }
      case 5: { float x = (float)d_(v); uint32_t u; memcpy(&u, &x, 4); R[I.dst] = VC(u); break; }
      }
      pc++;
      break;
    }
    case I_CAST: {
      Val a = OP(I.a);
      if (!a.e) {
        uint64_t v = a.c;
        if (I.sub == 2) v = (uint64_t)sx64(v, I.w) & maskw(I.w2);
        else if (I.sub == 3) v &= maskw(I.w2);
        R[I.dst] = VC(v);
      } else if (I.sub == 0) R[I.dst] = a;
      else if (I.sub == 1) R[I.dst] = VE(mk(E_ZEXT, I.w2, a.e));
      else if (I.sub == 2) R[I.dst] = VE(mk(E_SEXT, I.w2, a.e));
      else R[I.dst] = VE(mk(E_EXTRACT, I.w2, a.e, nullptr, nullptr, 0));
      pc++;
      break;
    }
    case I_MOV: R[I.dst] = OP(I.a); pc++; break;
    case I_SEL: {
      Val c = OP(I.c);
      if (c.e) {
        Expr *ce = pin(s, c.e);
        if (isC(ce)) c = VC(ce->c);
      }
      if (!c.e) R[I.dst] = c.c ? OP(I.a) : OP(I.b);
      else R[I.dst] = VE(mk(E_ITE, I.w, c.e, toE(OP(I.a), I.w), toE(OP(I.b), I.w)));
      pc++;
      break;
    }
    case I_LOAD: {
      Val v = loadMem(s, OP(I.a), I.w2);
      if (I.w < 8 * I.w2) v = v.e ? VE(mk(E_EXTRACT, I.w, v.e, nullptr, nullptr, 0)) : VC(v.c & maskw(I.w));
      R[I.dst] = v;
      pc++;
      break;
    }
    case I_STORE: {
      Val v = OP(I.b);
      if (v.e && v.e->w < 8 * I.w2) v = VE(mk(E_ZEXT, 8 * I.w2, v.e));
      storeMem(s, OP(I.a), I.w2, v);
      pc++;
      break;
    }
    case I_GEPC: {
      Val a = OP(I.a);
      if (!a.e) R[I.dst] = VC(a.c + I.imm);
      else R[I.dst] = VE(mk(E_ADD, 64, a.e, mkConst(I.imm, 64)));
      pc++;
      break;
    }
    case I_GEPI: {
      Val a = OP(I.a), b = OP(I.b);
      if (!a.e && !b.e) R[I.dst] = VC(a.c + (uint64_t)sx64(b.c, I.w) * I.imm);
      else {
        Expr *ix = toE(b, I.w);
        ix = mk(E_SEXT, 64, ix);
        R[I.dst] = VE(mk(E_ADD, 64, toE(a, 64), mk(E_MUL, 64, ix, mkConst(I.imm, 64))));
      }
      pc++;
      break;
    }
    case I_ALLOCA: {
      uint64_t n = concretize(s, OP(I.a), 64) * I.imm;
      R[I.dst] = VC((uint64_t)(STKB + s.stk.add(newObj((uint32_t)n, 0xA5))) << 32);
      pc++;
      break;
    }
    case I_MOVES: {
      auto *mv = (vector<Move> *)I.x;
      size_t n = mv->size();
      if (n == 1) R[(*mv)[0].dst] = OP((*mv)[0].src);
      else {
        Val tmp[64];
        if (n > 64) die("too many phis");
        for (size_t k = 0; k < n; k++) tmp[k] = OP((*mv)[k].src);
        for (size_t k = 0; k < n; k++) R[(*mv)[k].dst] = tmp[k];
      }
      pc++;
      break;
    }
    case I_BR:
      if (I.t1 <= pc && s.steps > s.slimit) {
        if (now() > g_deadline) { incomplete(s, "time limit"); throw PathEnd(); }
        report(s, "steps", "no end within the step limit", s.model);
        throw PathEnd();
      }
      pc = I.t1;
      break;
    case I_CBR: {
      Val c = OP(I.a);
      bool t;
      if (!c.e) t = c.c & 1;
      else {
        t = choose(s, c.e);
      }
      uint32_t to = t ? I.t1 : I.t2;
      if (to <= pc && s.steps > s.slimit) {
        report(s, "steps", "no end within the step limit", s.model);
        throw PathEnd();
      }
      pc = to;
      break;
    }
    case I_SWITCH: {
      Val c = OP(I.a);
      auto *si = (SwitchInfo *)I.x;
      if (c.e) c = VE(c.e->sv == -2 ? substPinned(c.e, s.dom) : pin(s, c.e));
      if (!c.e) {
        uint32_t to = si->def;
        for (size_t k = 0; k < si->v.size(); k++)
          if (si->v[k] == c.c) { to = si->t[k]; break; }
        pc = to;
        break;
      }
      // the target taken by the current model, against all others
      uint64_t x = evalModel(c.e, s.model.data());
      uint32_t to = si->def;
      for (size_t k = 0; k < si->v.size(); k++)
        if (si->v[k] == x) { to = si->t[k]; break; }
      Expr *cond = mkConst(to == si->def, 1);
      for (size_t k = 0; k < si->v.size(); k++) {
        Expr *q = mk(E_EQ, 1, c.e, mkConst(si->v[k], I.w));
        if (to == si->def) {
          if (si->t[k] != si->def) cond = mk(E_AND, 1, cond, mkNot(q));
        } else if (si->t[k] == to) cond = mk(E_OR, 1, cond, q);
      }
      if (!choose(s, cond)) die("switch: model disagrees");
      pc = to;
      break;
    }
    case I_CALL: {
      auto *ci = (CallInfo *)I.x;
      Fn *fn = ci->fn;
      if (!fn) fn = fnOfAddr(s, concretize(s, OP(ci->callee), 64));
      if (!fn->defined || fn->bi) {
        if (!fn->bi) {
          incomplete(s, "call of unsupported external function " + fn->name);
          throw PathEnd();
        }
        size_t depth = s.fr.size();
        if (fn->bi(s, I, *ci)) {
          if (s.fr.size() > depth) { s.fr[depth - 1].pc = pc + 1; RELOAD(); break; } // frame pushed
          if (s.fr.size() < depth) { RELOAD(); break; } // exit() unwound to its catcher
          RELOAD();
          pc++;
          break;
        }
        auto it = g_fnByName.find("__c_" + fn->name);
        if (it == g_fnByName.end()) { incomplete(s, "no C version of " + fn->name); throw PathEnd(); }
        fn = it->second;
        f = &s.fr.back();
        R = s.regs.data() + f->base;
      }
      Val av[32];
      size_t n = ci->args.size();
      if (n > 32) die("too many arguments");
      for (size_t k = 0; k < n; k++) av[k] = OP(ci->args[k]);
      f->pc = pc + 1;
      pushFrame(s, fn, av, n, ci, I.dst, 0);
      RELOAD();
      break;
    }
    case I_RET: {
      auto *v = (vector<int32_t> *)I.x;
      Val rv[8];
      size_t n = v->size();
      for (size_t k = 0; k < n && k < 8; k++) rv[k] = OP((*v)[k]);
      int32_t dst = f->ret;
      uint32_t base = f->base, mark = f->smark;
      s.fr.pop_back();
      s.stk.pop(mark);
      s.regs.resize(base);
      if (s.fr.empty()) return;
      RELOAD();
      if (dst >= 0)
        for (size_t k = 0; k < n; k++) R[dst + k] = rv[k];
      break;
    }
    case I_UNREACH:
      report(s, "unreachable", "undefined behaviour: unreachable code executed", s.model);
      throw PathEnd();
    }
  }
}
static size_t g_maxSamples = 6;
static void runState(State *sp) {
  std::unique_ptr<State> own(sp);
  uint64_t s0 = sp->steps;
  try {
    loop(*sp);
  } catch (PathEnd &) {
  }
  st.steps += sp->steps - s0;
  st.paths++;
  // keep the first and, at doubling distances, some later paths for replay against the real code
  if (!sp->failed && sp->names.size() && g_samples.size() < g_maxSamples && (st.paths & (st.paths - 1)) == 0) {
    Sample x;
    x.inputs = inputsOf(*sp, sp->model);
    uint64_t h = 1469598103934665603ull;
    for (auto &p : sp->digest) {
      uint8_t c = p.second ? (uint8_t)evalModel(p.second, sp->model.data()) : p.first;
      h = (h ^ c) * 1099511628211ull;
    }
    x.digest = h;
    x.n = sp->digest.size();
    if (!modelOK(*sp, sp->model)) die("path model does not satisfy the path condition");
    g_samples.push_back(x);
  }
}

// ============================ driver ============================================
static void jstr(string &o, const string &x) {
  o += '"';
  for (unsigned char c : x) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  o += '"';
}
static string results(double wall) {
  string o = "{";
  char b[2048];
  snprintf(b, sizeof b,
           "\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"cached\":%llu,\"sat\":%llu,"
           "\"unsat\":%llu,\"unknown\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"domain_decided\":%llu,"
           "\"assume_killed\":%llu,\"incomplete\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"exprs\":%llu,\"wall_s\":%.2f,",
           (unsigned long long)st.paths, (unsigned long long)st.forks, (unsigned long long)st.steps,
           (unsigned long long)st.queries, (unsigned long long)st.cached, (unsigned long long)st.sat,
           (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.asserts,
           (unsigned long long)st.assertQ, (unsigned long long)st.domDecided, (unsigned long long)st.killedAssume,
           (unsigned long long)st.incomplete, st.solver, st.maxq, (unsigned long long)g_nExpr, wall);
  o += b;
  o += "\"covers\":{";
  bool first = true;
  for (auto &p : g_covers) {
    if (!first) o += ',';
    first = false;
    jstr(o, p.first);
    o += ':' + std::to_string(p.second);
  }
  o += "},\"assertions\":{";
  first = true;
  for (auto &p : g_assertNames) {
    if (!first) o += ',';
    first = false;
    jstr(o, p.first);
    o += ':' + std::to_string(p.second);
  }
  o += "},\"functions\":[";
  first = true;
  for (auto *f : g_fns)
    if (f->translated) {
      if (!first) o += ',';
      first = false;
      jstr(o, f->name);
    }
  o += "],\"incomplete_why\":[";
  first = true;
  for (auto &x : g_incomplete) {
    if (!first) o += ',';
    first = false;
    jstr(o, x);
  }
  o += "],\"violations\":[";
  first = true;
  for (auto &v : g_viol) {
    if (!first) o += ',';
    first = false;
    o += "{\"kind\":";
    jstr(o, v.kind);
    o += ",\"msg\":";
    jstr(o, v.msg);
    o += ",\"where\":";
    jstr(o, v.where);
    o += ",\"inputs\":[";
    bool f2 = true;
    for (auto &p : v.inputs) {
      if (!f2) o += ',';
      f2 = false;
      o += '[';
      jstr(o, p.first);
      o += ',';
      jstr(o, p.second);
      o += ']';
    }
    o += "]}";
  }
  o += "],\"findings\":{";
  first = true;
  for (auto &p : g_findings) {
    if (!first) o += ',';
    first = false;
    jstr(o, p.first);
    o += ":[" + std::to_string(p.second) + ",";
    jstr(o, g_findingEx[p.first]);
    o += "]";
  }
  o += "},\"samples\":[";
  first = true;
  for (auto &v : g_samples) {
    if (!first) o += ',';
    first = false;
    o += "{\"digest\":\"" + std::to_string(v.digest) + "\",\"n\":" + std::to_string(v.n) + ",\"inputs\":[";
    bool f2 = true;
    for (auto &p : v.inputs) {
      if (!f2) o += ',';
      f2 = false;
      o += '[';
      jstr(o, p.first);
      o += ',';
      jstr(o, p.second);
      o += ']';
    }
    o += "]}";
  }
  o += "]}";
  return o;
}
static void drain() {
  while (!g_work.empty() && g_viol.size() < g_maxViol) {
    State *s = g_work.back();
    g_work.pop_back();
    if (now() > g_deadline) {
      if (!st.incomplete) incomplete(*s, "time limit");
      else st.incomplete++;
      delete s;
      continue;
    }
    runState(s);
  }
}

int main(int argc, char **argv) {
  string prog, out, entry = "vx_main", passes = "function(sroa,early-cse,simplifycfg,dce)";
  vector<string> libs;
  int variant = 0, jobs = 1;
  double tlim = 600;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() { if (i + 1 >= argc) die("missing value for " + a); return string(argv[++i]); };
    if (a == "--prog") prog = nx();
    else if (a == "--lib") libs.push_back(nx());
    else if (a == "--out") out = nx();
    else if (a == "--variant") variant = atoi(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--time") tlim = atof(nx().c_str());
    else if (a == "--steps") g_stepLimit = strtoull(nx().c_str(), 0, 10);
    else if (a == "--maxviol") g_maxViol = atoi(nx().c_str());
    else if (a == "--samples") g_maxSamples = atoi(nx().c_str());
    else if (a == "--passes") passes = nx();
    else if (a == "--entry") entry = nx();
    else if (a == "--stats") g_stats = true;
    else die("unknown option " + a);
  }
  double t0 = now();
  g_deadline = t0 + tlim;
  memset(&FREEDPAGE, 0, sizeof FREEDPAGE);
  FREEDPAGE.ref = 1u << 30;
  for (auto &o : FREEDPAGE.o) o = &FREED;
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(prog, err, ctx);
  if (!M) die("cannot read " + prog + ": " + err.getMessage().str());
  for (auto &g : M->globals())
    if (!g.isDeclaration()) g.setSection("vxprog");
  for (auto &l : libs) {
    auto L = parseIRFile(l, err, ctx);
    if (!L) die("cannot read " + l + ": " + err.getMessage().str());
    if (Linker::linkModules(*M, std::move(L))) die("link failed: " + l);
  }
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, passes)) die("bad pass pipeline");
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  State *s = new State;
  vector<GlobalVariable *> gs;
  for (auto &g : M->globals()) {
    if (g.isDeclaration()) {
      if (!g.use_empty()) die("undefined global " + g.getName().str());
      continue;
    }
    gs.push_back(&g);
    uint32_t i = s->glob.add(newObj(DL->getTypeAllocSize(g.getValueType()), 0));
    g_gaddr[&g] = (uint64_t)(GLOBB + i) << 32;
  }
  for (auto &F : *M) {
    if (F.isDeclaration() && F.use_empty()) continue;
    Fn *f = fnFor(&F);
    if (F.isIntrinsic()) f->bi = intrinsicBI(f->name);
    else if (!f->defined || f->name.compare(0, 4, "vx_c") == 0) {
      auto it = g_builtins.find(f->name);
      if (it != g_builtins.end()) f->bi = it->second;
    }
  }
  g_initial.resize(gs.size());
  for (size_t i = 0; i < gs.size(); i++) {
    Obj *o = s->glob.get(i);
    initBytes(o, 0, gs[i]->getInitializer());
    if (gs[i]->isConstant()) o->flags |= 1;
    else if (gs[i]->getSection() == "vxprog") g_progGlobals.push_back(i);
    o->ref++;
    g_initial[i] = o;
  }
  initSolver();
  auto it = g_fnByName.find(entry);
  if (it == g_fnByName.end()) die("no entry " + entry);
  Val a[1] = {VC(variant)};
  s->slimit = g_stepLimit;
  pushFrame(*s, it->second, a, it->second->nargs, nullptr, -1, 0);
  g_work.push_back(s);
  double tload = now() - t0;
  string res;
  if (jobs <= 1) {
    drain();
  } else {
    // breadth first until there is enough to share
    while (!g_work.empty() && g_work.size() < (size_t)jobs * 24 && g_viol.size() < g_maxViol && now() < g_deadline && now() - t0 - tload < 20) {
      State *x = g_work.front();
      g_work.pop_front();
      runState(x);
    }
  }
  auto emit = [&](const string &fn, const string &r) {
    FILE *fo = fn == "-" ? stdout : fopen(fn.c_str(), "w");
    if (!fo) die("cannot write " + fn);
    fwrite(r.data(), 1, r.size(), fo);
    if (fo != stdout) fclose(fo);
  };
  if (out.empty()) out = "-";
  if (jobs > 1 && !g_work.empty() && g_viol.size() < g_maxViol) {
    vector<State *> w(g_work.begin(), g_work.end());
    g_work.clear();
    emit(out + ".0", results(now() - t0));
    volatile uint32_t *ctr = (volatile uint32_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    vector<pid_t> kids;
    for (int j = 0; j < jobs; j++) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        st = Stats();
        g_covers.clear(); g_assertNames.clear(); g_incomplete.clear(); g_viol.clear(); g_forkAt.clear(); g_samples.clear(); g_findings.clear();
        double t1 = now();
        for (;;) {
          uint32_t k = __sync_fetch_and_add(ctr, 1);
          if (k >= w.size() || g_viol.size() >= g_maxViol) break;
          g_work.push_back(w[k]);
          drain();
        }
        emit(out + "." + std::to_string(j + 1), results(now() - t1));
        if (g_stats && j == 0)
          for (auto &p : g_forkAt)
            if (p.second > 20) fprintf(stderr, "%8llu forks at %s\n", (unsigned long long)p.second, p.first.c_str());
        _exit(0);
      }
      kids.push_back(p);
    }
    bool bad = false;
    for (auto p : kids) {
      int stt;
      waitpid(p, &stt, 0);
      if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = true;
    }
    if (bad) die("a worker failed");
    string r = "{\"parts\":" + std::to_string(jobs + 1) + ",\"wall_s\":" + std::to_string(now() - t0) + "}";
    emit(out, r);
  } else
    emit(out, results(now() - t0));
  if (g_stats) {
    fprintf(stderr, "load %.2fs total %.2fs paths %llu forks %llu steps %llu queries %llu (cached %llu) solver %.2fs asserts %llu incomplete %llu addrforks %llu exprs %llu\n",
            tload, now() - t0, (unsigned long long)st.paths, (unsigned long long)st.forks, (unsigned long long)st.steps,
            (unsigned long long)st.queries, (unsigned long long)st.cached, st.solver, (unsigned long long)st.asserts,
            (unsigned long long)st.incomplete, (unsigned long long)g_addrForks, (unsigned long long)g_nExpr);
    vector<std::pair<uint64_t, string>> v;
    for (auto &p : g_forkAt) v.push_back({p.second, p.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 25; i++)
      fprintf(stderr, "%8llu forks at %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
    for (auto &p : g_covers) fprintf(stderr, "cover %s: %llu\n", p.first.c_str(), (unsigned long long)p.second);
  }
  fflush(stdout);
  _exit(0);
}
