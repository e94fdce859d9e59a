// ============================ LLVM IR -> register code ==========================
static int typeW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return -1;
}
static int flatCount(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    int n = 0;
    for (auto *e : st->elements()) n += flatCount(e);
    return n;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * flatCount(at->getElementType());
  return t->isVoidTy() ? 0 : 1;
}
static int flatIndex(Type *t, ArrayRef<unsigned> idx) {
  int o = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) {
      for (unsigned k = 0; k < i; k++) o += flatCount(st->getElementType(k));
      t = st->getElementType(i);
    } else {
      auto *at = cast<ArrayType>(t);
      o += i * flatCount(at->getElementType());
      t = at->getElementType();
    }
  }
  return o;
}
static Fn *fnFor(const Function *F) {
  auto it = g_fnOf.find(F);
  if (it != g_fnOf.end()) return it->second;
  Fn *f = new Fn;
  f->name = F->getName().str();
  f->F = const_cast<Function *>(F);
  f->idx = g_fns.size();
  f->defined = !F->isDeclaration();
  f->vararg = F->isVarArg();
  f->nargs = F->arg_size();
  g_fns.push_back(f);
  g_fnOf[F] = f;
  g_fnByName[f->name] = f;
  return f;
}
static uint64_t constVal(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() > 64) die("wide constant");
    return ci->getZExtValue();
  }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (auto *fp = dyn_cast<ConstantFP>(C)) return fp->getValueAPF().bitcastToAPInt().getLimitedValue();
  if (auto *g = dyn_cast<GlobalVariable>(C)) {
    auto it = g_gaddr.find(g);
    if (it == g_gaddr.end()) die("unresolved global " + g->getName().str());
    return it->second;
  }
  if (auto *f = dyn_cast<Function>(C)) return (uint64_t)(FNB + fnFor(f)->idx) << 32;
  if (auto *al = dyn_cast<GlobalAlias>(C)) return constVal(al->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) die("constant gep");
      return constVal(cast<Constant>(gep->getPointerOperand())) + (uint64_t)off.getSExtValue();
    }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt:
    case Instruction::ZExt:
      return constVal(ce->getOperand(0)) & maskw(typeW(ce->getType()));
    case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(typeW(ce->getType()));
    case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(typeW(ce->getType()));
    case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(typeW(ce->getType()));
    default: break;
    }
  }
  string s;
  raw_string_ostream os(s);
  C->print(os);
  die("unsupported constant " + os.str());
}
static void initBytes(Obj *o, uint64_t off, const Constant *C) {
  Type *t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return; // already zero
  if (auto *cda = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = DL->getTypeAllocSize(cda->getElementType());
    for (unsigned i = 0; i < cda->getNumElements(); i++) initBytes(o, off + i * es, cda->getElementAsConstant(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  uint64_t v = constVal(C);
  int n = DL->getTypeStoreSize(t);
  for (int k = 0; k < n; k++) putByte(o, off + k, nullptr, (uint8_t)(v >> (8 * k)));
}

struct Tr {
  Fn *fn;
  std::map<const Value *, int> slot;
  std::map<const BasicBlock *, uint32_t> bbpc;
  std::map<std::pair<uint64_t, int>, int> cmap;
  vector<std::pair<size_t, int>> fix; // (inst, which) -> bb
  struct Fix { size_t i; int which; size_t sw; const BasicBlock *from, *to; };
  vector<Fix> fixes;
  uint32_t line = 0;

  int cidx(uint64_t v) {
    auto k = std::make_pair(v, 0);
    auto it = cmap.find(k);
    if (it != cmap.end()) return ~it->second;
    int i = fn->consts.size();
    fn->consts.push_back(VC(v));
    cmap[k] = i;
    return ~i;
  }
  int op(const Value *v) {
    if (auto *C = dyn_cast<Constant>(v)) return cidx(constVal(C));
    auto it = slot.find(v);
    if (it == slot.end()) die("no slot in " + fn->name);
    return it->second;
  }
  int opAgg(const Value *v, int k) { // k-th scalar of an aggregate value
    if (auto *C = dyn_cast<Constant>(v)) {
      if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return cidx(0);
      if (!C->getType()->isAggregateType()) return cidx(constVal(C));
      int o = 0;
      for (unsigned i = 0; i < C->getNumOperands(); i++) {
        auto *e = C->getAggregateElement(i);
        int n = flatCount(e->getType());
        if (k < o + n) return opAgg(e, k - o);
        o += n;
      }
      die("agg const");
    }
    return slot.at(v) + k;
  }
  Inst &emit(IOp o) {
    Inst I;
    memset(&I, 0, sizeof I);
    I.op = o;
    I.line = line;
    fn->code.push_back(I);
    return fn->code.back();
  }
  void moves(const BasicBlock *from, const BasicBlock *to) {
    auto *mv = new vector<Move>;
    for (auto &phi : to->phis()) {
      int n = flatCount(phi.getType());
      const Value *in = phi.getIncomingValueForBlock(from);
      for (int k = 0; k < n; k++) mv->push_back({slot.at(&phi) + k, opAgg(in, k)});
    }
    Inst &I = emit(I_MOVES);
    I.x = mv;
  }
  void run() {
    Function &F = *fn->F;
    int n = 0;
    for (auto &a : F.args()) slot[&a] = n++;
    for (auto &bb : F)
      for (auto &i : bb) {
        int c = flatCount(i.getType());
        if (c) { slot[&i] = n; n += c; }
      }
    fn->nregs = n;
    for (auto &bb : F) {
      bbpc[&bb] = fn->code.size();
      for (auto &i : bb) {
        if (i.getDebugLoc()) line = i.getDebugLoc().getLine();
        inst(i);
      }
    }
    // edges
    std::map<std::pair<const BasicBlock *, const BasicBlock *>, uint32_t> stub;
    for (auto &fx : fixes) {
      uint32_t target;
      if (fx.to->phis().empty()) target = bbpc[fx.to];
      else {
        auto k = std::make_pair(fx.from, fx.to);
        auto it = stub.find(k);
        if (it == stub.end()) {
          uint32_t p = fn->code.size();
          line = fn->code[fx.i].line;
          moves(fx.from, fx.to);
          Inst &b = emit(I_BR);
          b.t1 = bbpc[fx.to];
          it = stub.emplace(k, p).first;
        }
        target = it->second;
      }
      Inst &I = fn->code[fx.i];
      if (fx.which == 1) I.t1 = target;
      else if (fx.which == 2) I.t2 = target;
      else if (fx.which == 3) ((SwitchInfo *)I.x)->t[fx.sw] = target;
      else ((SwitchInfo *)I.x)->def = target;
    }
    fn->translated = true;
  }
  void unsup(Instruction &i) {
    string s;
    raw_string_ostream os(s);
    i.print(os);
    die("unsupported instruction in " + fn->name + ": " + os.str());
  }
  int W(Type *t, Instruction &i) {
    int w = typeW(t);
    if (w < 1 || w > 64) unsup(i);
    return w;
  }
  void inst(Instruction &i) {
    if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) return;
    if (auto *b = dyn_cast<BinaryOperator>(&i)) {
      if (b->getType()->isFloatingPointTy()) {
        if (!b->getType()->isDoubleTy()) unsup(i);
        Inst &I = emit(I_FBIN);
        switch (b->getOpcode()) {
        case Instruction::FAdd: I.sub = 0; break;
        case Instruction::FSub: I.sub = 1; break;
        case Instruction::FMul: I.sub = 2; break;
        case Instruction::FDiv: I.sub = 3; break;
        case Instruction::FRem: I.sub = 4; break;
        default: unsup(i);
        }
        I.dst = slot[&i]; I.a = op(b->getOperand(0)); I.b = op(b->getOperand(1));
        return;
      }
      int w = W(b->getType(), i);
      int a = op(b->getOperand(0)), c = op(b->getOperand(1));
      Inst &I = emit(I_BIN);
      I.w = w;
      switch (b->getOpcode()) {
      case Instruction::Add: I.sub = E_ADD; break;
      case Instruction::Sub: I.sub = E_SUB; break;
      case Instruction::Mul: I.sub = E_MUL; break;
      case Instruction::UDiv: I.sub = E_UDIV; break;
      case Instruction::SDiv: I.sub = E_SDIV; break;
      case Instruction::URem: I.sub = E_UREM; break;
      case Instruction::SRem: I.sub = E_SREM; break;
      case Instruction::And: I.sub = E_AND; break;
      case Instruction::Or: I.sub = E_OR; break;
      case Instruction::Xor: I.sub = E_XOR; break;
      case Instruction::Shl: I.sub = E_SHL; break;
      case Instruction::LShr: I.sub = E_LSHR; break;
      case Instruction::AShr: I.sub = E_ASHR; break;
      default: unsup(i);
      }
      I.dst = slot[&i]; I.a = a; I.b = c;
      return;
    }
    if (auto *c = dyn_cast<ICmpInst>(&i)) {
      int w = W(c->getOperand(0)->getType(), i);
      int a = op(c->getOperand(0)), b = op(c->getOperand(1));
      Inst &I = emit(I_ICMP);
      I.w = w; I.sub = c->getPredicate() - CmpInst::FIRST_ICMP_PREDICATE; // EQ NE UGT UGE ULT ULE SGT SGE SLT SLE
      I.dst = slot[&i]; I.a = a; I.b = b;
      return;
    }
    if (auto *c = dyn_cast<FCmpInst>(&i)) {
      int a = op(c->getOperand(0)), b = op(c->getOperand(1));
      Inst &I = emit(I_FCMP);
      I.sub = c->getPredicate(); I.dst = slot[&i]; I.a = a; I.b = b;
      return;
    }
    if (auto *c = dyn_cast<CastInst>(&i)) {
      Type *s = c->getSrcTy(), *d = c->getDestTy();
      int a = op(c->getOperand(0));
      int ws = W(s, i), wd = W(d, i);
      if (s->isFloatingPointTy() || d->isFloatingPointTy()) {
        Inst &I = emit(I_FCAST);
        I.w = ws; I.w2 = wd; I.dst = slot[&i]; I.a = a;
        switch (c->getOpcode()) {
        case Instruction::SIToFP: I.sub = 0; break;
        case Instruction::UIToFP: I.sub = 1; break;
        case Instruction::FPToSI: I.sub = 2; break;
        case Instruction::FPToUI: I.sub = 3; break;
        case Instruction::FPExt: I.sub = 4; break;
        case Instruction::FPTrunc: I.sub = 5; break;
        case Instruction::BitCast: I.sub = 6; break;
        default: unsup(i);
        }
        return;
      }
      Inst &I = emit(I_CAST);
      I.w = ws; I.w2 = wd; I.dst = slot[&i]; I.a = a;
      I.sub = c->getOpcode() == Instruction::SExt ? 2 : ws == wd ? 0 : ws < wd ? 1 : 3;
      return;
    }
    if (auto *s = dyn_cast<SelectInst>(&i)) {
      int n = flatCount(i.getType());
      if (s->getCondition()->getType()->isVectorTy()) unsup(i);
      int c = op(s->getCondition());
      for (int k = 0; k < n; k++) {
        int a = opAgg(s->getTrueValue(), k), b = opAgg(s->getFalseValue(), k);
        Inst &I = emit(I_SEL);
        I.w = n == 1 ? W(i.getType(), i) : 64;
        I.dst = slot[&i] + k; I.a = a; I.b = b; I.c = c;
      }
      return;
    }
    if (auto *l = dyn_cast<LoadInst>(&i)) {
      int a = op(l->getPointerOperand());
      Type *t = l->getType();
      if (t->isAggregateType()) unsup(i);
      Inst &I = emit(I_LOAD);
      I.w = W(t, i); I.w2 = DL->getTypeStoreSize(t); I.dst = slot[&i]; I.a = a;
      return;
    }
    if (auto *l = dyn_cast<StoreInst>(&i)) {
      int a = op(l->getPointerOperand());
      Type *t = l->getValueOperand()->getType();
      if (t->isAggregateType()) unsup(i);
      int b = op(l->getValueOperand());
      Inst &I = emit(I_STORE);
      I.w = W(t, i); I.w2 = DL->getTypeStoreSize(t); I.a = a; I.b = b;
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
      int cur = op(g->getPointerOperand());
      int64_t co = 0;
      vector<std::pair<Value *, uint64_t>> dyn;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value *ix = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull())
          co += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else {
          uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(ix)) co += ci->getSExtValue() * (int64_t)sz;
          else dyn.push_back({ix, sz});
        }
      }
      int d = slot[&i];
      for (auto &p : dyn) {
        int x = op(p.first);
        Inst &I = emit(I_GEPI);
        I.dst = d; I.a = cur; I.b = x; I.w = W(p.first->getType(), i); I.imm = p.second;
        I.t1 = 0;
        cur = d;
      }
      if (dyn.empty() || co) {
        Inst &I = emit(I_GEPC);
        I.dst = d; I.a = cur; I.imm = (uint64_t)co;
      }
      return;
    }
    if (auto *a = dyn_cast<AllocaInst>(&i)) {
      uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType());
      int b = op(a->getArraySize());
      Inst &I = emit(I_ALLOCA);
      I.dst = slot[&i]; I.a = b; I.imm = sz;
      return;
    }
    if (auto *b = dyn_cast<BranchInst>(&i)) {
      if (b->isUnconditional()) {
        emit(I_BR);
        fixes.push_back({fn->code.size() - 1, 1, 0, i.getParent(), b->getSuccessor(0)});
      } else {
        int c = op(b->getCondition());
        Inst &I = emit(I_CBR);
        I.a = c;
        fixes.push_back({fn->code.size() - 1, 1, 0, i.getParent(), b->getSuccessor(0)});
        fixes.push_back({fn->code.size() - 1, 2, 0, i.getParent(), b->getSuccessor(1)});
      }
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(&i)) {
      int c = op(s->getCondition());
      auto *si = new SwitchInfo;
      Inst &I = emit(I_SWITCH);
      I.a = c; I.w = W(s->getCondition()->getType(), i); I.x = si;
      size_t at = fn->code.size() - 1;
      for (auto &cs : s->cases()) {
        si->v.push_back(cs.getCaseValue()->getZExtValue());
        si->t.push_back(0);
        fixes.push_back({at, 3, si->v.size() - 1, i.getParent(), cs.getCaseSuccessor()});
      }
      fixes.push_back({at, 4, 0, i.getParent(), s->getDefaultDest()});
      return;
    }
    if (isa<UnreachableInst>(i)) { emit(I_UNREACH); return; }
    if (auto *r = dyn_cast<ReturnInst>(&i)) {
      auto *v = new vector<int32_t>;
      if (r->getReturnValue()) {
        int n = flatCount(r->getReturnValue()->getType());
        for (int k = 0; k < n; k++) v->push_back(opAgg(r->getReturnValue(), k));
      }
      Inst &I = emit(I_RET);
      I.x = v;
      return;
    }
    if (auto *e = dyn_cast<ExtractValueInst>(&i)) {
      int o = flatIndex(e->getAggregateOperand()->getType(), e->getIndices());
      int n = flatCount(i.getType());
      for (int k = 0; k < n; k++) {
        int a = opAgg(e->getAggregateOperand(), o + k);
        Inst &I = emit(I_MOV);
        I.dst = slot[&i] + k; I.a = a;
      }
      return;
    }
    if (auto *e = dyn_cast<InsertValueInst>(&i)) {
      int o = flatIndex(e->getType(), e->getIndices());
      int n = flatCount(e->getType()), m = flatCount(e->getInsertedValueOperand()->getType());
      for (int k = 0; k < n; k++) {
        int a = k >= o && k < o + m ? opAgg(e->getInsertedValueOperand(), k - o) : opAgg(e->getAggregateOperand(), k);
        Inst &I = emit(I_MOV);
        I.dst = slot[&i] + k; I.a = a;
      }
      return;
    }
    if (isa<FreezeInst>(i)) {
      int a = op(i.getOperand(0));
      Inst &I = emit(I_MOV);
      I.dst = slot[&i]; I.a = a;
      return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(&i)) {
      int a = op(u->getOperand(0));
      Inst &I = emit(I_FNEG);
      I.dst = slot[&i]; I.a = a;
      return;
    }
    if (auto *c = dyn_cast<CallBase>(&i)) {
      if (c->isInlineAsm()) unsup(i);
      auto *ci = new CallInfo;
      const Value *cv = c->getCalledOperand()->stripPointerCasts();
      if (auto *F = dyn_cast<Function>(cv)) {
        if (F->isIntrinsic()) {
          auto id = F->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
              id == Intrinsic::assume || id == Intrinsic::donothing || id == Intrinsic::experimental_noalias_scope_decl)
            return;
        }
        ci->fn = fnFor(F);
      } else ci->callee = op(c->getCalledOperand());
      for (unsigned k = 0; k < c->arg_size(); k++) {
        if (c->getArgOperand(k)->getType()->isMetadataTy()) return;
        ci->args.push_back(op(c->getArgOperand(k)));
        ci->argw.push_back(W(c->getArgOperand(k)->getType(), i));
        ci->byval.push_back(c->isByValArgument(k) ? DL->getTypeAllocSize(c->getParamByValType(k)) : 0);
      }
      ci->nres = flatCount(c->getType());
      int dst = ci->nres ? slot[&i] : -1;
      Inst &I = emit(I_CALL);
      I.dst = dst; I.x = ci;
      I.w = ci->nres == 1 ? W(c->getType(), i) : 64;
      if (auto *II = dyn_cast<IntrinsicInst>(&i)) I.imm = II->getIntrinsicID();
      return;
    }
    unsup(i);
  }
};
static void translate(Fn *f) {
  Tr t;
  t.fn = f;
  t.run();
}
