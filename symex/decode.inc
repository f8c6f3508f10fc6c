// ---------------------------------------------------------------- constants
static FnInfo *getFn(const Function *F) { return fnOf[F]; }
static u64 constBits(const Constant *C, bool &ok);
static Val constVal(const Constant *C, bool &ok) {
  Type *T = C->getType(); TyInfo *t = ty(T);
  if (!t->agg) { u64 b = constBits(C, ok); return {b, 0}; }
  if (t->bad) { ok = false; return {0, 0}; }
  Agg *g = newAgg(t->leaves.size()); unsigned p = 0;
  std::function<void(const Constant *)> go = [&](const Constant *X) {
    TyInfo *xt = ty(X->getType());
    if (!xt->agg) { g->v[p++] = {constBits(X, ok), 0}; return; }
    if (isa<ConstantAggregateZero>(X) || isa<UndefValue>(X)) { p += xt->leaves.size(); return; }
    unsigned n = 0; if (auto st = dyn_cast<StructType>(X->getType())) n = st->getNumElements(); else if (auto at = dyn_cast<ArrayType>(X->getType())) n = at->getNumElements(); else if (auto vt = dyn_cast<FixedVectorType>(X->getType())) n = vt->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = X->getAggregateElement(i); if (!e) { ok = false; return; } go(e); } };
  go(C); return {0, (Expr *)g};
}
static u64 constBits(const Constant *C, bool &ok) {
  if (auto ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) ok = false; return ci->getValue().extractBitsAsZExtValue(64, 0); } return ci->getZExtValue(); }
  if (auto cf = dyn_cast<ConstantFP>(C)) { if (!isFpTy(cf->getType())) { ok = false; return 0; } return cf->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto gv = dyn_cast<GlobalAlias>(C)) return constBits(gv->getAliasee(), ok);
  if (auto gv = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { ok = false; return 0; } return it->second; }
  if (auto ce = dyn_cast<ConstantExpr>(C)) {
    unsigned w = ty(C->getType())->w;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { ok = false; return 0; } return constBits(ce->getOperand(0), ok) + off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: return constBits(ce->getOperand(0), ok) & maskw(w);
      case Instruction::SExt: return (u64)sx(constBits(ce->getOperand(0), ok), ty(ce->getOperand(0)->getType())->w) & maskw(w);
      case Instruction::Add: return (constBits(ce->getOperand(0), ok) + constBits(ce->getOperand(1), ok)) & maskw(w);
      case Instruction::Sub: return (constBits(ce->getOperand(0), ok) - constBits(ce->getOperand(1), ok)) & maskw(w);
      case Instruction::ICmp: { u64 a = constBits(ce->getOperand(0), ok), b = constBits(ce->getOperand(1), ok); auto p = ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; if (p == CmpInst::ICMP_ULT) return a < b; ok = false; return 0; }
      default: break;
    }
    if (Constant *f = ConstantFoldConstant(ce, *DL)) if (f != C) return constBits(f, ok);
  }
  ok = false; return 0;
}
static void writeConst(u64 a, const Constant *C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { memset((void *)a, 0, ty(C->getType())->size); return; }
  if (auto cda = dyn_cast<ConstantDataArray>(C)) { StringRef r = cda->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
  Type *T = C->getType();
  if (auto st = dyn_cast<StructType>(T)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(a + (u64)sl->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto at = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) writeConst(a + i * es, C->getAggregateElement(i)); return; }
  if (auto vt = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) writeConst(a + i * es, C->getAggregateElement(i)); return; }
  bool ok = true; u64 b = constBits(C, ok); if (!ok && optVerbose) { errs() << "symex: unsupported constant initialiser " << *C << "\n"; }
  TyInfo *t = ty(T); if (t->size <= 8) memcpy((void *)a, &b, t->size); else { memset((void *)a, 0, t->size); memcpy((void *)a, &b, 8); }
}
static void layoutGlobals() {
  u64 ca = ABASE + C_OFF + 4096;
  for (Function &F : *M) {
    FnInfo *fi = new FnInfo(); fi->F = &F; fi->idx = fns.size(); fi->addr = ca; fi->decoded = false; fi->model = 0; fi->native = 0; fi->resolved = false; fi->name = F.getName().str(); fi->nregs = 0; fi->nativeMode = 0;
    ca += 16; fns.push_back(fi); fnOf[&F] = fi; fnByAddr[fi->addr] = fi; gaddr[&F] = fi->addr;
  }
  std::vector<GlobalVariable *> init;
  for (GlobalVariable &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    if (G.isDeclaration()) {
      void *p = dlsym(RTLD_DEFAULT, G.getName().str().c_str());
      if (p) { gaddr[&G] = (u64)p; continue; }
      u64 a = allocFrom(gTop, 16, 16); poison(a, 16); gaddr[&G] = a; if (optVerbose) fprintf(stderr, "symex: unresolved global %s\n", G.getName().str().c_str()); continue;
    }
    u64 sz = DL->getTypeAllocSize(G.getValueType()); u64 al = G.getAlign() ? G.getAlign()->value() : 16;
    u64 a = allocFrom(G.isConstant() ? roTop : gTop, sz, al); gaddr[&G] = a; objs[a] = {a, sz, 'g', false, 0}; init.push_back(&G);
  }
  for (GlobalVariable *G : init) if (G->hasInitializer()) writeConst(gaddr[G], G->getInitializer());
}

// ---------------------------------------------------------------- function decoding
static std::unordered_map<std::string, ModelFn> models;
struct Dec {
  FnInfo *fi; std::unordered_map<const Value *, int> rmap; std::unordered_map<const BasicBlock *, int> bbpc; std::unordered_map<const Constant *, int> cmap; bool bad = false;
  std::vector<std::pair<int, std::pair<const BasicBlock *, const BasicBlock *>>> fix; // edge idx -> (from,to)
  int op(const Value *V) {
    if (auto C = dyn_cast<Constant>(V)) { auto it = cmap.find(C); if (it != cmap.end()) return it->second; bool ok = true; Val v = constVal(C, ok); if (!ok) { bad = true; } fi->consts.push_back(v); int i = -(int)fi->consts.size(); cmap[C] = i; return i; }
    auto it = rmap.find(V); if (it != rmap.end()) return it->second;
    if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V) || isa<InlineAsm>(V)) return -1;
    bad = true; return 0;
  }
  int edge(const BasicBlock *f, const BasicBlock *t) { fi->edges.push_back({-1, {}}); fix.push_back({(int)fi->edges.size() - 1, {f, t}}); return fi->edges.size() - 1; }
  void run() {
    Function &F = *fi->F; int n = 0; for (Argument &A : F.args()) rmap[&A] = n++;
    for (BasicBlock &B : F) for (Instruction &I : B) if (!I.getType()->isVoidTy()) rmap[&I] = n++;
    fi->nregs = n; fi->consts.push_back({0, 0});
    for (Argument &A : F.args()) fi->byval.push_back(A.hasByValAttr() ? (u64)DL->getTypeAllocSize(A.getParamByValType()) : 0);
    for (BasicBlock &B : F) { bbpc[&B] = fi->code.size(); for (Instruction &I : B) if (!isa<PHINode>(I)) inst(I); }
    for (auto &fx : fix) { Edge &e = fi->edges[fx.first]; e.pc = bbpc[fx.second.second];
      for (PHINode &ph : const_cast<BasicBlock *>(fx.second.second)->phis()) { bad = false; int s = op(ph.getIncomingValueForBlock(fx.second.first)); e.moves.push_back({rmap[&ph], s}); } }
    fi->decoded = true;
  }
  void inst(Instruction &I) {
    DI d; memset(&d, 0, sizeof d); d.dst = I.getType()->isVoidTy() ? -1 : rmap[&I]; bad = false; TyInfo *t = ty(I.getType());
    auto unsup = [&]() { d.op = D_UNSUP; std::string s; raw_string_ostream os(s); os << I; d.aux = strdup(os.str().c_str()); };
    size_t e0 = fi->edges.size();
    if (auto b = dyn_cast<BinaryOperator>(&I)) {
      d.op = D_BIN; d.w = t->w; d.a = op(b->getOperand(0)); d.b = op(b->getOperand(1)); bool fp = isFpTy(I.getType()); (void)fp; Op o = O_CONST;
      switch (b->getOpcode()) { case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break; case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SRem: o = O_SREM; break;
        case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break; case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
        case Instruction::FAdd: o = O_FADD; break; case Instruction::FSub: o = O_FSUB; break; case Instruction::FMul: o = O_FMUL; break; case Instruction::FDiv: o = O_FDIV; break; case Instruction::FRem: o = O_FREM; break; default: break; }
      d.c = o; if (t->agg || t->bad || !t->w || (o >= O_FADD && !fp)) { unsup(); }
    } else if (auto c = dyn_cast<ICmpInst>(&I)) {
      d.op = D_CMP; TyInfo *ot = ty(c->getOperand(0)->getType()); d.w = ot->w; d.c = c->getPredicate(); d.a = op(c->getOperand(0)); d.b = op(c->getOperand(1)); if (ot->agg || ot->bad) unsup();
    } else if (auto c = dyn_cast<FCmpInst>(&I)) {
      d.op = D_FCMP; TyInfo *ot = ty(c->getOperand(0)->getType()); d.w = ot->w; d.c = c->getPredicate(); d.a = op(c->getOperand(0)); d.b = op(c->getOperand(1)); if (ot->agg || ot->bad) unsup();
    } else if (auto l = dyn_cast<LoadInst>(&I)) { d.op = D_LOAD; d.a = op(l->getPointerOperand()); d.aux = t; if (t->bad) unsup(); else if (!t->agg) { d.w = t->w; d.w2 = t->leaves[0].size; } else d.w = 0;
    } else if (auto s = dyn_cast<StoreInst>(&I)) { TyInfo *vt = ty(s->getValueOperand()->getType()); d.op = D_STORE; d.a = op(s->getPointerOperand()); d.b = op(s->getValueOperand()); d.aux = vt; if (vt->bad) unsup(); else if (!vt->agg) { d.w = vt->w; d.w2 = vt->leaves[0].size; } else d.w = 0;
    } else if (auto g = dyn_cast<GetElementPtrInst>(&I)) {
      d.op = D_GEP; GepI *gi = new GepI(); gi->cofs = 0; d.a = op(g->getPointerOperand()); d.aux = gi; if (g->getType()->isVectorTy()) unsup();
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *x = it.getOperand();
        if (auto st = it.getStructTypeOrNull()) { gi->cofs += (i64)(u64)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(x)->getZExtValue()); continue; }
        i64 es = DL->getTypeAllocSize(it.getIndexedType());
        if (auto ci = dyn_cast<ConstantInt>(x)) gi->cofs += ci->getSExtValue() * es; else gi->var.push_back({op(x), es, ty(x->getType())->w}); }
    } else if (auto s = dyn_cast<SelectInst>(&I)) { d.op = D_SELECT; d.a = op(s->getCondition()); d.b = op(s->getTrueValue()); d.c = op(s->getFalseValue()); d.w = t->agg ? 0 : t->w; d.w2 = I.getType()->isPointerTy() || t->agg; if (s->getCondition()->getType()->isVectorTy()) unsup();
    } else if (auto b = dyn_cast<BranchInst>(&I)) {
      if (b->isUnconditional()) { d.op = D_BR; d.a = edge(I.getParent(), b->getSuccessor(0)); }
      else { d.op = D_CBR; d.a = op(b->getCondition()); d.b = edge(I.getParent(), b->getSuccessor(0)); d.c = edge(I.getParent(), b->getSuccessor(1)); }
    } else if (auto s = dyn_cast<SwitchInst>(&I)) { d.op = D_SWITCH; d.a = op(s->getCondition()); d.w = ty(s->getCondition()->getType())->w; SwI *si = new SwI(); si->def = edge(I.getParent(), s->getDefaultDest()); for (auto &cs : s->cases()) si->cases.push_back({cs.getCaseValue()->getZExtValue(), edge(I.getParent(), cs.getCaseSuccessor())}); d.aux = si;
    } else if (auto r = dyn_cast<ReturnInst>(&I)) { d.op = D_RET; d.a = 0; d.b = 0; if (r->getReturnValue()) { d.a = op(r->getReturnValue()); d.b = 1; }
    } else if (isa<UnreachableInst>(I)) { d.op = D_UNREACH;
    } else if (auto a = dyn_cast<AllocaInst>(&I)) { d.op = D_ALLOCA; d.imm = DL->getTypeAllocSize(a->getAllocatedType()); d.a = op(a->getArraySize()); d.b = a->getAlign().value(); d.w = ty(a->getArraySize()->getType())->w;
    } else if (auto e = dyn_cast<ExtractValueInst>(&I)) { Type *rt; d.op = D_EXTRACT; d.a = op(e->getAggregateOperand()); d.imm = leafIndex(e->getAggregateOperand()->getType(), e->getIndices(), rt); d.b = ty(rt)->agg ? (int)ty(rt)->leaves.size() : -1;
    } else if (auto e = dyn_cast<InsertValueInst>(&I)) { Type *rt; d.op = D_INSERT; d.a = op(e->getAggregateOperand()); d.b = op(e->getInsertedValueOperand()); d.imm = leafIndex(e->getAggregateOperand()->getType(), e->getIndices(), rt); d.c = ty(rt)->agg ? (int)ty(rt)->leaves.size() : -1;
    } else if (auto c = dyn_cast<CastInst>(&I)) { TyInfo *st = ty(c->getSrcTy()); d.op = D_CAST; d.a = op(c->getOperand(0)); d.w = t->w; d.w2 = st->w; d.c = c->getOpcode(); if (t->bad || st->bad || t->agg != st->agg || (t->agg)) unsup();
    } else if (isa<FreezeInst>(I)) { d.op = D_COPY; d.a = op(I.getOperand(0));
    } else if (auto u = dyn_cast<UnaryOperator>(&I)) { d.op = D_FNEG; d.a = op(u->getOperand(0)); d.w = t->w; if (t->agg) unsup();
    } else if (auto cb = dyn_cast<CallBase>(&I)) {
      CallI *ci = new CallI(); ci->F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); ci->iname = 0; ci->iid = 0; ci->fop = -1; ci->normal = ci->unwind = -1; ci->isVar = cb->getFunctionType()->isVarArg();
      if (auto ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) ci->F = dyn_cast<Function>(ga->getAliaseeObject());
      if (cb->isInlineAsm()) { auto ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() && I.getType()->isVoidTy()) { return; } unsup(); fi->code.push_back(d); return; }
      if (!ci->F) ci->fop = op(cb->getCalledOperand());
      if (ci->F && ci->F->isIntrinsic()) { ci->iid = ci->F->getIntrinsicID(); switch (ci->iid) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: return; default: break; } }
      unsigned ai = 0; for (auto &A : cb->args()) { if (A->getType()->isMetadataTy()) { ai++; continue; } ci->args.push_back(op(A)); ci->at.push_back(ty(A->getType())); ci->isFp.push_back(isFpTy(A->getType())); ci->byval.push_back(cb->isByValArgument(ai) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(ai)) : 0); ai++; }
      ci->rt = t; ci->rFp = isFpTy(I.getType());
      if (auto iv = dyn_cast<InvokeInst>(&I)) { ci->normal = edge(I.getParent(), iv->getNormalDest()); ci->unwind = edge(I.getParent(), iv->getUnwindDest()); }
      d.op = D_CALL; d.aux = ci;
    } else if (auto lp = dyn_cast<LandingPadInst>(&I)) { d.op = D_LPAD; LpI *li = new LpI(); li->cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) li->clauses.push_back({lp->isCatch(i) ? 0 : 1, lp->isCatch(i) ? op(lp->getClause(i)) : 0}); d.aux = li;
    } else if (isa<ResumeInst>(I)) { d.op = D_RESUME; d.a = op(I.getOperand(0));
    } else if (isa<VAArgInst>(I)) { d.op = D_VAARG; d.a = op(I.getOperand(0)); d.w = t->w; d.w2 = isFpTy(I.getType()); d.aux = t;
    } else if (auto rm = dyn_cast<AtomicRMWInst>(&I)) { d.op = D_ATOMICRMW; d.a = op(rm->getPointerOperand()); d.b = op(rm->getValOperand()); d.w = t->w; d.w2 = t->leaves.empty() ? 8 : t->leaves[0].size; d.c = rm->getOperation();
    } else if (auto cx = dyn_cast<AtomicCmpXchgInst>(&I)) { d.op = D_CMPXCHG; d.a = op(cx->getPointerOperand()); d.b = op(cx->getCompareOperand()); d.c = op(cx->getNewValOperand()); d.w = ty(cx->getCompareOperand()->getType())->w; d.w2 = ty(cx->getCompareOperand()->getType())->leaves[0].size;
    } else if (isa<FenceInst>(I)) { return;
    } else unsup();
    if (bad && d.op != D_UNSUP) { for (size_t q = e0; q < fi->edges.size(); q++) {} unsup(); }
    fi->code.push_back(d);
  }
};
