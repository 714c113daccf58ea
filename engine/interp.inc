// ---- compile LLVM functions to a compact form, interpret, intrinsics, scheduler, driver (included by symx.cpp)

static void leaves(Type *T, uint64_t off, std::vector<std::pair<unsigned, uint64_t>> &out) {
  if (T->isIntegerTy()) { out.push_back({T->getIntegerBitWidth(), off}); return; }
  if (T->isPointerTy()) { out.push_back({64, off}); return; }
  if (T->isFloatTy()) { out.push_back({32, off}); return; }
  if (T->isDoubleTy()) { out.push_back({64, off}); return; }
  if (auto *ST = dyn_cast<StructType>(T)) { const StructLayout *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) leaves(ST->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(AT->getElementType()); for (uint64_t i = 0; i < AT->getNumElements(); i++) leaves(AT->getElementType(), off + i * es, out); return; }
  if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy()) return;
  out.push_back({999, off});
}
static bool badLeaves(const std::vector<std::pair<unsigned, uint64_t>> &l) { for (auto &p : l) if (p.first > 64) return true; return false; }

static Val constVal(const Constant *C); // scalar
static uint64_t gepConst(const GEPOperator *G, uint64_t base) { APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) fatal("non-constant constant GEP"); return base + off.getSExtValue(); }
static uint64_t globalAddr(const GlobalValue *G) {
  if (auto *A = dyn_cast<GlobalAlias>(G)) return constVal(A->getAliasee()).c;
  if (auto *F = dyn_cast<Function>(G)) return getK(F)->addr;
  auto it = gaddr.find(cast<GlobalVariable>(G)); if (it == gaddr.end()) fatal("no address for global " + G->getName().str()); return it->second;
}
static Val constVal(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) return VC(I->getBitWidth() <= 64 ? I->getZExtValue() : 0);
  if (auto *F = dyn_cast<ConstantFP>(C)) return VC(F->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return VC(0);
  if (auto *G = dyn_cast<GlobalValue>(C)) return VC(globalAddr(G));
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    unsigned w = E->getType()->isPointerTy() ? 64 : E->getType()->getScalarSizeInBits();
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: return VC(gepConst(cast<GEPOperator>(E), constVal(E->getOperand(0)).c));
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::ZExt: return VC(constVal(E->getOperand(0)).c & maskw(w));
    case Instruction::Trunc: return VC(constVal(E->getOperand(0)).c & maskw(w));
    case Instruction::Add: return VC((constVal(E->getOperand(0)).c + constVal(E->getOperand(1)).c) & maskw(w));
    case Instruction::Sub: return VC((constVal(E->getOperand(0)).c - constVal(E->getOperand(1)).c) & maskw(w));
    case Instruction::And: return VC(constVal(E->getOperand(0)).c & constVal(E->getOperand(1)).c);
    case Instruction::ICmp: { uint64_t a = constVal(E->getOperand(0)).c, b = constVal(E->getOperand(1)).c; return VC(E->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b); }
    default: fatal(std::string("unsupported constant expression ") + E->getOpcodeName());
    }
  }
  if (isa<ConstantTokenNone>(C) || isa<BlockAddress>(C)) return VC(0);
  fatal("unsupported constant");
}
static void constLeaves(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (T->isStructTy() || T->isArrayTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) constLeaves(C->getAggregateElement(i), out);
  } else if (!T->isVoidTy() && !T->isMetadataTy() && !T->isVectorTy()) out.push_back(constVal(C));
  else out.push_back(VC(0));
}
static void writeInit(Obj *o, uint64_t off, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = D->getRawDataValues(); for (uint64_t i = 0; i < r.size(); i++) { Chunk *c = ownChunk(o, (off + i) / CHUNK); c->data[(off + i) % CHUNK] = r[i]; } return;
  }
  if (auto *ST = dyn_cast<StructType>(T)) { const StructLayout *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) writeInit(o, off + L->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(AT->getElementType()); for (uint64_t i = 0; i < AT->getNumElements(); i++) writeInit(o, off + i * es, C->getAggregateElement(i)); return; }
  uint64_t n = DL->getTypeStoreSize(T), v = constVal(C).c; for (uint64_t i = 0; i < n; i++) { Chunk *c = ownChunk(o, (off + i) / CHUNK); c->data[(off + i) % CHUNK] = i < 8 ? v >> (8 * i) : 0; }
}

static std::unordered_map<std::string, uint16_t> builtinNames = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETEARR}, {"_ZdaPvm", B_DELETEARR},
  {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR}, {"_ZdlPvRKSt9nothrow_t", B_DELETE},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR},
  {"__cxa_throw", B_CXA_THROW}, {"__cxa_allocate_exception", B_CXA_ALLOC_EXC}, {"__cxa_begin_catch", B_CXA_BEGIN_CATCH}, {"__cxa_end_catch", B_CXA_END_CATCH}, {"__cxa_rethrow", B_CXA_RETHROW},
  {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_ABORT}, {"__cxa_pure_virtual", B_PURE}, {"exit", B_ABORT}, {"_exit", B_ABORT}, {"raise", B_ABORT}, {"__assert_fail", B_ABORT},
  {"sx_symbolic", X_SYMBOLIC}, {"sx_u8", X_U8}, {"sx_u16", X_U16}, {"sx_u32", X_U32}, {"sx_u64", X_U64}, {"sx_range", X_RANGE}, {"sx_choose", X_CHOOSE}, {"sx_concretize", X_CONCRETIZE}, {"sx_assume", X_ASSUME}, {"sx_check", X_CHECK},
  {"sx_fail", X_FAIL}, {"sx_cover", X_COVER}, {"sx_note", X_NOTE}, {"sx_notev", X_NOTEV}, {"sx_param", X_PARAM}, {"sx_thread_create", X_THREAD_CREATE}, {"sx_self", X_SELF}, {"sx_block", X_BLOCK}, {"sx_wake", X_WAKE}, {"sx_sleep", X_SLEEP}, {"sx_sched", X_SCHED},
  {"sx_hb_acquire", X_HB_ACQ}, {"sx_hb_release", X_HB_REL}, {"sx_heap_live", X_HEAP_LIVE}, {"sx_leaks", X_LEAKS}, {"sx_in_repo", X_IN_REPO}, {"sx_threads_live", X_THREADS_LIVE}, {"sx_is_freed", X_IS_FREED},
  {"sx_race", X_RACEON}, {"sx_preempt", X_PREEMPT}, {"sx_end", X_END}, {"sx_is_symbolic", X_IS_SYM}, {"sx_maybe", X_MAYBE}, {"sx_blocked_on", X_BLOCKED_ON}
};
static uint16_t intrinsicFor(const Function *F) {
  std::string n = F->getName().str();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return I_MEMCPY; case Intrinsic::memmove: return I_MEMMOVE; case Intrinsic::memset: case Intrinsic::memset_inline: return I_MEMSET;
    case Intrinsic::umin: return I_UMIN; case Intrinsic::umax: return I_UMAX; case Intrinsic::smin: return I_SMIN; case Intrinsic::smax: return I_SMAX; case Intrinsic::abs: return I_ABS;
    case Intrinsic::bswap: return I_BSWAP; case Intrinsic::ctpop: return I_CTPOP; case Intrinsic::ctlz: return I_CTLZ; case Intrinsic::cttz: return I_CTTZ; case Intrinsic::fshl: return I_FSHL; case Intrinsic::fshr: return I_FSHR;
    case Intrinsic::uadd_with_overflow: return I_UADDO; case Intrinsic::usub_with_overflow: return I_USUBO; case Intrinsic::umul_with_overflow: return I_UMULO;
    case Intrinsic::sadd_with_overflow: return I_SADDO; case Intrinsic::ssub_with_overflow: return I_SSUBO; case Intrinsic::smul_with_overflow: return I_SMULO;
    case Intrinsic::usub_sat: return I_USUBSAT; case Intrinsic::uadd_sat: return I_UADDSAT; case Intrinsic::objectsize: return I_OBJSIZE; case Intrinsic::is_constant: return I_ISCONST;
    case Intrinsic::eh_typeid_for: return I_TYPEIDFOR; case Intrinsic::threadlocal_address: return I_TLSADDR; case Intrinsic::expect: case Intrinsic::expect_with_probability: return I_EXPECT;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return I_IDENT; case Intrinsic::ptrmask: return I_PTRMASK; case Intrinsic::bitreverse: return I_BITREV;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return I_TRAP; case Intrinsic::stacksave: return I_STACKSAVE;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::annotation: case Intrinsic::var_annotation: case Intrinsic::dbg_assign: return I_NOP;
    default: return 0;
    }
  }
  if (F->getLinkage() == GlobalValue::ExternalLinkage && n.compare(0, 9, "_ZSt") == 0) {}
  auto it = builtinNames.find(n); if (it != builtinNames.end()) return it->second;
  if (n.compare(0, 12, "_ZSt20__throw") == 0 || n.find("__throw_") != std::string::npos) return B_THROWSTD;
  return 0;
}
static KFunc *getK(const Function *F) {
  auto it = kfuncs.find(F); if (it != kfuncs.end()) return it->second;
  KFunc *k = new KFunc(); k->F = const_cast<Function *>(F); k->name = F->getName().str(); k->external = F->isDeclaration();
  if (F->hasFnAttribute("sx-support")) k->origin = 2; else if (F->hasFnAttribute("sx-repo")) k->origin = 1;
  kfuncs[F] = k;
  if (k->external) k->intr = intrinsicFor(F);
  return k;
}
static KFunc *resolveFn(KFunc *k) { // m_ redirection of undefined externals
  if (!k->external || k->intr) return k;
  if (Function *M = Mod->getFunction("m_" + k->name)) if (!M->isDeclaration()) return getK(M);
  return k;
}
static Opd constOpd(Val v) { auto it = constIdx.find(v.c); if (it != constIdx.end()) return ~it->second; constPool.push_back(v); constIdx[v.c] = constPool.size() - 1; return ~(int)(constPool.size() - 1); }

static void compile(KFunc *k) {
  if (k->compiled) return; k->compiled = true; Function *F = k->F;
  std::unordered_map<const Value *, int> reg; std::unordered_map<const Value *, int> nl; std::unordered_map<const BasicBlock *, int> bbStart;
  auto leafOf = [&](Type *T) { std::vector<std::pair<unsigned, uint64_t>> l; leaves(T, 0, l); return l; };
  auto allocReg = [&](const Value *V) { auto l = leafOf(V->getType()); if (l.empty()) return -1; int r = k->nregs; k->nregs += l.size(); reg[V] = r; nl[V] = l.size(); return r; };
  for (auto &A : F->args()) { auto l = leafOf(A.getType()); int r = allocReg(&A); for (size_t i = 0; i < l.size(); i++) { k->argRegs.push_back(r + i); k->argW.push_back(l[i].first); } }
  for (auto &BB : *F) for (auto &I : BB) if (!I.getType()->isVoidTy()) allocReg(&I);
  auto opd = [&](const Value *V, unsigned leaf = 0) -> Opd {
    if (auto *C = dyn_cast<Constant>(V)) { if (C->getType()->isStructTy() || C->getType()->isArrayTy()) { std::vector<Val> l; constLeaves(C, l); return constOpd(l[leaf]); } if (C->getType()->isVectorTy()) return constOpd(VC(0)); return constOpd(constVal(C)); }
    auto it = reg.find(V); if (it == reg.end()) return constOpd(VC(0)); return it->second + leaf;
  };
  auto width = [&](Type *T) -> unsigned { auto l = leafOf(T); return l.empty() ? 0 : l[0].first; };
  // positions: number instructions (phis produce none)
  int pos = 0; for (auto &BB : *F) { bbStart[&BB] = pos; for (auto &I : BB) if (!isa<PHINode>(I)) pos++; }
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.target = bbStart[to];
    for (auto &P : to->phis()) { auto l = leafOf(P.getType()); const Value *in = P.getIncomingValueForBlock(from); for (size_t i = 0; i < l.size(); i++) e.copies.push_back({reg[&P] + (int)i, opd(in, i)}); } return e; };
  for (auto &BB : *F) for (auto &I : BB) {
    if (isa<PHINode>(I)) continue;
    Inst K; K.op = K_UNSUP; K.sub = 0; K.w = K.w2 = 0; K.intr = 0; K.dst = -1; K.ndst = 0; K.a = K.b = K.c = 0; K.callee = nullptr; K.isInvoke = false; K.atomic = K.ordAcq = K.ordRel = false; K.size = 0; K.cleanup = false; K.src = &I; K.gepOff = 0; K.noHalt = false;
    K.site = siteInst.size(); siteInst.push_back(&I);
    auto dl = leafOf(I.getType()); if (!dl.empty()) { K.dst = reg[&I]; K.ndst = dl.size(); }
    bool bad = badLeaves(dl); for (auto &O : I.operands()) if (!isa<BasicBlock>(O) && !isa<Function>(O) && !isa<MetadataAsValue>(O) && badLeaves(leafOf(O->getType()))) bad = true;
    if (bad && !(isa<CallInst>(I) && cast<CallInst>(I).getCalledFunction() && cast<CallInst>(I).getCalledFunction()->isIntrinsic())) { k->code.push_back(K); continue; }
    unsigned w = dl.empty() ? 0 : dl[0].first;
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      static std::map<unsigned, uint8_t> M = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
      K.op = K_BIN; K.sub = M[I.getOpcode()]; K.w = w; K.a = opd(I.getOperand(0)); K.b = opd(I.getOperand(1)); break; }
    case Instruction::ICmp: {
      auto &C = cast<ICmpInst>(I); K.op = K_ICMP; K.sub = C.getPredicate(); K.w = width(C.getOperand(0)->getType()); K.a = opd(C.getOperand(0)); K.b = opd(C.getOperand(1)); break; }
    case Instruction::FCmp: K.op = K_FCMP; K.sub = cast<FCmpInst>(I).getPredicate(); K.w = width(I.getOperand(0)->getType()); K.a = opd(I.getOperand(0)); K.b = opd(I.getOperand(1)); break;
    case Instruction::FNeg: K.op = K_FBIN; K.sub = Instruction::FSub; K.w = w; K.a = constOpd(VC(w == 32 ? 0x80000000ull : 0x8000000000000000ull)); K.b = opd(I.getOperand(0)); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: K.op = K_FBIN; K.sub = I.getOpcode(); K.w = w; K.a = opd(I.getOperand(0)); K.b = opd(I.getOperand(1)); break;
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: K.op = K_FCAST; K.sub = I.getOpcode(); K.w = w; K.w2 = width(I.getOperand(0)->getType()); K.a = opd(I.getOperand(0)); break;
    case Instruction::Select: K.op = K_SELECT; K.a = opd(I.getOperand(0)); for (size_t i = 0; i < dl.size(); i++) { K.ops.push_back(opd(I.getOperand(1), i)); K.ops.push_back(opd(I.getOperand(2), i)); K.lw.push_back(dl[i].first); } break;
    case Instruction::Trunc: K.op = K_CAST_TRUNC; K.w = w; K.a = opd(I.getOperand(0)); break;
    case Instruction::ZExt: K.op = K_CAST_ZEXT; K.w = w; K.w2 = width(I.getOperand(0)->getType()); K.a = opd(I.getOperand(0)); break;
    case Instruction::SExt: K.op = K_CAST_SEXT; K.w = w; K.w2 = width(I.getOperand(0)->getType()); K.a = opd(I.getOperand(0)); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned sw = width(I.getOperand(0)->getType()); K.w = w; K.w2 = sw; K.op = sw > w ? K_CAST_TRUNC : sw < w ? K_CAST_ZEXT : K_COPY; K.a = opd(I.getOperand(0)); if (K.op == K_COPY) K.ops.push_back(K.a); break; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: K.op = K_COPY; for (size_t i = 0; i < dl.size(); i++) K.ops.push_back(opd(I.getOperand(0), i)); break;
    case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); Type *T = E.getAggregateOperand()->getType(); unsigned idx = 0;
      for (unsigned x : E.indices()) { for (unsigned j = 0; j < x; j++) { Type *ET = T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType(); idx += leafOf(ET).size(); } T = T->isStructTy() ? T->getStructElementType(x) : T->getArrayElementType(); }
      K.op = K_COPY; for (size_t i = 0; i < dl.size(); i++) K.ops.push_back(opd(E.getAggregateOperand(), idx + i)); break; }
    case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); Type *T = E.getType(); unsigned idx = 0;
      for (unsigned x : E.indices()) { for (unsigned j = 0; j < x; j++) { Type *ET = T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType(); idx += leafOf(ET).size(); } T = T->isStructTy() ? T->getStructElementType(x) : T->getArrayElementType(); }
      size_t n = leafOf(T).size(); K.op = K_COPY; for (size_t i = 0; i < dl.size(); i++) K.ops.push_back(i >= idx && i < idx + n ? opd(E.getInsertedValueOperand(), i - idx) : opd(E.getAggregateOperand(), i)); break; }
    case Instruction::Load: { auto &L = cast<LoadInst>(I); K.op = K_LOAD; K.a = opd(L.getPointerOperand()); for (auto &p : dl) { K.lw.push_back(p.first); K.loff.push_back(p.second); } K.atomic = L.isAtomic(); K.ordAcq = L.isAtomic() && isAcquireOrStronger(L.getOrdering()); K.size = DL->getTypeStoreSize(L.getType()); break; }
    case Instruction::Store: { auto &L = cast<StoreInst>(I); K.op = K_STORE; K.a = opd(L.getPointerOperand()); auto vl = leafOf(L.getValueOperand()->getType()); for (size_t i = 0; i < vl.size(); i++) { K.ops.push_back(opd(L.getValueOperand(), i)); K.lw.push_back(vl[i].first); K.loff.push_back(vl[i].second); } K.atomic = L.isAtomic(); K.ordRel = L.isAtomic() && isReleaseOrStronger(L.getOrdering()); K.size = DL->getTypeStoreSize(L.getValueOperand()->getType()); break; }
    case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); K.op = K_ALLOCA; K.size = DL->getTypeAllocSize(A.getAllocatedType()); K.a = opd(A.getArraySize()); break; }
    case Instruction::GetElementPtr: { auto *G = cast<GEPOperator>(&I); K.op = K_GEP; K.a = opd(G->getPointerOperand());
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { Value *ix = it.getOperand();
        if (StructType *ST = it.getStructTypeOrNull()) K.gepOff += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else { int64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *CI = dyn_cast<ConstantInt>(ix)) K.gepOff += CI->getSExtValue() * sz; else { K.gepIdx.push_back({opd(ix), sz}); K.gepW.push_back(width(ix->getType())); } } }
      break; }
    case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isUnconditional()) { K.op = K_BR; K.edges.push_back(mkEdge(&BB, B.getSuccessor(0))); } else { K.op = K_CBR; K.a = opd(B.getCondition()); K.edges.push_back(mkEdge(&BB, B.getSuccessor(0))); K.edges.push_back(mkEdge(&BB, B.getSuccessor(1))); } break; }
    case Instruction::Switch: { auto &W = cast<SwitchInst>(I); K.op = K_SWITCH; K.a = opd(W.getCondition()); K.w = width(W.getCondition()->getType()); K.edges.push_back(mkEdge(&BB, W.getDefaultDest())); for (auto &c : W.cases()) { K.cases.push_back(c.getCaseValue()->getZExtValue()); K.edges.push_back(mkEdge(&BB, c.getCaseSuccessor())); } break; }
    case Instruction::Ret: { auto &R = cast<ReturnInst>(I); K.op = K_RET; if (R.getReturnValue()) { auto l = leafOf(R.getReturnValue()->getType()); for (size_t i = 0; i < l.size(); i++) K.ops.push_back(opd(R.getReturnValue(), i)); } break; }
    case Instruction::Unreachable: K.op = K_UNREACH; break;
    case Instruction::Resume: K.op = K_RESUME; K.a = opd(I.getOperand(0), 0); K.b = opd(I.getOperand(0), 1); break;
    case Instruction::LandingPad: { auto &P = cast<LandingPadInst>(I); K.op = K_LANDINGPAD; break; (void)P; }
    case Instruction::Fence: K.op = K_FENCE; break;
    case Instruction::AtomicRMW: { auto &R = cast<AtomicRMWInst>(I); K.op = K_RMW; K.sub = R.getOperation(); K.w = w; K.a = opd(R.getPointerOperand()); K.b = opd(R.getValOperand()); break; }
    case Instruction::AtomicCmpXchg: { auto &R = cast<AtomicCmpXchgInst>(I); K.op = K_CMPXCHG; K.w = dl[0].first; K.a = opd(R.getPointerOperand()); K.b = opd(R.getCompareOperand()); K.c = opd(R.getNewValOperand()); break; }
    case Instruction::Call: case Instruction::Invoke: {
      auto &C = cast<CallBase>(I); K.op = K_CALL; K.isInvoke = isa<InvokeInst>(I);
      if (C.isInlineAsm()) { K.op = K_NOP; break; }
      Value *cv = C.getCalledOperand()->stripPointerCasts(); if (auto *A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliaseeObject();
      if (auto *CF = dyn_cast<Function>(cv)) { K.callee = resolveFn(getK(CF)); K.intr = K.callee->external ? K.callee->intr : 0; if (K.callee->external && CF->isIntrinsic() && !K.intr) { k->code.push_back(K); k->code.back().op = K_UNSUP; continue; } }
      else K.a = opd(C.getCalledOperand());
      int p = 0;
      for (unsigned i = 0; i < C.arg_size(); i++) { Value *A = C.getArgOperand(i); if (A->getType()->isMetadataTy()) { continue; } auto l = leafOf(A->getType()); if (C.isByValArgument(i)) K.byval.push_back({p, DL->getTypeAllocSize(C.getParamByValType(i))}); for (size_t j = 0; j < l.size(); j++) { K.ops.push_back(opd(A, j)); K.lw.push_back(l[j].first); p++; } }
      if (K.isInvoke) { auto &V = cast<InvokeInst>(I); K.edges.push_back(mkEdge(&BB, V.getNormalDest())); K.edges.push_back(mkEdge(&BB, V.getUnwindDest())); auto *LP = V.getLandingPadInst(); K.cleanup = LP->isCleanup(); for (unsigned i = 0; i < LP->getNumClauses(); i++) K.clauses.push_back(LP->isCatch(i) ? (int64_t)constVal(LP->getClause(i)).c : -1); }
      if (K.intr == I_NOP) { K.op = K.isInvoke ? K_CALL : K_NOP; }
      if (K.intr == I_TLSADDR) { K.clauses.clear(); K.size = (uint64_t)(uintptr_t)dyn_cast<GlobalVariable>(C.getArgOperand(0)); }
      if (K.intr) K.w = w;
      break; }
    default: break;
    }
    k->code.push_back(std::move(K));
  }
}

// ---------------------------------------------------------------- scheduler
static void setRun(State &s, int t) { s.th[t].status = T_RUN; }
static void logSched(State &s, int t) { s.log = new LNode{"", (uint64_t)t, 1, 0, 0, s.log}; s.nsched++; }
static int replayPick(State &s, const std::vector<int> &c) { if (s.replaySchedPos < replaySched.size()) { int t = replaySched[s.replaySchedPos++]; for (int x : c) if (x == t) return t; fprintf(stderr, "replay: schedule mismatch\n"); } return c[0]; }
// a destructor storing the virtual table pointer that is there already (no write at the source level)
static bool sameVptr(State &s, Obj *o, uint64_t off, const Val &v) { if (v.e || v.c < 65536) return false; Obj *t = objAt(s, v.c); if (!t || !t->name || strncmp(t->name, "_ZTV", 4)) return false; Val c = loadC(s, o, off, 8); return !c.e && c.c == v.c; }
static void schedPoint(State &s) {
  S.schedPoints++; int bound = s.preemptBound >= 0 ? s.preemptBound : optPreempt;
  if (s.th.size() < 2 || s.preempts >= bound) return;
  std::vector<int> c{s.cur}; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && (s.th[i].status == T_RUN || s.th[i].status == T_SLEEP)) c.push_back(i);
  if (c.size() < 2) return;
  if (optReplay) { int t = replayPick(s, c); logSched(s, t); if (t != s.cur) { s.preempts++; s.cur = t; setRun(s, t); } return; }
  for (size_t i = 1; i < c.size(); i++) { State *n = forkState(s); n->preempts++; logSched(*n, c[i]); n->cur = c[i]; setRun(*n, c[i]); push(n); }
  logSched(s, s.cur);
}
static void mustSwitch(State &s) { // current thread cannot continue
  std::vector<int> c; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == T_RUN) c.push_back(i);
  if (c.empty()) {
    for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].status == T_SLEEP) c.push_back(i);
    if (c.empty()) fault(s, "deadlock", "all threads are blocked for ever");
    if (++s.idle > 40) fault(s, "hang", "no thread makes progress (waiting for ever)");
    if (s.idle > 2 && c.size() > 1) { int o = c[0]; for (int x : c) if (s.th[x].lastPick < s.th[o].lastPick) o = x; c.assign(1, o); } // fair: nobody is passed over for ever
  }
  uint32_t seq = 0; for (auto &t : s.th) seq = std::max(seq, t.lastPick + 1);
  int pick = c[0];
  if (c.size() > 1 && optPreempt == 0) { for (int x : c) if (x > s.cur) { pick = x; break; } } // no preemptions: round robin
  else if (c.size() > 1) {
    if (optReplay) pick = replayPick(s, c);
    else for (size_t i = 1; i < c.size(); i++) { State *n = forkState(s); logSched(*n, c[i]); n->cur = c[i]; n->th[c[i]].lastPick = seq; setRun(*n, c[i]); push(n); }
    logSched(s, pick);
  }
  s.th[pick].lastPick = seq; s.cur = pick; setRun(s, pick);
}
static void hbAcquire(State &s, uint64_t key) { auto it = s.sync.find(key); if (it == s.sync.end()) return; auto &v = s.T().vc; if (v.size() < it->second.size()) v.resize(it->second.size(), 0); for (size_t i = 0; i < it->second.size(); i++) v[i] = std::max(v[i], it->second[i]); }
static void hbRelease(State &s, uint64_t key, bool join) { auto &d = s.sync[key]; auto &v = s.T().vc; if (!join) d.clear(); if (d.size() < v.size()) d.resize(v.size(), 0); for (size_t i = 0; i < v.size(); i++) d[i] = std::max(d[i], v[i]); if ((int)v.size() <= s.cur) v.resize(s.cur + 1, 0); v[s.cur]++; }

static void enter(State &s, Frame *caller, const Inst *call, KFunc *k, const std::vector<Val> &args) {
  compile(k); if (!k->used) { k->used = true; if (k->origin != 2) usedFuncs.insert(k->name); }
  Frame *f = new Frame(); f->f = k; f->pc = 0; f->regs.assign(k->nregs, VC(0)); f->call = call;
  bool cs = caller ? caller->support : true;
  f->support = k->origin == 2 ? true : k->origin == 1 ? false : cs; f->exempt = f->support;
  for (size_t i = 0; i < k->argRegs.size(); i++) f->regs[k->argRegs[i]] = i < args.size() ? args[i] : VC(0);
  s.T().st.push_back(f); if (s.T().st.size() > 400) fault(s, "recursion", "call depth exceeds 400");
}
static void popFrame(State &s) {
  Frame *f = s.T().st.back();
  for (uint32_t slot : f->allocas) { Obj *o = s.mem.get(slot); if (o) { uint32_t n = o->nslots; for (uint32_t i = 0; i < n; i++) s.mem.set(slot + i, nullptr); } }
  s.T().st.pop_back(); if (--f->rc == 0) delete f;
}
static void takeEdge(Frame &f, const Edge &e) {
  size_t n = e.copies.size();
  if (n == 1) f.regs[e.copies[0].first] = opv(f, e.copies[0].second);
  else if (n) { static std::vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; i++) tmp[i] = opv(f, e.copies[i].second); for (size_t i = 0; i < n; i++) f.regs[e.copies[i].first] = tmp[i]; }
  f.pc = e.target;
}
static std::string readStr(State &s, uint64_t a) {
  std::string r; for (int i = 0; i < 4096; i++) { uint64_t off; Obj *o = access(s, a + i, 1, false, off, "string"); Val v = loadC(s, o, off, 1); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r;
}
static void finishThread(State &s) {
  s.th[s.cur].status = T_DONE; s.idle = 0;
}
static bool typeMatches(State &s, uint64_t thrown, int64_t clause) {
  if (clause == 0) return true; if (clause == -1) return false;
  if (thrown == 1) { Obj *o = objAt(s, clause); return o && o->name && strncmp(o->name, "_ZTI", 4) == 0 && (strstr(o->name, "St9exception") || strstr(o->name, "St11logic_error") || strstr(o->name, "out_of_range") || strstr(o->name, "runtime_error") || strstr(o->name, "length_error") || strstr(o->name, "St12system_error") || strstr(o->name, "bad_function_call") || strstr(o->name, "invalid_argument")); }
  uint64_t t = thrown; for (int i = 0; i < 8 && t; i++) { if (t == (uint64_t)clause) return true; Obj *o = objAt(s, t); if (!o || o->size < 24) return false; t = loadC(s, o, 16, 8).c; }
  return false;
}
static void throwExc(State &s, uint64_t ptr, uint64_t type, const Inst *at = nullptr) {
  Thread &T = s.T(); bool handler = false;
  if (at && at->isInvoke) for (int64_t cl : at->clauses) if (typeMatches(s, type, cl)) handler = true;
  for (int i = (int)T.st.size() - 1; i >= 0 && !handler; i--) { const Inst *c = T.st[i]->call; if (c && c->isInvoke) for (int64_t cl : c->clauses) if (typeMatches(s, type, cl)) handler = true; }
  if (!handler) { Obj *o = type > 1 ? objAt(s, type) : nullptr; fault(s, "exception", std::string("uncaught exception") + (o && o->name ? std::string(" ") + demang(o->name) : "")); }
  for (bool first = true; !T.st.empty(); first = false) {
    const Inst *c = at; if (!first) { c = T.st.back()->call; popFrame(s); if (T.st.empty() || !c) break; }
    if (!c || !c->isInvoke) continue;
    uint64_t sel = 0; bool enterIt = c->cleanup;
    for (int64_t cl : c->clauses) if (typeMatches(s, type, cl)) { enterIt = true; sel = cl > 0 ? (uint64_t)cl >> 16 : 0; break; }
    if (!enterIt) continue;
    Frame &f = s.top(); takeEdge(f, c->edges[1]); T.excPtr = ptr; T.excType = type; f.excPtr = ptr; f.excType = sel; return;
  }
  fault(s, "exception", "uncaught exception");
}
// conservative reachability leak check over blocks allocated by the code under test
static uint64_t leakCount(State &s, std::string &desc, bool all) {
  std::vector<Obj *> roots, heap; std::set<uint32_t> seen; std::vector<Obj *> wl;
  for (uint32_t i = 1; i < s.nextSlot; i++) { Obj *o = s.mem.get(i); if (!o || o->nslots == 0 || o->freed) continue; if (o->kind == OK_HEAP) { heap.push_back(o); if (!o->owner) { wl.push_back(o); seen.insert(o->slot); } } else if (o->kind != OK_FUNC) { wl.push_back(o); seen.insert(o->slot); } }
  if (all) { uint64_t n = 0; for (Obj *o : heap) if (o->owner) n++; return n; }
  while (!wl.empty()) { Obj *o = wl.back(); wl.pop_back(); if (o->size > 1 << 20) continue;
    for (uint64_t off = 0; off + 8 <= o->size; off += 8) { Chunk *c = o->ch[off / CHUNK]; uint64_t v; if ((off % CHUNK) + 8 > c->n) continue; memcpy(&v, c->data + off % CHUNK, 8); if (v < 65536) continue; Obj *p = objAt(s, v); if (p && !p->freed && seen.insert(p->slot).second) wl.push_back(p); } }
  uint64_t n = 0; for (Obj *o : heap) if (o->owner && !seen.count(o->slot)) { n++; if (desc.size() < 600) desc += std::to_string(o->size) + " bytes allocated at " + siteName(o->site) + "; "; }
  return n;
}

static uint64_t bitop(uint16_t intr, unsigned w, uint64_t v) {
  switch (intr) { case I_BSWAP: return __builtin_bswap64(v) >> (64 - w); case I_CTPOP: return __builtin_popcountll(v); case I_CTLZ: return v ? __builtin_clzll(v) - (64 - w) : w; case I_CTTZ: return v ? __builtin_ctzll(v) : w;
  case I_BITREV: { uint64_t r = 0; for (unsigned i = 0; i < w; i++) if (v >> i & 1) r |= 1ull << (w - 1 - i); return r; } } return 0;
}
static Val binop(uint8_t op, unsigned w, Val a, Val b) { if (!a.e && !b.e) return VC(foldBin(op, w, a.c, b.c)); return vex(eBin(op, ex(a, w), ex(b, w))); }
static std::string replayName; 
static Val newInput(State &s, const std::string &name, unsigned w, uint64_t lo, uint64_t hi, bool ranged) { // [lo,hi)
  if (optReplay) { if (s.replayPos < replayVals.size()) { auto &p = replayVals[s.replayPos++]; if (p.first != name) fprintf(stderr, "replay: expected %s got %s\n", p.first.c_str(), name.c_str()); return VC(p.second & maskw(w)); } return VC(ranged ? lo : 0); }
  Expr *e = freshSym(s, name, w);
  if (ranged) {
    if (hi == lo + 1) { addPC(s, eBin(E_EQ, e, eC(w, lo))); (*s.model)[e->c] = lo; return VC(lo); }
    if (lo) { addPC(s, eNot(eBin(E_ULT, e, eC(w, lo)))); }
    addPC(s, eBin(E_ULT, e, eC(w, hi))); (*s.model)[e->c] = lo;
  }
  return Val{0, e};
}

// executes builtin/intrinsic; returns false if the instruction must be re-executed (after a fork that concretised an operand)
static void doIntr(State &s, const Inst &I) {
  Frame *fr = &s.top(); auto A = [&](int i) { return opv(*s.T().st.back(), I.ops[i]); };
  auto conc = [&](int i) { return concretize(s, I.ops[i]); };
  auto ret = [&](Val v) { if (I.dst >= 0) s.top().regs[I.dst] = v; };
  auto next = [&]() { Frame &f = s.top(); if (I.isInvoke) takeEdge(f, I.edges[0]); else f.pc++; };
  auto Z = [&](Val v, unsigned w) { return ex(v, w); };
  (void)fr;
  switch (I.intr) {
  case I_NOP: case I_TRAP: if (I.intr == I_TRAP) fault(s, "trap", "trap executed"); next(); return;
  case I_IDENT: case I_EXPECT: ret(A(0)); next(); return;
  case I_MEMCPY: case I_MEMMOVE: case B_MEMCPY: case B_MEMMOVE: {
    uint64_t d = conc(0), sr = conc(1), n = conc(2); copyMem(s, d, sr, n, I.site); if (I.intr == B_MEMCPY || I.intr == B_MEMMOVE) ret(VC(d)); next(); return; }
  case I_MEMSET: case B_MEMSET: { uint64_t d = conc(0), n = conc(2); Val v = A(1); setMem(s, d, v, n, I.site); if (I.intr == B_MEMSET) ret(VC(d)); next(); return; }
  case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: { Val a = A(0), b = A(1); unsigned w = I.w; uint8_t lt = (I.intr == I_UMIN || I.intr == I_UMAX) ? E_ULT : E_SLT; bool mn = I.intr == I_UMIN || I.intr == I_SMIN;
    Expr *x = Z(a, w), *y = Z(b, w), *c = eBin(lt, x, y); ret(vex(mn ? eIte(c, x, y) : eIte(c, y, x))); next(); return; }
  case I_ABS: { Expr *x = Z(A(0), I.w); ret(vex(eIte(eBin(E_SLT, x, eC(I.w, 0)), eBin(E_SUB, eC(I.w, 0), x), x))); next(); return; }
  case I_BSWAP: { Val a = A(0); if (!a.e) ret(VC(bitop(I.intr, I.w, a.c))); else { Expr *r = nullptr; for (unsigned i = 0; i < I.w; i += 8) { Expr *b = eExtract(a.e, i, 8); r = r ? eConcat(r, b) : b; } ret(vex(r)); } next(); return; }
  case I_CTPOP: case I_CTLZ: case I_CTTZ: case I_BITREV: { uint64_t v = conc(0); ret(VC(bitop(I.intr, I.w, v))); next(); return; }
  case I_FSHL: case I_FSHR: { Val a = A(0), b = A(1); uint64_t k = conc(2) % I.w; unsigned w = I.w; a = A(0); b = A(1);
    if (k == 0) ret(I.intr == I_FSHL ? a : b); else { unsigned l = I.intr == I_FSHL ? k : w - k; ret(binop(E_OR, w, binop(E_SHL, w, a, VC(l)), binop(E_LSHR, w, b, VC(w - l)))); } next(); return; }
  case I_UADDO: case I_USUBO: case I_SADDO: case I_SSUBO: {
    unsigned w = I.w; Expr *a = Z(A(0), w), *b = Z(A(1), w); bool add = I.intr == I_UADDO || I.intr == I_SADDO; Expr *r = eBin(add ? E_ADD : E_SUB, a, b), *o;
    if (I.intr == I_UADDO) o = eBin(E_ULT, r, a); else if (I.intr == I_USUBO) o = eBin(E_ULT, a, b);
    else { Expr *sa = eExtract(a, w - 1, 1), *sb = eExtract(b, w - 1, 1), *sr = eExtract(r, w - 1, 1); o = add ? eBin(E_AND, eBin(E_EQ, sa, sb), eNot(eBin(E_EQ, sa, sr))) : eBin(E_AND, eNot(eBin(E_EQ, sa, sb)), eNot(eBin(E_EQ, sa, sr))); }
    s.top().regs[I.dst] = vex(r); s.top().regs[I.dst + 1] = vex(o); next(); return; }
  case I_UMULO: case I_SMULO: { uint64_t a = conc(0), b = conc(1); unsigned w = I.w; __int128 p; bool o; if (I.intr == I_UMULO) { unsigned __int128 q = (unsigned __int128)a * b; p = q; o = (q >> w) != 0; } else { p = (__int128)sext64(a, w) * sext64(b, w); o = p != sext64((uint64_t)p & maskw(w), w); }
    s.top().regs[I.dst] = VC((uint64_t)p & maskw(w)); s.top().regs[I.dst + 1] = VC(o); next(); return; }
  case I_USUBSAT: { Expr *a = Z(A(0), I.w), *b = Z(A(1), I.w); ret(vex(eIte(eBin(E_ULT, a, b), eC(I.w, 0), eBin(E_SUB, a, b)))); next(); return; }
  case I_UADDSAT: { Expr *a = Z(A(0), I.w), *b = Z(A(1), I.w), *r = eBin(E_ADD, a, b); ret(vex(eIte(eBin(E_ULT, r, a), eC(I.w, maskw(I.w)), r))); next(); return; }
  case I_OBJSIZE: ret(VC(maskw(I.w))); next(); return;
  case I_ISCONST: ret(VC(0)); next(); return;
  case I_STACKSAVE: ret(VC(0)); next(); return;
  case I_PTRMASK: ret(binop(E_AND, 64, A(0), A(1))); next(); return;
  case I_TYPEIDFOR: ret(VC(conc(0) >> 16)); next(); return;
  case I_TLSADDR: { auto *G = (const GlobalVariable *)(uintptr_t)I.size; auto key = std::make_pair(s.cur, G); auto it = s.tls.find(key);
    if (it == s.tls.end()) { Obj *o = mkObj(s, DL->getTypeAllocSize(G->getValueType()), OK_TLS, true, false); o->name = "tls"; if (G->hasInitializer()) writeInit(o, 0, G->getInitializer()); s.tls[key] = o->base; ret(VC(o->base)); } else ret(VC(it->second)); next(); return; }
  case B_MALLOC: case B_NEW: case B_NEWARR: { uint64_t n = conc(0); if (n > (1u << 27)) fault(s, "memory", "allocation of " + std::to_string(n) + " bytes"); bool own = !s.inSupport(); Obj *o = mkObj(s, n, OK_HEAP, false, own); o->site = I.site; o->akind = I.intr == B_MALLOC ? 0 : I.intr == B_NEW ? 1 : 2; if (own) s.liveRepo++; ret(VC(o->base)); next(); return; }
  case B_CALLOC: { uint64_t n = conc(0) * conc(1); bool own = !s.inSupport(); Obj *o = mkObj(s, n, OK_HEAP, true, own); o->site = I.site; if (own) s.liveRepo++; ret(VC(o->base)); next(); return; }
  case B_REALLOC: { uint64_t p = conc(0), n = conc(1); bool own = !s.inSupport(); Obj *o = mkObj(s, n, OK_HEAP, false, own); o->site = I.site; if (own) s.liveRepo++; uint64_t nb = o->base; if (p) { Obj *q = objAt(s, p); if (!q) fault(s, "memory", "realloc of bad pointer"); copyMem(s, nb, p, std::min(n, q->size), I.site); freeHeap(s, p, 0, I.site); } ret(VC(nb)); next(); return; }
  case B_FREE: freeHeap(s, conc(0), 0, I.site); next(); return;
  case B_DELETE: freeHeap(s, conc(0), 1, I.site); next(); return;
  case B_DELETEARR: freeHeap(s, conc(0), 2, I.site); next(); return;
  case B_MEMCMP: case B_BCMP: {
    uint64_t a = conc(0), b = conc(1), n = conc(2); uint64_t ao, bo; if (!n) { ret(VC(0)); next(); return; }
    Obj *oa = access(s, a, n, false, ao, "memcmp"), *ob = access(s, b, n, false, bo, "memcmp"); raceCheck(s, oa, ao, n, false, false, I.site); raceCheck(s, ob, bo, n, false, false, I.site);
    std::vector<std::pair<Val, Val>> v; for (uint64_t i = 0; i < n; i++) { oa = objAt(s, a); Val x = loadC(s, oa, ao + i, 1); ob = objAt(s, b); Val y = loadC(s, ob, bo + i, 1); v.push_back({x, y}); if (!x.e && !y.e && x.c != y.c) break; }
    Expr *r = eC(32, 0);
    for (int i = (int)v.size() - 1; i >= 0; i--) {
      Val x = v[i].first, y = v[i].second; if (!x.e && !y.e) { if (x.c != y.c) r = eC(32, x.c < y.c ? 0xffffffffu : 1); continue; }
      Expr *xe = ex(x, 8), *ye = ex(y, 8); Expr *d = I.intr == B_BCMP ? eC(32, 1) : eIte(eBin(E_ULT, xe, ye), eC(32, 0xffffffffu), eC(32, 1)); r = eIte(eBin(E_EQ, xe, ye), r, d);
    }
    ret(vex(r)); next(); return; }
  case B_STRLEN: { // forks on symbolic terminators
    uint64_t a = conc(0);
    for (uint64_t i = 0;; i++) { uint64_t off; Obj *o = access(s, a + i, 1, false, off, "strlen"); raceCheck(s, o, off, 1, false, false, I.site); Val v = loadC(s, objAt(s, a + i), off, 1);
      if (!v.e) { if (!v.c) { ret(VC(i)); break; } continue; }
      Forked f = branch(s, eBin(E_EQ, v.e, eC(8, 0))); if (f.o) push(f.o); if (f.v) { ret(VC(i)); break; } }
    next(); return; }
  case B_MEMCHR: { uint64_t a = conc(0), n = conc(2); Val ch = A(1); uint64_t r = 0;
    for (uint64_t i = 0; i < n; i++) { uint64_t off; Obj *o = access(s, a + i, 1, false, off, "memchr"); raceCheck(s, o, off, 1, false, false, I.site); Val v = loadC(s, objAt(s, a + i), off, 1);
      Expr *eq = eBin(E_EQ, ex(v, 8), eExtract(ex(ch, 32), 0, 8)); Forked f = branch(s, eq); if (f.o) push(f.o); if (f.v) { r = a + i; break; } }
    ret(VC(r)); next(); return; }
  case B_CXA_ALLOC_EXC: { Obj *o = mkObj(s, conc(0), OK_HEAP, false, false); o->akind = 9; ret(VC(o->base)); next(); return; }
  case B_CXA_THROW: { uint64_t p = conc(0), t = conc(1); throwExc(s, p, t, &I); }; return;
  case B_THROWSTD: throwExc(s, 0, 1, &I); return;
  case B_CXA_RETHROW: { auto &c = s.T().caught; if (c.empty()) fault(s, "exception", "rethrow without exception"); auto p = c.back(); throwExc(s, p.first, p.second, &I); return; }
  case B_CXA_BEGIN_CATCH: { uint64_t p = conc(0); s.T().caught.push_back({p, s.T().excType}); ret(VC(p)); next(); return; }
  case B_CXA_END_CATCH: if (!s.T().caught.empty()) s.T().caught.pop_back(); next(); return;
  case B_TERMINATE: fault(s, "terminate", "std::terminate called"); case B_ABORT: fault(s, "abort", "process aborted or assertion failed"); case B_PURE: fault(s, "memory", "pure virtual call");
  // ---- sx_*
  case X_SYMBOLIC: { uint64_t p = conc(0), n = conc(1); std::string nm = readStr(s, conc(2)); uint64_t off; access(s, p, n, true, off, "sx_symbolic");
    for (uint64_t i = 0; i < n; i++) { Val v = newInput(s, nm + "[" + std::to_string(i) + "]", 8, 0, 0, false); storeC(s, objAt(s, p), off + i, 1, v); } next(); return; }
  case X_U8: ret(newInput(s, readStr(s, conc(0)), 8, 0, 0, false)); next(); return;
  case X_U16: ret(newInput(s, readStr(s, conc(0)), 16, 0, 0, false)); next(); return;
  case X_U32: ret(newInput(s, readStr(s, conc(0)), 32, 0, 0, false)); next(); return;
  case X_U64: ret(newInput(s, readStr(s, conc(0)), 64, 0, 0, false)); next(); return;
  case X_RANGE: { uint64_t lo = conc(0), hi = conc(1); ret(newInput(s, readStr(s, conc(2)), 32, lo, hi, true)); next(); return; }
  case X_CHOOSE: { uint64_t n = conc(0); Val v = newInput(s, readStr(s, conc(1)), 32, 0, n, true); ret(v); next();
    if (v.e) { // fork immediately: value i in each successor
      for (uint64_t i = 1; i < n; i++) { State *t = forkState(s); addPC(*t, eBin(E_EQ, v.e, eC(32, i))); t->model = std::make_shared<Model>(*t->model); (*t->model)[v.e->c] = i; t->top().regs[I.dst] = VC(i); push(t); }
      addPC(s, eBin(E_EQ, v.e, eC(32, 0))); s.top().regs[I.dst] = VC(0); }
    return; }
  case X_CONCRETIZE: { uint64_t v = conc(0); ret(VC(v)); next(); return; }
  case X_IS_SYM: ret(VC(A(0).e != nullptr)); next(); return;
  case X_ASSUME: { Val v = A(0); if (!v.e) { if (!(v.c & 1)) { S.pathsAssumed++; endPath(); } next(); return; }
    Expr *c = v.e->w == 1 ? v.e : eNot(eBin(E_EQ, v.e, eC(v.e->w, 0)));
    if (!evalExpr(c, *s.model)) { ModelP m; int r = solve(s, c, &m); if (r < 0) abortPath(s, "solver: unknown/timeout in assume"); if (r == 0) { S.pathsAssumed++; endPath(); } s.model = m; }
    addPC(s, c); next(); return; }
  case X_CHECK: { Val v = A(0); std::string lab = readStr(s, conc(1)); S.checks++; checkLabels[lab]++;
    if (!v.e) { if (!(v.c & 1)) { report(s, "check", lab, "assertion violated: " + lab, *s.model); endPath(); } next(); return; }
    S.checksSym++; Expr *c = v.e->w == 1 ? v.e : eNot(eBin(E_EQ, v.e, eC(v.e->w, 0))); ModelP m; int r = solve(s, eNot(c), &m);
    if (r < 0) abortPath(s, "solver: unknown/timeout in check " + lab); 
    if (r == 1) { ModelP sv = s.model; s.model = m; report(s, "check", lab, "assertion violated: " + lab, *m); s.model = sv; if (!evalExpr(c, *s.model)) { ModelP m2; if (solve(s, c, &m2) != 1) endPath(); s.model = m2; } addPC(s, c); }
    else S.solverObl++;
    next(); return; }
  case X_FAIL: { std::string lab = readStr(s, conc(0)); report(s, "check", lab, "assertion violated: " + lab, *s.model); endPath(); }
  case X_COVER: { std::string l = readStr(s, conc(0)); covers[l]++; next(); return; }
  case X_NOTE: note(s, readStr(s, conc(0))); next(); return;
  case X_NOTEV: { std::string t = readStr(s, conc(0)); Val v = A(1); s.log = new LNode{t, v.e ? (uint64_t)(uintptr_t)v.e : v.c, v.e ? 3 : 4, 0, 0, s.log}; next(); return; }
  case X_PARAM: { std::string n = readStr(s, conc(0)); auto it = params.find(n); ret(it == params.end() ? A(1) : VC((uint32_t)it->second)); next(); return; }
  case X_THREAD_CREATE: { uint64_t fn = conc(0), arg = conc(1); if (s.th.size() >= 6) fault(s, "threads", "more than 6 threads"); KFunc *k = funcAt.count(fn) ? resolveFn(funcAt[fn]) : nullptr; if (!k) fault(s, "memory", "bad thread function");
    s.th.emplace_back(); int id = s.th.size() - 1; s.idle = 0; auto pv = s.T().vc; pv.resize(id + 1, 0); pv[id] = 1; s.th[id].vc = pv; if ((int)s.T().vc.size() <= s.cur) s.T().vc.resize(s.cur + 1, 0); s.T().vc[s.cur]++; S.maxThreads = std::max<uint64_t>(S.maxThreads, s.th.size());
    ret(VC(id)); next(); int save = s.cur; s.cur = id; enter(s, nullptr, nullptr, k, {VC(arg)}); s.cur = save; return; }
  case X_SELF: ret(VC(s.cur)); next(); return;
  case X_BLOCK: { uint64_t key = conc(0); next(); s.T().status = T_BLOCK; s.T().key = key; mustSwitch(s); return; }
  case X_SLEEP: { uint64_t key = conc(0); next(); s.T().status = T_SLEEP; s.T().key = key; mustSwitch(s); return; }
  case X_WAKE: { uint64_t key = conc(0); next(); for (auto &t : s.th) if ((t.status == T_BLOCK || t.status == T_SLEEP) && t.key == key) { t.status = T_RUN; s.idle = 0; } return; }
  case X_BLOCKED_ON: { uint64_t key = conc(0); uint64_t n = 0; for (auto &t : s.th) if ((t.status == T_BLOCK || t.status == T_SLEEP) && t.key == key) n++; ret(VC(n)); next(); return; }
  case X_SCHED: next(); schedPoint(s); return;
  case X_PREEMPT: { int64_t n = (int32_t)conc(0); s.preemptBound = n < 0 ? -1 : (int)n; s.preempts = 0; next(); return; }
  case X_HB_ACQ: hbAcquire(s, conc(0)); next(); return;
  case X_HB_REL: hbRelease(s, conc(0), true); next(); return;
  case X_HEAP_LIVE: ret(VC(s.liveRepo)); next(); return;
  case X_LEAKS: { std::string d; uint64_t n = leakCount(s, d, false); if (n) note(s, "leak: " + d); ret(VC(n)); next(); return; }
  case X_IN_REPO: { bool in = false; for (int i = (int)s.T().st.size() - 1; i >= 0; i--) if (s.T().st[i]->f->origin == 1) { in = true; break; } ret(VC(in)); next(); return; }
  case X_THREADS_LIVE: { uint64_t n = 0; for (auto &t : s.th) if (t.status != T_DONE) n++; ret(VC(n)); next(); return; }
  case X_IS_FREED: { Obj *o = objAt(s, conc(0)); ret(VC(!o || o->freed)); next(); return; }
  case X_RACEON: s.raceOn = conc(0); next(); return;
  case X_END: S.pathsDone++; endPath();
  case X_MAYBE: { Val v = A(0); if (!v.e) { ret(VC(v.c & 1)); next(); return; } Expr *c = v.e->w == 1 ? v.e : eNot(eBin(E_EQ, v.e, eC(v.e->w, 0))); ret(VC(solve(s, c, nullptr) == 1)); next(); return; }
  }
  abortPath(s, "unimplemented intrinsic " + std::to_string(I.intr));
}

static double lastFork = 0; static void maybeSplit();
static void runState(State &s) {
  uint64_t cnt = 0;
  while (true) {
    if ((++cnt & 0xfff) == 0) { if (now() - t0 > optTimeout) { ctl->stop = 2; abortPath(s, "time budget exhausted"); } if (ctl->violAt && optGrace > 0 && now() - ctl->violAt > optGrace) ctl->stop = 1; if (ctl->stop) endPath(); if (s.instrs > (uint64_t)optMaxInstr) { fault(s, "hang", "instruction limit of " + std::to_string(optMaxInstr) + " reached on one path"); } maybeSplit(); }
    s.instrs++; S.instrs++;
    if (s.T().st.empty()) { // thread finished
      if (s.cur == 0) { S.pathsDone++; return; }
      finishThread(s); mustSwitch(s); continue;
    }
    Frame &f = s.top(); const Inst &I = f.f->code[f.pc];
    if (optTrace) { std::string str; raw_string_ostream os(str); I.src->print(os); fprintf(stderr, "[%d] %s: %s\n", s.cur, demang(f.f->name).substr(0, 40).c_str(), str.c_str()); }
    switch (I.op) {
    case K_BIN: {
      Val a = opv(f, I.a), b = opv(f, I.b);
      if (I.sub >= E_UDIV && I.sub <= E_SREM) {
        if (!b.e) { if (!b.c) fault(s, "arith", "division by zero"); }
        else { Forked k = branch(s, eBin(E_EQ, b.e, eC(I.w, 0))); if (k.o) push(k.o); if (k.v) fault(s, "arith", "division by zero"); }
      }
      Frame &g = s.top(); g.regs[I.dst] = binop(I.sub, I.w, a, b); g.pc++; break; }
    case K_ICMP: {
      Val a = opv(f, I.a), b = opv(f, I.b); uint8_t op; bool sw = false, ng = false;
      switch (I.sub) { case CmpInst::ICMP_EQ: op = E_EQ; break; case CmpInst::ICMP_NE: op = E_EQ; ng = true; break; case CmpInst::ICMP_ULT: op = E_ULT; break; case CmpInst::ICMP_UGT: op = E_ULT; sw = true; break; case CmpInst::ICMP_ULE: op = E_ULE; break; case CmpInst::ICMP_UGE: op = E_ULE; sw = true; break;
      case CmpInst::ICMP_SLT: op = E_SLT; break; case CmpInst::ICMP_SGT: op = E_SLT; sw = true; break; case CmpInst::ICMP_SLE: op = E_SLE; break; default: op = E_SLE; sw = true; break; }
      if (sw) std::swap(a, b);
      if (!a.e && !b.e) f.regs[I.dst] = VC(foldBin(op, I.w, a.c, b.c) ^ ng);
      else { Expr *r = eBin(op, ex(a, I.w), ex(b, I.w)); if (ng) r = eNot(r); f.regs[I.dst] = vex(r); }
      f.pc++; break; }
    case K_FCMP: case K_FBIN: case K_FCAST: {
      uint64_t a = concretize(s, I.a), b = I.op == K_FCAST ? 0 : concretize(s, I.b); Frame &g = s.top(); auto D = [&](uint64_t v, unsigned w) { if (w == 32) { float x; uint32_t u = v; memcpy(&x, &u, 4); return (double)x; } double x; memcpy(&x, &v, 8); return x; };
      auto U = [&](double x, unsigned w) -> uint64_t { if (w == 32) { float y = x; uint32_t u; memcpy(&u, &y, 4); return u; } uint64_t u; memcpy(&u, &x, 8); return u; };
      if (I.op == K_FCMP) { double x = D(a, I.w), y = D(b, I.w); bool r = false, un = x != x || y != y; switch (I.sub & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y && !un; break; case 7: r = !un; break; } if (I.sub & 8) r = r || un; g.regs[I.dst] = VC(r); }
      else if (I.op == K_FBIN) { double x = D(a, I.w), y = D(b, I.w), r = I.sub == Instruction::FAdd ? x + y : I.sub == Instruction::FSub ? x - y : I.sub == Instruction::FMul ? x * y : x / y; g.regs[I.dst] = VC(U(r, I.w)); }
      else switch (I.sub) { case Instruction::UIToFP: g.regs[I.dst] = VC(U((double)a, I.w)); break; case Instruction::SIToFP: g.regs[I.dst] = VC(U((double)sext64(a, I.w2), I.w)); break; case Instruction::FPToUI: g.regs[I.dst] = VC((uint64_t)D(a, I.w2) & maskw(I.w)); break; case Instruction::FPToSI: g.regs[I.dst] = VC((uint64_t)(int64_t)D(a, I.w2) & maskw(I.w)); break; default: g.regs[I.dst] = VC(U(D(a, I.w2), I.w)); }
      g.pc++; break; }
    case K_SELECT: {
      Val c = opv(f, I.a); size_t n = I.lw.size();
      if (!c.e) for (size_t i = 0; i < n; i++) f.regs[I.dst + i] = opv(f, I.ops[2 * i + (c.c & 1 ? 0 : 1)]);
      else {
        bool ptrish = false; for (size_t i = 0; i < n; i++) if (I.src->getType()->isPointerTy()) ptrish = true;
        if (ptrish) { Forked k = branch(s, c.e); if (k.o) { Frame &o = k.o->top(); o.regs[I.dst] = opv(o, I.ops[k.v ? 1 : 0]); o.pc++; push(k.o); } Frame &g = s.top(); g.regs[I.dst] = opv(g, I.ops[k.v ? 0 : 1]); }
        else { std::vector<Val> r(n); for (size_t i = 0; i < n; i++) r[i] = vex(eIte(c.e, ex(opv(f, I.ops[2 * i]), I.lw[i]), ex(opv(f, I.ops[2 * i + 1]), I.lw[i]))); for (size_t i = 0; i < n; i++) f.regs[I.dst + i] = r[i]; }
      }
      s.top().pc++; break; }
    case K_CAST_TRUNC: { Val a = opv(f, I.a); f.regs[I.dst] = a.e ? vex(eExtract(a.e, 0, I.w)) : VC(a.c & maskw(I.w)); f.pc++; break; }
    case K_CAST_ZEXT: { Val a = opv(f, I.a); f.regs[I.dst] = a.e ? vex(eZext(a.e, I.w)) : a; f.pc++; break; }
    case K_CAST_SEXT: { Val a = opv(f, I.a); f.regs[I.dst] = a.e ? vex(eSext(a.e, I.w)) : VC((uint64_t)sext64(a.c, I.w2) & maskw(I.w)); f.pc++; break; }
    case K_COPY: { size_t n = I.ops.size(); if (n == 1) f.regs[I.dst] = opv(f, I.ops[0]); else { std::vector<Val> t(n); for (size_t i = 0; i < n; i++) t[i] = opv(f, I.ops[i]); for (size_t i = 0; i < n; i++) f.regs[I.dst + i] = t[i]; } f.pc++; break; }
    case K_LOAD: {
      uint64_t addr, lo, hi; Expr *sym; Obj *ob; resolvePtr(s, I.a, I.size, addr, sym, ob, lo, hi);
      if (I.atomic && !s.exempt() && !sym && !guardAddrs.count(addr) && optPreempt > 0) { Frame &g = s.top(); if (!g.excType) { g.excType = 0xA70; /* mark: point taken */ schedPoint(s); if (s.cur != 0 || true) { if (&s.top() != &g || s.T().st.back() != &g) { break; } } } s.top().excType = 0; }
      if (sym) { // symbolic offset inside ob: ITE over candidate offsets
        ob = objAt(s, ob->base); uint64_t step = 1; Expr *off = sym; std::vector<Val> res(I.lw.size(), VC(0));
        for (size_t li = 0; li < I.lw.size(); li++) {
          unsigned bytes = (I.lw[li] + 7) / 8; Expr *r = nullptr;
          for (uint64_t o = lo; o <= hi; o += step) { if (step == 1) {} Val v = loadC(s, ob, o + I.loff[li], bytes); ob = objAt(s, ob->base); Expr *e = ex(v, bytes * 8); r = r ? eIte(eBin(E_EQ, off, eC(64, o)), e, r) : e; }
          res[li] = vex(eExtract(r, 0, I.lw[li]));
        }
        raceCheck(s, ob, 0, ob->size, false, I.atomic, I.site); Frame &g = s.top(); for (size_t li = 0; li < res.size(); li++) g.regs[I.dst + li] = res[li]; g.pc++; break;
      }
      uint64_t off; Obj *o = access(s, addr, I.size, false, off, "load"); raceCheck(s, o, off, I.size, false, I.atomic, I.site); if (I.ordAcq) hbAcquire(s, addr);
      for (size_t li = 0; li < I.lw.size(); li++) { o = objAt(s, addr); unsigned bytes = (I.lw[li] + 7) / 8; Val v = loadC(s, o, off + I.loff[li], bytes); if (I.lw[li] % 8) v = v.e ? vex(eExtract(v.e, 0, I.lw[li])) : VC(v.c & maskw(I.lw[li])); s.top().regs[I.dst + li] = v; }
      s.top().pc++; break; }
    case K_STORE: {
      uint64_t addr = concretize(s, I.a); 
      if (I.atomic && !s.exempt() && !guardAddrs.count(addr) && optPreempt > 0) { Frame &g = s.top(); if (!g.excType) { g.excType = 0xA70; schedPoint(s); if (s.T().st.back() != &g) break; } s.top().excType = 0; }
      uint64_t off; Obj *o = access(s, addr, I.size, true, off, "store"); if (!(optRace && I.size == 8 && sameVptr(s, o, off, opv(*s.T().st.back(), I.ops[0])))) raceCheck(s, o, off, I.size, true, I.atomic, I.site);
      for (size_t li = 0; li < I.lw.size(); li++) { unsigned bytes = (I.lw[li] + 7) / 8; Val v = opv(*s.T().st.back(), I.ops[li]); if (v.e && I.lw[li] % 8) v = vex(eZext(v.e, bytes * 8)); o = objAt(s, addr); storeC(s, o, off + I.loff[li], bytes, v); }
      if (I.ordRel) hbRelease(s, addr, false);
      s.top().pc++; break; }
    case K_RMW: case K_CMPXCHG: {
      uint64_t addr = concretize(s, I.a);
      if (!s.exempt() && optPreempt > 0) { Frame &g = s.top(); if (!g.excType) { g.excType = 0xA70; schedPoint(s); if (s.T().st.back() != &g) break; } s.top().excType = 0; }
      unsigned bytes = (I.w + 7) / 8; uint64_t off; Obj *o = access(s, addr, bytes, true, off, "atomic"); raceCheck(s, o, off, bytes, true, true, I.site); hbAcquire(s, addr);
      Val old = loadC(s, objAt(s, addr), off, bytes); Frame &g = s.top();
      if (I.op == K_RMW) {
        Val b = opv(g, I.b), n; uint8_t op = 0; switch (I.sub) { case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: op = E_ADD; break; case AtomicRMWInst::Sub: op = E_SUB; break; case AtomicRMWInst::And: op = E_AND; break; case AtomicRMWInst::Or: op = E_OR; break; case AtomicRMWInst::Xor: op = E_XOR; break; default: abortPath(s, "atomicrmw op"); }
        if (op) n = binop(op, I.w, old, b); storeC(s, objAt(s, addr), off, bytes, n); g.regs[I.dst] = old;
      } else {
        Expr *eq = eBin(E_EQ, ex(old, I.w), ex(opv(g, I.b), I.w)); Forked k = branch(s, eq); 
        if (k.o) push(k.o); // other outcome re-executes this instruction (pc unchanged)
        Frame &h = s.top(); if (k.v) storeC(s, objAt(s, addr), off, bytes, opv(h, I.c)); h.regs[I.dst] = old; h.regs[I.dst + 1] = VC(k.v);
      }
      hbRelease(s, addr, true); s.top().pc++; break; }
    case K_FENCE: case K_NOP: f.pc++; break;
    case K_ALLOCA: { uint64_t n = concretize(s, I.a); Obj *o = mkObj(s, I.size * n, OK_STACK, false, !s.inSupport()); o->site = I.site; Frame &g = s.top(); g.allocas.push_back(o->slot); g.regs[I.dst] = VC(o->base); g.pc++; break; }
    case K_GEP: {
      Val r = opv(f, I.a); 
      if (I.gepOff) r = binop(E_ADD, 64, r, VC((uint64_t)I.gepOff));
      for (size_t i = 0; i < I.gepIdx.size(); i++) { Val x = opv(f, I.gepIdx[i].first); unsigned w = I.gepW[i]; if (!x.e) r = binop(E_ADD, 64, r, VC((uint64_t)(sext64(x.c, w) * I.gepIdx[i].second))); else r = binop(E_ADD, 64, r, vex(eBin(E_MUL, eSext(x.e, 64), eC(64, I.gepIdx[i].second)))); }
      f.regs[I.dst] = r; f.pc++; break; }
    case K_BR: takeEdge(f, I.edges[0]); break;
    case K_CBR: {
      Val c = opv(f, I.a); if (!c.e) { takeEdge(f, I.edges[c.c & 1 ? 0 : 1]); break; }
      Forked k = branch(s, c.e); if (k.o) { takeEdge(k.o->top(), I.edges[k.v ? 1 : 0]); push(k.o); } takeEdge(s.top(), I.edges[k.v ? 0 : 1]); break; }
    case K_SWITCH: {
      Val c = opv(f, I.a); if (!c.e) { size_t i = 0; for (; i < I.cases.size(); i++) if (I.cases[i] == c.c) break; takeEdge(f, I.edges[i < I.cases.size() ? i + 1 : 0]); break; }
      uint64_t mv = evalExpr(c.e, *s.model); bool taken = false;
      // peel cases other than the model's one as forks
      Expr *def = eC(1, 1);
      for (size_t i = 0; i < I.cases.size(); i++) {
        Expr *eq = eBin(E_EQ, c.e, eC(I.w, I.cases[i])); def = eBin(E_AND, def, eNot(eq)); if (I.cases[i] == mv) { taken = true; continue; }
        if (isC(eq)) continue; ModelP m; int r = solve(s, eq, &m); if (r < 0) pathError(s, "solver: unknown/timeout"); if (r == 1) { uninitCheck(s, eq); State *o = forkState(s); addPC(*o, eq); o->model = m; takeEdge(o->top(), I.edges[i + 1]); push(o); } }
      if (taken) { ModelP m; if (!isC(def)) { int r = solve(s, def, &m); if (r < 0) pathError(s, "solver: unknown/timeout"); if (r == 1) { uninitCheck(s, def); State *o = forkState(s); addPC(*o, def); o->model = m; takeEdge(o->top(), I.edges[0]); push(o); } }
        Expr *eq = eBin(E_EQ, c.e, eC(I.w, mv)); addPC(s, eq); size_t i = 0; for (; i < I.cases.size(); i++) if (I.cases[i] == mv) break; takeEdge(s.top(), I.edges[i + 1]); }
      else { addPC(s, def); takeEdge(s.top(), I.edges[0]); }
      break; }
    case K_RET: {
      std::vector<Val> rv; for (Opd o : I.ops) rv.push_back(opv(f, o)); const Inst *c = f.call; popFrame(s); if (s.T().st.empty()) break;
      if (!c) break; Frame &g = s.top(); for (size_t i = 0; i < rv.size() && (int)i < c->ndst; i++) g.regs[c->dst + i] = rv[i]; if (c->isInvoke) takeEdge(g, c->edges[0]); else g.pc++; break; }
    case K_CALL: {
      if (I.intr) { doIntr(s, I); break; }
      KFunc *k = I.callee;
      if (!k) { uint64_t a = concretize(s, I.a); auto it = funcAt.find(a); if (it == funcAt.end()) { Obj *o = objAt(s, a); fault(s, "memory", std::string("call through invalid function pointer") + (o && o->freed ? " (freed object)" : "")); } k = resolveFn(it->second); }
      if (k->external) { if (k->intr) { Inst J = I; J.intr = k->intr; doIntr(s, J); break; } abortPath(s, "call to unmodelled external function " + demang(k->name) + " [" + k->name + "]"); }
      Frame &g = s.top(); std::vector<Val> args; for (Opd o : I.ops) args.push_back(opv(g, o));
      std::vector<uint32_t> copies;
      for (auto &b : I.byval) { uint64_t src = concretize(s, I.ops[b.first]); Obj *o = mkObj(s, b.second, OK_STACK, false, false); uint64_t base = o->base; copies.push_back(o->slot); copyMem(s, base, src, b.second, I.site); args[b.first] = VC(base); }
      enter(s, &s.top(), &I, k, args); for (uint32_t c : copies) s.top().allocas.push_back(c); break; }
    case K_LANDINGPAD: { f.regs[I.dst] = VC(f.excPtr); f.regs[I.dst + 1] = VC(f.excType); f.excPtr = 0; f.excType = 0; f.pc++; break; }
    case K_RESUME: { uint64_t p = concretize(s, I.a); throwExc(s, p, s.T().excType); break; }
    case K_UNREACH: fault(s, "unreachable", "unreachable code executed");
    default: { std::string str; raw_string_ostream os(str); I.src->print(os); abortPath(s, "unsupported instruction:" + str); }
    }
  }
}

// ---------------------------------------------------------------- driver
static std::string resultPath(int n) { return optTmp + "/res." + std::to_string(n); }
static int myId = 0;
static void writeStr(FILE *f, const std::string &s) { uint32_t n = s.size(); fwrite(&n, 4, 1, f); fwrite(s.data(), 1, n, f); }
static std::string readS(FILE *f) { uint32_t n = 0; if (fread(&n, 4, 1, f) != 1) return ""; std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) {} return s; }
static void dumpResult() {
  FILE *f = fopen((resultPath(myId) + ".tmp").c_str(), "wb"); fwrite(&S, sizeof S, 1, f);
  auto wm = [&](const std::map<std::string, uint64_t> &m) { uint32_t n = m.size(); fwrite(&n, 4, 1, f); for (auto &p : m) { writeStr(f, p.first); fwrite(&p.second, 8, 1, f); } };
  wm(covers); wm(checkLabels); uint32_t n = usedFuncs.size(); fwrite(&n, 4, 1, f); for (auto &u : usedFuncs) writeStr(f, u);
  n = errorsSeen.size(); fwrite(&n, 4, 1, f); for (auto &u : errorsSeen) writeStr(f, u);
  n = samples.size(); fwrite(&n, 4, 1, f); for (auto &u : samples) writeStr(f, u);
  n = violations.size(); fwrite(&n, 4, 1, f); for (auto &v : violations) { writeStr(f, v.kind); writeStr(f, v.label); writeStr(f, v.msg); writeStr(f, v.where); writeStr(f, v.stack); writeStr(f, v.json); }
  fclose(f); rename((resultPath(myId) + ".tmp").c_str(), resultPath(myId).c_str());
}
static void mergeAll(int n) {
  Stats T = S; auto addMap = [](std::map<std::string, uint64_t> &m, FILE *f) { uint32_t k = 0; if (fread(&k, 4, 1, f) != 1) return; while (k--) { std::string s = readS(f); uint64_t v; if (fread(&v, 8, 1, f) != 1) return; m[s] += v; } };
  for (int i = 1; i <= n; i++) {
    FILE *f = fopen(resultPath(i).c_str(), "rb"); if (!f) { T.errors++; errorsSeen.push_back("a worker process died (out of memory or crash)"); continue; }
    Stats C; if (fread(&C, sizeof C, 1, f) != 1) { T.errors++; fclose(f); continue; }
    T.paths += C.paths; T.pathsDone += C.pathsDone; T.pathsAssumed += C.pathsAssumed; T.instrs += C.instrs; T.forks += C.forks; T.queries += C.queries; T.cacheHits += C.cacheHits; T.modelHits += C.modelHits; T.unknown += C.unknown; T.checks += C.checks; T.checksSym += C.checksSym; T.sat += C.sat; T.unsat += C.unsat; T.schedPoints += C.schedPoints; T.errors += C.errors; T.symVars += C.symVars; T.solverObl += C.solverObl; T.solverTime += C.solverTime; T.maxThreads = std::max(T.maxThreads, C.maxThreads);
    addMap(covers, f); addMap(checkLabels, f); uint32_t k; 
    if (fread(&k, 4, 1, f) == 1) while (k--) usedFuncs.insert(readS(f));
    if (fread(&k, 4, 1, f) == 1) while (k--) { std::string e = readS(f); if (errorsSeen.size() < 20) errorsSeen.push_back(e); }
    if (fread(&k, 4, 1, f) == 1) while (k--) { std::string e = readS(f); if (samples.size() < 6) samples.push_back(e); }
    if (fread(&k, 4, 1, f) == 1) while (k--) { Violation v; v.kind = readS(f); v.label = readS(f); v.msg = readS(f); v.where = readS(f); v.stack = readS(f); v.json = readS(f); if (violKeys.insert(v.kind + "|" + v.label + "|" + (v.label.empty() ? v.where : "")).second) violations.push_back(v); }
    fclose(f);
  }
  S = T;
}
static void resetStats() { S = Stats(); covers.clear(); checkLabels.clear(); usedFuncs.clear(); errorsSeen.clear(); violations.clear(); samples.clear(); for (auto &p : kfuncs) p.second->used = false; }
static void maybeSplit() {
  if (optReplay || optWorkers <= 1 || work.size() < 1 || ctl->active >= optWorkers) return;
  double t = now(); if (t - lastFork < 0.05) return; lastFork = t;
  int a = __sync_fetch_and_add(&ctl->active, 1); if (a >= optWorkers) { __sync_fetch_and_sub(&ctl->active, 1); return; }
  int id = __sync_add_and_fetch(&ctl->started, 1);
  fflush(stdout); fflush(stderr);
  pid_t p = fork(); if (p < 0) { __sync_fetch_and_sub(&ctl->active, 1); __sync_fetch_and_sub(&ctl->started, 1); return; }
  // split the pending states: the child takes the older half
  size_t n = work.size(), half = (n + 1) / 2;
  if (p == 0) {
    myId = id; resetStats(); signal(SIGTERM, SIG_DFL);
    std::deque<State *> mine(work.begin(), work.begin() + half); work.swap(mine); // leak the rest
    throw (int)1; // restart the exploration loop in the child
  } else { work.erase(work.begin(), work.begin() + half); }
}
static void explore(State *first) {
  if (first) work.push_back(first);
  bool child = false;
restart:
  try {
    while (!work.empty() && !ctl->stop) {
      State *s = work.back(); work.pop_back();
      size_t before = S.pathsDone;
      try { runState(*s); } catch (PathEnd &) {}
      if (S.pathsDone > before && samples.size() < 2 && (S.pathsDone % 7 == 1)) samples.push_back(traceJson(*s, *s->model));
      __sync_fetch_and_add(&ctl->paths, 1); delete s; maybeSplit();
    }
  } catch (int) { child = true; goto restart; }
  (void)child;
}
static void loadModules(const std::vector<std::pair<std::string, int>> &files) {
  std::unique_ptr<Linker> L;
  for (auto &p : files) {
    SMDiagnostic err; auto M = parseIRFile(p.first, err, Ctx); if (!M) fatal("cannot read " + p.first + ": " + err.getMessage().str());
    for (auto &F : *M) if (!F.isDeclaration() && !F.hasLinkOnceLinkage() && !F.hasWeakLinkage() && !F.hasAvailableExternallyLinkage()) F.addFnAttr(p.second == 1 ? "sx-repo" : "sx-support");
    if (!Mod) { Mod = std::move(M); L.reset(new Linker(*Mod)); } else if (L->linkInModule(std::move(M))) fatal("link error in " + p.first);
  }
  DL = &Mod->getDataLayout();
}
int main(int argc, char **argv) {
  std::vector<std::pair<std::string, int>> files; std::string replayFile;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) fatal("missing argument"); return std::string(argv[++i]); };
    if (a == "--repo") files.push_back({nx(), 1}); else if (a == "--support") files.push_back({nx(), 2}); else if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--tmp") optTmp = nx();
    else if (a == "--timeout") optTimeout = atof(nx().c_str()); else if (a == "--grace") optGrace = atof(nx().c_str()); else if (a == "--qtimeout") optQueryTimeout = atof(nx().c_str()); else if (a == "--workers") optWorkers = atoi(nx().c_str()); else if (a == "--preempt") optPreempt = atoi(nx().c_str()); else if (a == "--race") optRace = true; else if (a == "--maxviol") optMaxViol = atoi(nx().c_str());
    else if (a == "--maxinstr") optMaxInstr = atol(nx().c_str()); else if (a == "-v") optVerbose = true; else if (a == "--trace") optTrace = true;
    else if (a == "--param") { std::string p = nx(); size_t q = p.find('='); params[p.substr(0, q)] = atol(p.c_str() + q + 1); }
    else if (a == "--replay") replayFile = nx(); else fatal("unknown option " + a);
  }
  t0 = now(); if (optTmp.empty()) { char b[] = "/tmp/symxXXXXXX"; optTmp = mkdtemp(b); } else mkdir(optTmp.c_str(), 0700);
  prctl(PR_SET_CHILD_SUBREAPER, 1); struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (rlim_t)512 << 20 : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl);
  if (!replayFile.empty()) { // lines: "i name value" / "s tid"
    optReplay = true; optWorkers = 1; FILE *f = fopen(replayFile.c_str(), "r"); if (!f) fatal("cannot open replay"); char line[4096];
    while (fgets(line, sizeof line, f)) { if (line[0] == 'i') { char *v = strrchr(line, ' '); std::string n(line + 2, v); replayVals.push_back({n, strtoull(v + 1, 0, 10)}); } else if (line[0] == 's') replaySched.push_back(atoi(line + 2)); }
    fclose(f); }
  ctl = (SharedCtl *)mmap(0, sizeof(SharedCtl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctl->active = 1;
  loadModules(files); z3init();
  // lay out globals and functions
  State *s = new State(); s->model = std::make_shared<Model>(); s->th.emplace_back(); s->th[0].vc = {1};
  // thread-local variables that are accessed directly (guards of thread_local statics)
  { std::vector<Constant *> tls; for (auto &G : Mod->globals()) if (G.isThreadLocal()) tls.push_back(&G); if (!tls.empty()) convertUsersOfConstantsToInstructions(tls); }
  for (auto &F : *Mod) for (auto &BB : F) for (auto &I : BB) { if (isa<PHINode>(I)) continue; if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
    for (unsigned i = 0; i < I.getNumOperands(); i++) if (auto *G = dyn_cast<GlobalVariable>(I.getOperand(i))) if (G->isThreadLocal()) { IRBuilder<> B(&I); I.setOperand(i, B.CreateThreadLocalAddress(G)); } }
  for (auto &F : *Mod) { KFunc *k = getK(&F); Obj *o = mkObj(*s, 16, OK_FUNC, true, false); o->ro = true; o->name = strdup(F.getName().str().c_str()); k->addr = o->base; funcAt[o->base] = k; }
  for (auto &G : Mod->globals()) { Type *T = G.getValueType(); uint64_t sz = T->isSized() ? (uint64_t)DL->getTypeAllocSize(T) : 0; if (G.isDeclaration() && sz < 64) sz = 64; Obj *o = mkObj(*s, sz, OK_GLOBAL, true, false); o->name = strdup(G.getName().str().c_str()); gaddr[&G] = o->base; if (G.getName().starts_with("_ZGV")) guardAddrs.insert(o->base); }
  for (auto &G : Mod->globals()) if (G.hasInitializer()) { Obj *o = s->mem.own(gaddr[&G] >> 16); writeInit(o, 0, G.getInitializer()); if (G.isConstant()) o->ro = true; }
  // initial call sequence: global constructors then the entry function
  Function *E = Mod->getFunction(optEntry); if (!E || E->isDeclaration()) fatal("no entry function " + optEntry);
  std::vector<std::pair<uint64_t, KFunc *>> ctors;
  if (auto *G = Mod->getNamedGlobal("llvm.global_ctors")) if (G->hasInitializer()) if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer())) for (auto &op : CA->operands()) { auto *CS = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), getK(F)}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  enter(*s, nullptr, nullptr, getK(E), {}); for (int i = (int)ctors.size() - 1; i >= 0; i--) enter(*s, nullptr, nullptr, ctors[i].second, {});
  S.paths = 1;
  explore(s);
  if (myId) { dumpResult(); __sync_fetch_and_sub(&ctl->active, 1); _exit(0); }
  __sync_fetch_and_sub(&ctl->active, 1);
  // wait for all workers
  while (true) { int st; pid_t p = wait(&st); if (p < 0) break; if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { __sync_fetch_and_sub(&ctl->active, 1); S.errors++; errorsSeen.push_back("worker terminated abnormally, status " + std::to_string(st)); } }
  mergeAll(ctl->started);
  for (int i = 1; i <= ctl->started; i++) unlink(resultPath(i).c_str());
  rmdir(optTmp.c_str());
  bool timeout = ctl->stop == 2;
  std::string o = "{\n";
  auto num = [&](const char *k, uint64_t v) { o += std::string(" \"") + k + "\": " + std::to_string(v) + ",\n"; };
  num("paths", S.paths); num("paths_completed", S.pathsDone); num("paths_assumed_away", S.pathsAssumed); num("instructions", S.instrs); num("forks", S.forks); num("queries", S.queries); num("query_cache_hits", S.cacheHits + S.modelHits); num("sat", S.sat); num("unsat", S.unsat); num("unknown", S.unknown); num("checks", S.checks); num("checks_symbolic", S.checksSym); num("checks_proved_by_solver", S.solverObl); num("sched_points", S.schedPoints); num("symbolic_variables", S.symVars); num("max_threads", S.maxThreads); num("workers_started", ctl->started + 1); num("errors", S.errors); num("timeout", timeout);
  char b[64]; snprintf(b, 64, "%.3f", S.solverTime); o += std::string(" \"solver_time_s\": ") + b + ",\n"; snprintf(b, 64, "%.3f", now() - t0); o += std::string(" \"wall_s\": ") + b + ",\n";
  auto mp = [&](const char *k, const std::map<std::string, uint64_t> &m) { o += std::string(" \"") + k + "\": {"; bool first = true; for (auto &p : m) { o += std::string(first ? "" : ", ") + "\"" + jsonEsc(p.first) + "\": " + std::to_string(p.second); first = false; } o += "},\n"; };
  mp("covers", covers); mp("check_labels", checkLabels);
  o += " \"functions\": ["; { bool first = true; for (auto &u : usedFuncs) { const Function *F = Mod->getFunction(u); KFunc *k = F ? getK(F) : nullptr; std::string d = demang(u); bool repo = (k && k->origin == 1) || d.find("efsw") != std::string::npos; if (!repo) continue; o += std::string(first ? "" : ", ") + "\"" + jsonEsc(d.substr(0, 200)) + "\""; first = false; } } o += "],\n";
  num("library_functions", usedFuncs.size());
  o += " \"error_messages\": ["; for (size_t i = 0; i < errorsSeen.size(); i++) o += std::string(i ? ", " : "") + "\"" + jsonEsc(errorsSeen[i]) + "\""; o += "],\n";
  o += " \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) o += std::string(i ? ", {" : "{") + samples[i] + "}"; o += "],\n";
  o += " \"violations\": ["; for (size_t i = 0; i < violations.size(); i++) { auto &v = violations[i]; o += std::string(i ? ",\n  " : "\n  ") + "{\"kind\": \"" + v.kind + "\", \"label\": \"" + jsonEsc(v.label) + "\", \"message\": \"" + jsonEsc(v.msg) + "\", \"where\": \"" + jsonEsc(v.where) + "\", \"stack\": \"" + jsonEsc(v.stack) + "\", " + v.json + "}"; } o += "]\n}\n";
  if (!optOut.empty()) { FILE *f = fopen(optOut.c_str(), "w"); fwrite(o.data(), 1, o.size(), f); fclose(f); } else fputs(o.c_str(), stdout);
  fflush(stdout); _exit(violations.empty() ? (S.errors || timeout ? 2 : 0) : 1);
}
