// included inside class Engine
std::unordered_map<const Value *, int> *curMap = nullptr;
int opnd(PFunc &pf, const Value *v) {
    auto it = curMap->find(v);
    if (it != curMap->end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) {
        // undef/poison scalars get a fresh unconstrained value at use time
        if (isa<UndefValue>(c) && !c->getType()->isAggregateType()) { pf.consts.push_back(Val{(Expr *)UNINIT, bitsOf(c->getType())}); }
        else pf.consts.push_back(evalConst(c));
        int i = ~(int)(pf.consts.size() - 1);
        (*curMap)[v] = i;
        return i;
    }
    pf.consts.push_back(Val{});   // metadata and the like
    return ~(int)(pf.consts.size() - 1);
}
PFunc *pfunc(Function *F) {
    auto &p = funcs[F];
    if (p) return p.get();
    p = std::make_unique<PFunc>();
    PFunc &pf = *p;
    pf.F = F;
    std::unordered_map<const Value *, int> map;
    auto *saved = curMap;
    curMap = &map;
    int n = 0;
    for (auto &a : F->args()) { map[&a] = n++; pf.argw.push_back(bitsOf(a.getType())); }
    std::unordered_map<const BasicBlock *, int> bbi;
    int bi = 0;
    for (auto &bb : *F) {
        bbi[&bb] = bi++;
        for (auto &I : bb) if (!I.getType()->isVoidTy()) map[&I] = n++;
    }
    pf.nregs = n;
    pf.bbs.resize(bi);
    bi = 0;
    for (auto &bb : *F) {
        PBlock &pb = pf.bbs[bi++];
        std::set<std::string> fs, ls;
        for (auto &I : bb) {
            if (auto &d = I.getDebugLoc()) {
                for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
                    StringRef fn = l->getFilename();
                    if (!fn.starts_with(opt.repo)) continue;
                    if (auto *sp = l->getScope()->getSubprogram()) {
                        std::string nm = sp->getName().str();
                        fs.insert(fn.substr(opt.repo.size() + 1).str() + ":" + nm);
                    }
                    ls.insert(fn.substr(opt.repo.size() + 1).str() + ":" + std::to_string(l->getLine()));
                }
            }
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            PInst pi;
            pi.I = &I;
            pi.dst = I.getType()->isVoidTy() ? -1 : map[&I];
            pi.w = bitsOf(I.getType());
            auto edge = [&](const BasicBlock *to) {
                PEdge e; e.to = bbi[to];
                for (auto &ph : to->phis()) e.phis.push_back({map[&ph], opnd(pf, ph.getIncomingValueForBlock(&bb))});
                pi.edges.push_back(e);
            };
            auto O = [&](unsigned i) { return opnd(pf, I.getOperand(i)); };
            if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                pi.sub = bo->getOpcode();
                pi.a = O(0); pi.b = O(1);
                pi.cmd = I.getType()->isFPOrFPVectorTy() ? C_FBIN : C_BIN;
                if (I.getType()->isVectorTy()) pi.cmd = C_UNSUPPORTED;
            } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                pi.cmd = C_ICMP; pi.sub = ic->getPredicate(); pi.a = O(0); pi.b = O(1); pi.w2 = bitsOf(I.getOperand(0)->getType());
                if (I.getType()->isVectorTy()) pi.cmd = C_UNSUPPORTED;
            } else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
                pi.cmd = C_FCMP; pi.sub = fc->getPredicate(); pi.a = O(0); pi.b = O(1); pi.w2 = bitsOf(I.getOperand(0)->getType());
            } else if (isa<ZExtInst>(I)) { pi.cmd = C_ZEXT; pi.a = O(0); pi.w2 = bitsOf(I.getOperand(0)->getType()); if (I.getType()->isVectorTy()) pi.cmd = C_UNSUPPORTED; }
            else if (isa<SExtInst>(I)) { pi.cmd = C_SEXT; pi.a = O(0); pi.w2 = bitsOf(I.getOperand(0)->getType()); if (I.getType()->isVectorTy()) pi.cmd = C_UNSUPPORTED; }
            else if (isa<TruncInst>(I)) { pi.cmd = C_TRUNC; pi.a = O(0); pi.w2 = bitsOf(I.getOperand(0)->getType()); if (I.getType()->isVectorTy()) pi.cmd = C_UNSUPPORTED; }
            else if (isa<BitCastInst>(I)) { pi.cmd = C_MOV; pi.a = O(0); pi.w2 = pi.w; }
            else if (isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) {
                uint32_t sw = bitsOf(I.getOperand(0)->getType());
                pi.cmd = sw == pi.w ? C_MOV : sw < pi.w ? C_ZEXT : C_TRUNC; pi.a = O(0); pi.w2 = sw;
            } else if (isa<FPToUIInst>(I) || isa<FPToSIInst>(I) || isa<UIToFPInst>(I) || isa<SIToFPInst>(I) || isa<FPExtInst>(I) || isa<FPTruncInst>(I)) {
                pi.cmd = C_FCAST; pi.sub = I.getOpcode(); pi.a = O(0); pi.w2 = bitsOf(I.getOperand(0)->getType());
            } else if (I.getOpcode() == Instruction::FNeg) { pi.cmd = C_FNEG; pi.a = O(0); }
            else if (isa<SelectInst>(I)) { pi.cmd = C_SELECT; pi.a = O(0); pi.b = O(1); pi.c = O(2); if (I.getOperand(0)->getType()->isVectorTy()) pi.cmd = C_UNSUPPORTED; }
            else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                pi.cmd = C_GEP; pi.a = opnd(pf, g->getPointerOperand());
                if (I.getType()->isVectorTy()) pi.cmd = C_UNSUPPORTED;
                int64_t off = 0;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (auto *st = it.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t sz = DL.getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz;
                    else pi.gep.push_back({opnd(pf, ix), sz, bitsOf(ix->getType())});
                }
                pi.k = (uint64_t)off;
            } else if (auto *l = dyn_cast<LoadInst>(&I)) {
                pi.cmd = C_LOAD; pi.a = opnd(pf, l->getPointerOperand()); pi.ty = I.getType(); pi.k = DL.getTypeStoreSize(I.getType());
                pi.sub = I.getType()->isAggregateType() || I.getType()->isVectorTy() || pi.k > 8;
            } else if (auto *st = dyn_cast<StoreInst>(&I)) {
                pi.cmd = C_STORE; pi.a = opnd(pf, st->getPointerOperand()); pi.b = opnd(pf, st->getValueOperand()); pi.ty = st->getValueOperand()->getType();
                pi.w = bitsOf(pi.ty); pi.k = DL.getTypeStoreSize(pi.ty);
                pi.sub = pi.ty->isAggregateType() || pi.ty->isVectorTy() || pi.k > 8;
            } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                pi.cmd = C_ALLOCA; pi.k = DL.getTypeAllocSize(al->getAllocatedType()); pi.a = opnd(pf, al->getArraySize());
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isUnconditional()) { pi.cmd = C_BR; edge(br->getSuccessor(0)); }
                else { pi.cmd = C_CONDBR; pi.a = opnd(pf, br->getCondition()); edge(br->getSuccessor(0)); edge(br->getSuccessor(1)); }
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                pi.cmd = C_SWITCH; pi.a = opnd(pf, sw->getCondition()); pi.w2 = bitsOf(sw->getCondition()->getType());
                edge(sw->getDefaultDest());
                std::map<const BasicBlock *, int> ei; 
                for (auto &c : sw->cases()) {
                    auto *to = c.getCaseSuccessor();
                    if (!ei.count(to)) { ei[to] = pi.edges.size(); edge(to); }
                    pi.cases.push_back(c.getCaseValue()->getValue()); pi.caseEdge.push_back(ei[to]);
                }
            } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
                pi.cmd = C_RET; pi.k = r->getReturnValue() ? 1 : 0; if (pi.k) { pi.a = opnd(pf, r->getReturnValue()); pi.w = bitsOf(r->getReturnValue()->getType()); }
            } else if (isa<UnreachableInst>(I)) pi.cmd = C_UNREACHABLE;
            else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                pi.cmd = C_EXTRACTV; pi.a = O(0); Type *t = ev->getAggregateOperand()->getType(); pi.w2 = bitsOf(t);
                for (unsigned ix : ev->indices()) { pi.k += elemOff(t, ix); t = elemTy(t, ix); }
            } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                pi.cmd = C_INSERTV; pi.a = opnd(pf, iv->getAggregateOperand()); pi.b = opnd(pf, iv->getInsertedValueOperand()); Type *t = I.getType();
                for (unsigned ix : iv->indices()) { pi.k += elemOff(t, ix); t = elemTy(t, ix); }
                pi.w2 = bitsOf(t);
            } else if (isa<FreezeInst>(I)) { pi.cmd = C_FREEZE; pi.a = O(0); }
            else if (auto *ar = dyn_cast<AtomicRMWInst>(&I)) {
                pi.cmd = C_ATOMICRMW; pi.sub = ar->getOperation(); pi.a = opnd(pf, ar->getPointerOperand()); pi.b = opnd(pf, ar->getValOperand()); pi.ty = I.getType(); pi.k = DL.getTypeStoreSize(pi.ty);
            } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                pi.cmd = C_CMPXCHG; pi.a = opnd(pf, cx->getPointerOperand()); pi.b = opnd(pf, cx->getCompareOperand()); pi.c = opnd(pf, cx->getNewValOperand());
                pi.ty = cx->getCompareOperand()->getType(); pi.w2 = bitsOf(pi.ty); pi.k = DL.getTypeStoreSize(pi.ty);
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                pi.cmd = C_CALL;
                for (unsigned i = 0; i < cb->arg_size(); ++i) pi.ops.push_back(cb->getArgOperand(i)->getType()->isMetadataTy() ? 0 : opnd(pf, cb->getArgOperand(i)));
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                if (auto *cf = dyn_cast<Function>(cv)) {
                    pi.callee = cf;
                    if (cf->isDeclaration() || isOverride(cf->getName())) { pi.builtin = builtinId(cf->getName()); }
                    if (pi.builtin == B_NOP && pi.dst < 0) continue;
                } else { pi.a = opnd(pf, cb->getCalledOperand()); if (cb->isInlineAsm()) pi.builtin = B_ASM; }
                if (auto *inv = dyn_cast<InvokeInst>(&I)) edge(inv->getNormalDest());
            } else if (isa<FenceInst>(I)) continue;
            else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) {
                auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand());
                if (!ci) pi.cmd = C_UNSUPPORTED;
                else { pi.cmd = C_EXTRACTV; pi.a = O(0); pi.w2 = bitsOf(ee->getVectorOperandType()); pi.k = ci->getZExtValue() * pi.w; }
            } else if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
                auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2));
                if (!ci) pi.cmd = C_UNSUPPORTED;
                else { pi.cmd = C_INSERTV; pi.a = O(0); pi.b = O(1); pi.w2 = bitsOf(I.getOperand(1)->getType()); pi.k = ci->getZExtValue() * pi.w2; }
            } else pi.cmd = C_UNSUPPORTED;
            pb.is.push_back(std::move(pi));
        }
        pb.funcs.assign(fs.begin(), fs.end());
        pb.lines.assign(ls.begin(), ls.end());
    }
    curMap = saved;
    return &pf;
}

// ---- builtins
enum Builtin { B_NONE = -1, B_NOP = 1, B_MALLOC, B_NEW, B_NEWARR, B_FREE, B_DELETE, B_DELARR, B_CALLOC, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP,
    B_ABORT, B_TRAP, B_LIFE_START, B_LIFE_END, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_FSHL, B_FSHR, B_BITREV,
    B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_UADDSAT, B_USUBSAT, B_SADDSAT, B_SSUBSAT, B_ASSUME, B_EXPECT, B_TLA, B_SYMTHREAD, B_ISCONST, B_OBJSIZE, B_STACKSAVE,
    B_SYM8, B_SYM16, B_SYM32, B_SYM64, B_SYMBYTES, B_SYMASSUME, B_SYMASSERT, B_SYMCOVER, B_SYMCONC, B_SYMPARAM, B_SYMOBS, B_SYMNOTE, B_SYMSYMB, B_SYMVALID, B_SYMITE, B_ATEXIT, B_THROW, B_ASM, B_EXIT,
    B_PTRMASK, B_UCMP, B_SCMP, B_FABS, B_RETZERO };
bool isOverride(StringRef n) { return false; }
int builtinId(StringRef n) {
    static const std::map<std::string, int> t = {
        {"malloc", B_MALLOC}, {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnwmSt11align_val_t", B_NEW}, {"free", B_FREE}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE},
        {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"calloc", B_CALLOC}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP},
        {"abort", B_ABORT}, {"__assert_fail", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT},
        {"sym_u8", B_SYM8}, {"sym_u16", B_SYM16}, {"sym_u32", B_SYM32}, {"sym_u64", B_SYM64}, {"sym_bytes", B_SYMBYTES}, {"sym_assume", B_SYMASSUME}, {"sym_assert", B_SYMASSERT},
        {"sym_cover", B_SYMCOVER}, {"sym_concretize", B_SYMCONC}, {"sym_param", B_SYMPARAM}, {"sym_observe", B_SYMOBS}, {"sym_note", B_SYMNOTE}, {"sym_thread_switch", B_SYMTHREAD}, {"sym_is_symbolic", B_SYMSYMB}, {"sym_valid_range", B_SYMVALID}, {"sym_ite", B_SYMITE},
        {"__cxa_atexit", B_ATEXIT}, {"atexit", B_ATEXIT}, {"llvm.trap", B_TRAP}, {"llvm.ubsantrap", B_TRAP}, {"llvm.debugtrap", B_TRAP}, {"llvm.assume", B_NOP}, {"llvm.donothing", B_NOP}, {"llvm.sideeffect", B_NOP},
        {"llvm.experimental.noalias.scope.decl", B_NOP}, {"llvm.var.annotation", B_NOP}, {"llvm.stackrestore", B_NOP}, {"llvm.stackrestore.p0", B_NOP}, {"llvm.prefetch.p0", B_NOP}, {"llvm.va_start", B_ABORT},
    };
    auto it = t.find(n.str());
    if (it != t.end()) return it->second;
    static const std::vector<std::pair<std::string, int>> pre = {
        {"llvm.memcpy.", B_MEMCPY}, {"llvm.memmove.", B_MEMMOVE}, {"llvm.memset.", B_MEMSET}, {"llvm.lifetime.start", B_LIFE_START}, {"llvm.lifetime.end", B_LIFE_END}, {"llvm.invariant", B_NOP},
        {"llvm.bswap.", B_BSWAP}, {"llvm.ctpop.", B_CTPOP}, {"llvm.ctlz.", B_CTLZ}, {"llvm.cttz.", B_CTTZ}, {"llvm.umin.", B_UMIN}, {"llvm.umax.", B_UMAX}, {"llvm.smin.", B_SMIN}, {"llvm.smax.", B_SMAX},
        {"llvm.abs.", B_ABS}, {"llvm.fshl.", B_FSHL}, {"llvm.fshr.", B_FSHR}, {"llvm.bitreverse.", B_BITREV}, {"llvm.uadd.with.overflow.", B_UADDO}, {"llvm.usub.with.overflow.", B_USUBO}, {"llvm.umul.with.overflow.", B_UMULO},
        {"llvm.sadd.with.overflow.", B_SADDO}, {"llvm.ssub.with.overflow.", B_SSUBO}, {"llvm.smul.with.overflow.", B_SMULO}, {"llvm.uadd.sat.", B_UADDSAT}, {"llvm.usub.sat.", B_USUBSAT}, {"llvm.sadd.sat.", B_SADDSAT}, {"llvm.ssub.sat.", B_SSUBSAT},
        {"llvm.expect.", B_EXPECT}, {"llvm.threadlocal.address", B_TLA}, {"llvm.launder.invariant", B_TLA}, {"llvm.strip.invariant", B_TLA}, {"llvm.ptr.annotation", B_TLA}, {"llvm.annotation", B_TLA}, {"llvm.ssa.copy", B_TLA},
        {"llvm.is.constant.", B_ISCONST}, {"llvm.objectsize.", B_OBJSIZE}, {"llvm.stacksave", B_STACKSAVE}, {"_ZSt", B_NONE}, {"llvm.fabs.", B_FABS}, {"llvm.prefetch", B_NOP},
    };
    for (auto &p : pre) if (n.starts_with(p.first)) {
        if (p.first == "_ZSt") { // std::__throw_*
            std::string s = n.str();
            if (s.find("__throw_") != std::string::npos) return B_THROW;
            return B_NONE;
        }
        return p.second;
    }
    return B_NONE;
}
