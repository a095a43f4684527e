// included inside class Engine
inline Val R(State &s, Frame &f, int i) {
    if (i >= 0) return f.regs[i];
    const Val &v = f.f->consts[~i];
    if (v.e == UNINIT) return Val{freshUninit(s, v.c), 0};
    return v;
}
void pushFrame(State &s, Function *F, std::vector<Val> &&args, const PInst *call) {
    PFunc *pf = pfunc(F);
    if (s.stack.size() > 2000) fail(s, "recursion", "call depth exceeds 2000");
    s.stack.emplace_back();
    Frame &f = s.stack.back();
    f.f = pf; f.regs.resize(pf->nregs); f.call = call;
    for (size_t i = 0; i < args.size() && i < pf->argw.size(); ++i) f.regs[i] = args[i];
    enter(pf->bbs[0]);
}
void enter(PBlock &b) {
    if (b.seen) return;
    b.seen = true;
    for (auto &x : b.funcs) rep.functions.insert(x);
    for (auto &x : b.lines) rep.lines.insert(x);
}
void jump(State &s, Frame &f, const PEdge &e) {
    if (!e.phis.empty()) {
        if (e.phis.size() == 1) f.regs[e.phis[0].first] = R(s, f, e.phis[0].second);
        else {
            SmallVector<Val, 8> tmp;
            for (auto &p : e.phis) tmp.push_back(R(s, f, p.second));
            for (size_t i = 0; i < e.phis.size(); ++i) f.regs[e.phis[i].first] = tmp[i];
        }
    }
    f.bb = e.to; f.ip = 0;
    enter(f.f->bbs[e.to]);
}
static Expr *binE(unsigned op, Expr *a, Expr *b) {
    switch (op) {
    case Instruction::Add: return mkAdd(a, b); case Instruction::Sub: return mkSub(a, b); case Instruction::Mul: return mkMul(a, b);
    case Instruction::UDiv: return mkUDiv(a, b); case Instruction::SDiv: return mkSDiv(a, b); case Instruction::URem: return mkURem(a, b); case Instruction::SRem: return mkSRem(a, b);
    case Instruction::Shl: return mkShl(a, b); case Instruction::LShr: return mkLShr(a, b); case Instruction::AShr: return mkAShr(a, b);
    case Instruction::And: return mkAnd(a, b); case Instruction::Or: return mkOr(a, b); case Instruction::Xor: return mkXor(a, b);
    }
    abort();
}
static Expr *icmpE(unsigned p, Expr *a, Expr *b) {
    switch (p) {
    case ICmpInst::ICMP_EQ: return mkEq(a, b); case ICmpInst::ICMP_NE: return mkNe(a, b);
    case ICmpInst::ICMP_ULT: return mkUlt(a, b); case ICmpInst::ICMP_ULE: return mkUle(a, b); case ICmpInst::ICMP_UGT: return mkUlt(b, a); case ICmpInst::ICMP_UGE: return mkUle(b, a);
    case ICmpInst::ICMP_SLT: return mkSlt(a, b); case ICmpInst::ICMP_SLE: return mkSle(a, b); case ICmpInst::ICMP_SGT: return mkSlt(b, a); case ICmpInst::ICMP_SGE: return mkSle(b, a);
    }
    abort();
}
Val doBin(State &s, const PInst &pi, const Val &a, const Val &b) {
    uint32_t w = pi.w;
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c, m = maskw(w), r = 0;
        switch (pi.sub) {
        case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
        case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
        case Instruction::AShr: r = y >= w ? (sxv(x, w) < 0 ? m : 0) : (uint64_t)(sxv(x, w) >> y); break;
        case Instruction::UDiv: if (!y) fail(s, "arithmetic", "division by zero"); r = x / y; break;
        case Instruction::URem: if (!y) fail(s, "arithmetic", "division by zero"); r = x % y; break;
        case Instruction::SDiv: case Instruction::SRem: {
            int64_t p = sxv(x, w), q = sxv(y, w);
            if (!q) fail(s, "arithmetic", "division by zero");
            if (q == -1) r = pi.sub == Instruction::SDiv ? 0 - x : 0;
            else r = pi.sub == Instruction::SDiv ? p / q : p % q;
            break;
        }
        }
        return Val{nullptr, r & m};
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    if (pi.sub == Instruction::UDiv || pi.sub == Instruction::SDiv || pi.sub == Instruction::URem || pi.sub == Instruction::SRem) {
        if (!y->isConst()) { if (decideRetry(s, mkEq(y, mkConst(w, 0)))) fail(s, "arithmetic", "division by zero"); }
        else if (constVal(y).isZero()) fail(s, "arithmetic", "division by zero");
    }
    return fromE(binE(pi.sub, x, y));
}
bool doIcmpC(unsigned p, uint64_t x, uint64_t y, uint32_t w) {
    switch (p) {
    case ICmpInst::ICMP_EQ: return x == y; case ICmpInst::ICMP_NE: return x != y;
    case ICmpInst::ICMP_ULT: return x < y; case ICmpInst::ICMP_ULE: return x <= y; case ICmpInst::ICMP_UGT: return x > y; case ICmpInst::ICMP_UGE: return x >= y;
    case ICmpInst::ICMP_SLT: return sxv(x, w) < sxv(y, w); case ICmpInst::ICMP_SLE: return sxv(x, w) <= sxv(y, w); case ICmpInst::ICMP_SGT: return sxv(x, w) > sxv(y, w); case ICmpInst::ICMP_SGE: return sxv(x, w) >= sxv(y, w);
    }
    abort();
}
static double toD(const Val &v, uint32_t w) { if (w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, uint32_t w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return Val{nullptr, u}; } uint64_t u; memcpy(&u, &d, 8); return Val{nullptr, u}; }

void retVal(State &s, Frame &f, const PInst &pi, const Val &v) { if (pi.dst >= 0) f.regs[pi.dst] = v; }

// memory compare expression over n bytes; eqOnly -> 0/1
Val memCmp(State &s, const Val &pa, const Val &pb, uint64_t n, bool eqOnly) {
    if (n == 0) return Val{};
    Loc a = resolveC(s, pa, n, false, "read"), b = resolveC(s, pb, n, false, "read");
    if (eqOnly) {
        Expr *eq = mkTrue();
        for (uint64_t i = 0; i < n; ++i) {
            Bytes *ba = objR(s, a.slot).b; Expr *x = byteE(s, a.slot, ba, a.off + i);
            Bytes *bb = objR(s, b.slot).b; Expr *y = byteE(s, b.slot, bb, b.off + i);
            eq = mkAnd(eq, mkEq(x, y));
            if (eq->isFalse()) break;
        }
        return fromE(mkZExt(mkNot(eq), 32));
    }
    Expr *r = mkConst(32, 0);
    for (uint64_t i = n; i-- > 0;) {
        Bytes *ba = objR(s, a.slot).b; Expr *x = byteE(s, a.slot, ba, a.off + i);
        Bytes *bb = objR(s, b.slot).b; Expr *y = byteE(s, b.slot, bb, b.off + i);
        Expr *d = mkIte(mkUlt(x, y), mkConst(32, ~0ull), mkConst(32, 1));
        r = mkIte(mkEq(x, y), r, d);
    }
    return fromE(r);
}
Expr *newSym(State &s, const std::string &name, uint32_t w) {
    int k = s.counts[name]++;
    std::string nm = k ? name + "#" + std::to_string(k) : name;
    Expr *e = mkVar(nm, w);
    s.syms.push_back(e);
    return e;
}
uint64_t allocSize(State &s, const Val &v) {
    if (v.e) {
        // an attacker controlled size must not be able to exceed the object limit
        if (decideRetry(s, mkUlt(mkConst(64, 8u << 20), v.e))) fail(s, "memory", "allocation of more than 8 MiB (bad_alloc)");
    }
    uint64_t n = conc(s, v);
    if (n > (8u << 20)) fail(s, "memory", "allocation of more than 8 MiB (bad_alloc)");
    return n;
}
void freeObj(State &s, uint64_t p, ObjKind k, const char *what) {
    if (p == 0) return;
    uint32_t slot = p >> SLOT_SHIFT;
    if (slot == 0 || slot >= s.nslots || p != slotBase(slot)) fail(s, "memory", std::string("invalid ") + what);
    Obj &o = objR(s, slot);
    if (o.kind < OHeap) fail(s, "memory", std::string(what) + " of a non-heap object");
    if (!o.alive) fail(s, "memory", std::string("double ") + what);
    if (o.kind != k) fail(s, "memory", std::string(what) + " does not match the allocation function");
    killObj(s, slot);
}
// returns true when the instruction pointer must advance
void builtin(State &s, Frame &f, const PInst &pi) {
    auto A = [&](unsigned i) { return R(s, f, pi.ops[i]); };
    auto AW = [&](unsigned i) { return bitsOf(cast<CallBase>(pi.I)->getArgOperand(i)->getType()); };
    uint32_t w = pi.w;
    auto N = [&](unsigned i) { Val v = A(i); uint64_t p = v.c; if (v.e) { Expr *e = peelIte(s, v.e); p = e->isConst() ? e->k : concretize(s, e); } return cstr(s, p); };
    switch (pi.builtin) {
    case B_NOP: retVal(s, f, pi, Val{}); break;
    case B_ATEXIT: case B_RETZERO: retVal(s, f, pi, Val{}); break;
    case B_TLA: {
        Val p = A(0);
        if (s.inThread && !p.e) {
            uint32_t sl = (uint32_t)(p.c >> SLOT_SHIFT);
            auto pr = tlsInit.find(sl);
            if (pr != tlsInit.end()) {
                auto it = s.tls.find(sl);
                if (it == s.tls.end()) {
                    uint32_t n = newObj(s, pr->second.size(), OGlobal, false);
                    memcpy(objW(s, n).b->d, pr->second.data(), pr->second.size());
                    it = s.tls.emplace(sl, n).first;
                }
                p.c = slotBase(it->second) + (p.c - slotBase(sl));
            }
        }
        retVal(s, f, pi, p); break;
    }
    case B_SYMTHREAD: {
        bool on = conc(s, A(0));
        for (auto &t : s.tls) killObj(s, t.second);   // the storage of an ended thread is gone
        s.tls.clear(); s.inThread = on;
        break;
    }
    case B_EXPECT: retVal(s, f, pi, A(0)); break;
    case B_ISCONST: retVal(s, f, pi, Val{nullptr, 0}); break;
    case B_OBJSIZE: { Val m = A(1); retVal(s, f, pi, Val{nullptr, m.c ? 0 : maskw(w)}); break; }
    case B_STACKSAVE: retVal(s, f, pi, Val{}); break;
    case B_MALLOC: case B_NEW: case B_NEWARR: {
        uint64_t n = allocSize(s, A(0));
        uint32_t sl = newObj(s, n, pi.builtin == B_MALLOC ? OMalloc : pi.builtin == B_NEW ? OHeap : OHeapArr, true);
        retVal(s, f, pi, Val{nullptr, slotBase(sl)});
        break;
    }
    case B_CALLOC: { uint64_t n = conc(s, A(0)) * conc(s, A(1)); uint32_t sl = newObj(s, n, OMalloc, false); retVal(s, f, pi, Val{nullptr, slotBase(sl)}); break; }
    case B_FREE: freeObj(s, conc(s, A(0)), OMalloc, "free"); break;
    case B_DELETE: freeObj(s, conc(s, A(0)), OHeap, "delete"); break;
    case B_DELARR: freeObj(s, conc(s, A(0)), OHeapArr, "delete[]"); break;
    case B_MEMCPY: case B_MEMMOVE: {
        uint64_t n = conc(s, A(2));
        copyMem(s, A(0), A(1), n);
        retVal(s, f, pi, A(0));
        break;
    }
    case B_MEMSET: {
        uint64_t n = conc(s, A(2));
        Val v = A(1);
        if (n) {
            Loc d = resolveC(s, A(0), n, true, "write");
            Bytes *b = bytesW(s, d.slot);
            if (!v.e) { memset(b->d + d.off, (int)v.c, n); if (b->s) for (uint64_t i = 0; i < n; ++i) b->s[d.off + i] = nullptr; }
            else { b->needSym(); Expr *e8 = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; ++i) b->s[d.off + i] = e8; }
        }
        retVal(s, f, pi, A(0));
        break;
    }
    case B_MEMCMP: case B_BCMP: { uint64_t n = conc(s, A(2)); retVal(s, f, pi, memCmp(s, A(0), A(1), n, pi.builtin == B_BCMP)); break; }
    case B_ABORT: fail(s, "abort", "abort/terminate called"); 
    case B_THROW: fail(s, "exception", "uncaught exception: " + pi.callee->getName().str());
    case B_TRAP: {
        std::string msg = "trap";
        if (pi.callee->getName() == "llvm.ubsantrap") {
            static const std::map<int, std::string> k = {{0, "integer overflow (add)"}, {1, "builtin unreachable"}, {3, "division overflow"}, {5, "float cast"}, {11, "missing return"}, {12, "integer overflow (mul)"}, {13, "integer overflow (negate)"}, {15, "non-null arg"}, {18, "array index out of bounds"}, {20, "shift out of bounds"}, {21, "integer overflow (sub)"}};
            auto v = A(0); auto it = k.find(v.c); msg = "undefined behaviour: " + (it == k.end() ? "check " + std::to_string(v.c) : it->second);
        }
        fail(s, "undefined", msg);
    }
    case B_EXIT: fail(s, "abort", "exit called");
    case B_LIFE_START: case B_LIFE_END: {
        Val p = A(1);
        if (p.e) break;
        uint32_t sl = p.c >> SLOT_SHIFT;
        if (!sl || sl >= s.nslots) break;
        Obj &o = objW(s, sl);
        if (o.kind != OStack || !o.alive) break;
        if (pi.builtin == B_LIFE_END) o.ended = true;
        else {
            o.ended = false;
            Bytes *b = bytesW(s, sl); b->needSym();
            for (uint64_t i = 0; i < b->size; ++i) b->s[i] = UNINIT;
        }
        break;
    }
    case B_BSWAP: {
        Val v = A(0);
        if (!v.e) { uint64_t r = 0; for (uint32_t i = 0; i < w / 8; ++i) r = (r << 8) | ((v.c >> (8 * i)) & 0xff); retVal(s, f, pi, Val{nullptr, r}); break; }
        Expr *r = nullptr;
        for (uint32_t i = 0; i < w / 8; ++i) { Expr *x = mkExtract(v.e, 8 * i, 8); r = r ? mkConcat(r, x) : x; }
        retVal(s, f, pi, fromE(r));
        break;
    }
    case B_BITREV: { Expr *e = ex(A(0), w), *r = nullptr; for (uint32_t i = 0; i < w; ++i) { Expr *x = mkExtract(e, i, 1); r = r ? mkConcat(r, x) : x; } retVal(s, f, pi, fromE(r)); break; }
    case B_CTPOP: {
        Expr *e = ex(A(0), w), *r = mkConst(w, 0);
        if (e->isConst()) { retVal(s, f, pi, Val{nullptr, constVal(e).popcount()}); break; }
        for (uint32_t i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(e, i, 1), w));
        retVal(s, f, pi, fromE(r)); break;
    }
    case B_CTLZ: case B_CTTZ: {
        Expr *e = ex(A(0), w), *r = mkConst(w, w);
        if (pi.builtin == B_CTLZ) { for (uint32_t i = 0; i < w; ++i) r = mkIte(mkExtract(e, i, 1), mkConst(w, w - 1 - i), r); }
        else { for (uint32_t i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(w, i), r); }
        retVal(s, f, pi, fromE(r)); break;
    }
    case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
        Expr *a = ex(A(0), w), *b = ex(A(1), w);
        Expr *lt = (pi.builtin == B_UMIN || pi.builtin == B_UMAX) ? mkUlt(a, b) : mkSlt(a, b);
        bool mn = pi.builtin == B_UMIN || pi.builtin == B_SMIN;
        retVal(s, f, pi, fromE(mn ? mkIte(lt, a, b) : mkIte(lt, b, a)));
        break;
    }
    case B_ABS: { Expr *a = ex(A(0), w); retVal(s, f, pi, fromE(mkIte(mkSlt(a, mkConst(w, 0)), mkNeg(a), a))); break; }
    case B_FSHL: case B_FSHR: {
        Expr *a = ex(A(0), w), *b = ex(A(1), w); Expr *c = ex(A(2), w);
        if (!c->isConst()) c = mkConst(w, concretize(s, c));
        uint64_t k = constVal(c).urem(w);
        if (pi.builtin == B_FSHR) k = k ? w - k : 0, retVal(s, f, pi, k ? fromE(mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k))) : fromE(b));
        else retVal(s, f, pi, k ? fromE(mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k))) : fromE(a));
        break;
    }
    case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
        uint32_t n = AW(0);
        Expr *a = ex(A(0), n), *b = ex(A(1), n);
        bool sg = pi.builtin >= B_SADDO;
        Expr *r, *o;
        if (a->isConst()) { if (pi.builtin != B_USUBO && pi.builtin != B_SSUBO) std::swap(a, b); }
        switch (pi.builtin) {
        case B_UADDO: r = mkAdd(a, b); o = mkUlt(r, a); if (b->isConst()) o = mkUlt(mkConst(~constVal(b)), a); break;
        case B_USUBO: r = mkSub(a, b); o = mkUlt(a, b); break;
        case B_UMULO: {
            r = mkMul(a, b);
            if (b->isConst()) { APInt c = constVal(b); o = c.isZero() ? mkFalse() : mkUlt(mkConst(APInt::getAllOnes(n).udiv(c)), a); }
            else { Expr *p = mkMul(mkZExt(a, 2 * n), mkZExt(b, 2 * n)); o = mkNe(mkExtract(p, n, n), mkConst(n, 0)); }
            break;
        }
        case B_SADDO: case B_SSUBO: {
            r = pi.builtin == B_SADDO ? mkAdd(a, b) : mkSub(a, b);
            if (b->isConst()) {
                APInt c = constVal(b);
                APInt mx = APInt::getSignedMaxValue(n), mn = APInt::getSignedMinValue(n);
                bool add = pi.builtin == B_SADDO;
                if (c.isZero()) o = mkFalse();
                else if (add != c.isNegative()) o = mkSlt(mkConst(add ? mx - c : mx + c), a);      // overflow upwards
                else o = mkSlt(a, mkConst(add ? mn - c : mn + c));                                  // overflow downwards
            } else {
                Expr *x = mkSExt(a, n + 1), *y = mkSExt(b, n + 1);
                Expr *t = pi.builtin == B_SADDO ? mkAdd(x, y) : mkSub(x, y);
                o = mkNe(mkExtract(t, n, 1), mkExtract(t, n - 1, 1));
            }
            break;
        }
        default: {
            r = mkMul(a, b);
            if (b->isConst()) {
                APInt c = constVal(b);
                APInt mx = APInt::getSignedMaxValue(n), mn = APInt::getSignedMinValue(n);
                if (c.isZero() || c.isOne()) o = mkFalse();
                else if (c.isAllOnes()) o = mkEq(a, mkConst(mn));
                else {
                    // a*c in [mn,mx]  <=>  ceil(mn/c) <= a <= floor(mx/c) (c>0), reversed for c<0
                    APInt lo = c.isNegative() ? mx.sdiv(c) : mn.sdiv(c), hi = c.isNegative() ? mn.sdiv(c) : mx.sdiv(c);
                    o = mkOr(mkSlt(a, mkConst(lo)), mkSlt(mkConst(hi), a));
                }
            } else { Expr *p = mkMul(mkSExt(a, 2 * n), mkSExt(b, 2 * n)); o = mkNe(p, mkSExt(r, 2 * n)); }
        }
        }
        (void)sg;
        retVal(s, f, pi, fromE(mkConcat(o, r)));
        break;
    }
    case B_UADDSAT: { Expr *a = ex(A(0), w), *b = ex(A(1), w), *r = mkAdd(a, b); retVal(s, f, pi, fromE(mkIte(mkUlt(r, a), mkConst(APInt::getAllOnes(w)), r))); break; }
    case B_USUBSAT: { Expr *a = ex(A(0), w), *b = ex(A(1), w); retVal(s, f, pi, fromE(mkIte(mkUlt(a, b), mkConst(APInt(w, 0)), mkSub(a, b)))); break; }
    case B_SADDSAT: case B_SSUBSAT: {
        Expr *a = mkSExt(ex(A(0), w), w + 1), *b = mkSExt(ex(A(1), w), w + 1);
        Expr *t = pi.builtin == B_SADDSAT ? mkAdd(a, b) : mkSub(a, b);
        Expr *mx = mkConst(APInt::getSignedMaxValue(w).sext(w + 1)), *mn = mkConst(APInt::getSignedMinValue(w).sext(w + 1));
        retVal(s, f, pi, fromE(mkExtract(mkIte(mkSlt(mx, t), mx, mkIte(mkSlt(t, mn), mn, t)), 0, w)));
        break;
    }
    case B_FABS: { Val v = A(0); if (v.e) { retVal(s, f, pi, fromE(mkAnd(v.e, mkConst(w, maskw(w) >> 1)))); break; } retVal(s, f, pi, Val{nullptr, v.c & (maskw(w) >> 1)}); break; }
    // ---- harness interface
    case B_SYM8: case B_SYM16: case B_SYM32: case B_SYM64: {
        std::string nm = N(0);
        uint32_t n = pi.builtin == B_SYM8 ? 8 : pi.builtin == B_SYM16 ? 16 : pi.builtin == B_SYM32 ? 32 : 64;
        retVal(s, f, pi, Val{newSym(s, nm, n), 0});
        break;
    }
    case B_SYMBYTES: {
        uint64_t n = conc(s, A(1));
        std::string nm = N(2);
        if (n) {
            Loc d = resolveC(s, A(0), n, true, "write");
            int k = s.counts[nm]++;
            if (k) nm += "#" + std::to_string(k);
            Bytes *b = bytesW(s, d.slot); b->needSym();
            for (uint64_t i = 0; i < n; ++i) { Expr *e = mkVar(nm + "[" + std::to_string(i) + "]", 8); s.syms.push_back(e); b->s[d.off + i] = e; }
        }
        break;
    }
    case B_SYMASSUME: {
        Val v = A(0);
        if (!v.e) { if (!(v.c & 1)) { rep.killed++; throw Dead(); } break; }
        Expr *c = mkExtract(v.e, 0, 1);
        if (c->isConst()) { if (!c->k) { rep.killed++; throw Dead(); } break; }
        if (!evalU(c, s.model)) {
            Model m2;
            if (query(s, c, m2) != Res::Sat) { rep.killed++; throw Dead(); }
            s.model = m2;
        }
        addC(s, c);
        break;
    }
    case B_SYMASSERT: {
        Val v = A(0);
        std::string msg = N(1);
        rep.asserts++;
        if (!v.e) { if (!(v.c & 1)) fail(s, "assert", msg); break; }
        rep.asserts_symbolic++;
        Expr *c = mkExtract(v.e, 0, 1);
        if (c->isConst()) { if (!c->k) fail(s, "assert", msg); break; }
        Model m2;
        Res r = query(s, mkNot(c), m2);
        if (r == Res::Sat) {
            violation(s, m2, "assert", msg);
            if (stop) throw Dead();
            if (!evalU(c, s.model)) { Model m3; if (query(s, c, m3) != Res::Sat) throw Dead(); s.model = m3; }
            addC(s, c);
        } else if (r == Res::Unknown) {
            if (!evalU(c, s.model)) fail(s, "assert", msg);
        }
        break;
    }
    case B_SYMCOVER: {
        std::string nm = N(0);
        rep.covers[nm]++;
        auto it = coverIdx.find(nm);
        int ix;
        if (it == coverIdx.end()) { ix = coverNames.size(); coverNames.push_back(nm); coverIdx[nm] = ix; } else ix = it->second;
        s.covers.push_back(ix);
        break;
    }
    case B_SYMCONC: { Val v = A(0); retVal(s, f, pi, Val{nullptr, conc(s, v)}); break; }
    case B_SYMSYMB: { retVal(s, f, pi, Val{nullptr, A(0).e ? 1ull : 0ull}); break; }
    case B_SYMITE: { Expr *c = mkExtract(ex(A(0), AW(0)), 0, 1); retVal(s, f, pi, fromE(mkIte(c, ex(A(1), 64), ex(A(2), 64)))); break; }
    case B_SYMPARAM: { uint64_t i = conc(s, A(0)); retVal(s, f, pi, Val{nullptr, (uint64_t)(i < opt.params.size() ? opt.params[i] : 0)}); break; }
    case B_SYMOBS: { s.obs.push_back(ex(A(0), 64)); break; }
    case B_SYMNOTE: break;
    case B_SYMVALID: {
        // every byte of [p, p+n) must be readable
        uint64_t n = conc(s, A(1));
        if (n) { Loc l = resolve(s, A(0), n, false, "view"); (void)l; }
        break;
    }
    case B_ASM: retVal(s, f, pi, zeroSafe(pi.w)); break;
    default:
        unsupported(s, "call to external function " + pi.callee->getName().str());
    }
}
Val zeroSafe(uint32_t w) { return w ? zeroV(w) : Val{}; }

void step(State &s) {
    Frame &f = s.stack.back();
    const PInst &pi = f.f->bbs[f.bb].is[f.ip];
    switch (pi.cmd) {
    case C_BIN: f.regs[pi.dst] = doBin(s, pi, R(s, f, pi.a), R(s, f, pi.b)); f.ip++; return;
    case C_ICMP: {
        Val a = R(s, f, pi.a), b = R(s, f, pi.b);
        if (!a.e && !b.e && pi.w2 <= 64) f.regs[pi.dst] = Val{nullptr, doIcmpC(pi.sub, a.c, b.c, pi.w2)};
        else f.regs[pi.dst] = fromE(icmpE(pi.sub, ex(a, pi.w2), ex(b, pi.w2)));
        f.ip++; return;
    }
    case C_ZEXT: { Val a = R(s, f, pi.a); f.regs[pi.dst] = (!a.e && pi.w <= 64) ? a : fromE(mkZExt(ex(a, pi.w2), pi.w)); f.ip++; return; }
    case C_SEXT: { Val a = R(s, f, pi.a); f.regs[pi.dst] = (!a.e && pi.w <= 64) ? Val{nullptr, (uint64_t)sxv(a.c, pi.w2) & maskw(pi.w)} : fromE(mkSExt(ex(a, pi.w2), pi.w)); f.ip++; return; }
    case C_TRUNC: { Val a = R(s, f, pi.a); f.regs[pi.dst] = !a.e ? Val{nullptr, a.c & maskw(pi.w)} : fromE(mkExtract(a.e, 0, pi.w)); f.ip++; return; }
    case C_MOV: case C_FREEZE: f.regs[pi.dst] = R(s, f, pi.a); f.ip++; return;
    case C_SELECT: {
        Val c = R(s, f, pi.a);
        if (!c.e) { f.regs[pi.dst] = R(s, f, (c.c & 1) ? pi.b : pi.c); f.ip++; return; }
        uint64_t fx;
        if (lookupFixed(s, c.e, fx)) { f.regs[pi.dst] = R(s, f, (fx & 1) ? pi.b : pi.c); f.ip++; return; }
        Val a = R(s, f, pi.b), b = R(s, f, pi.c);
        f.regs[pi.dst] = fromE(mkIte(c.e, ex(a, pi.w), ex(b, pi.w)));
        f.ip++; return;
    }
    case C_GEP: {
        Val p = R(s, f, pi.a);
        if (!p.e) p.c += pi.k;
        else p = fromE(mkAdd(p.e, mkConst(64, pi.k)));
        for (auto &t : pi.gep) {
            Val ix = R(s, f, t.op);
            if (!ix.e && !p.e) p.c += (uint64_t)(sxv(ix.c, t.w) * t.scale);
            else p = fromE(mkAdd(ex(p, 64), mkMul(mkSExt(ex(ix, t.w), 64), mkConst(64, (uint64_t)t.scale))));
        }
        f.regs[pi.dst] = p; f.ip++; return;
    }
    case C_LOAD: {
        Val p = R(s, f, pi.a);
        if (!p.e && !pi.sub) {
            rep.memchecks++;
            if (!okAccess(s, p.c, pi.k)) fail(s, "memory", accErr(s, p.c, pi.k, "read"));
            uint32_t slot = p.c >> SLOT_SHIFT;
            f.regs[pi.dst] = loadAt(s, slot, p.c - slotBase(slot), pi.k, pi.w);
        } else f.regs[pi.dst] = loadTy(s, p, pi.ty);
        f.ip++; return;
    }
    case C_STORE: {
        Val p = R(s, f, pi.a); 
        if (pi.b < 0 && f.f->consts[~pi.b].e == UNINIT) {   // storing undef: forget the contents
            Loc l = resolveC(s, p, pi.k, true, "write");
            Bytes *b = bytesW(s, l.slot); b->needSym();
            for (uint64_t i = 0; i < pi.k; ++i) b->s[l.off + i] = UNINIT;
            f.ip++; return;
        }
        Val v = R(s, f, pi.b);
        storeTy(s, p, v, pi.ty); f.ip++; return;
    }
    case C_ALLOCA: {
        uint64_t n = conc(s, R(s, f, pi.a));
        uint32_t sl = newObj(s, n * pi.k, OStack, true);
        f.allocas.push_back(sl);
        f.regs[pi.dst] = Val{nullptr, slotBase(sl)};
        f.ip++; return;
    }
    case C_BR: jump(s, f, pi.edges[0]); return;
    case C_CONDBR: {
        Val c = R(s, f, pi.a);
        if (!c.e) { jump(s, f, pi.edges[(c.c & 1) ? 0 : 1]); return; }
        State *o;
        bool v = decide(s, c.e, &o);
        if (o) { Frame &of = o->stack.back(); jump(*o, of, pi.edges[v ? 1 : 0]); work.push_back(o); }
        jump(s, f, pi.edges[v ? 0 : 1]);
        return;
    }
    case C_SWITCH: {
        Val c = R(s, f, pi.a);
        if (!c.e && pi.w2 <= 64) {
            int e = 0;
            for (size_t i = 0; i < pi.cases.size(); ++i) if (pi.cases[i] == c.c) { e = pi.caseEdge[i]; break; }
            jump(s, f, pi.edges[e]); return;
        }
        Expr *ce = ex(c, pi.w2);
        // one condition per distinct edge; the default edge takes the rest
        std::vector<Expr *> conds(pi.edges.size(), nullptr);
        Expr *any = mkFalse();
        for (size_t i = 0; i < pi.cases.size(); ++i) {
            Expr *q = mkEq(ce, mkConst(pi.cases[i]));
            int e = pi.caseEdge[i];
            conds[e] = conds[e] ? mkOr(conds[e], q) : q;
            any = mkOr(any, q);
        }
        conds[0] = conds[0] ? mkOr(conds[0], mkNot(any)) : mkNot(any);
        int chosen = -1;
        for (size_t e = 0; e < conds.size(); ++e) if (conds[e] && evalU(conds[e], s.model)) { chosen = e; break; }
        rep.branches++;
        bool unk = false, otherFeasible = false;
        for (size_t e = 0; e < conds.size(); ++e) {
            if ((int)e == chosen || !conds[e] || conds[e]->isFalse()) continue;
            Model m2;
            Res r = query(s, conds[e], m2);
            if (r == Res::Sat) {
                otherFeasible = true;
                State *o = clone(s); addC(*o, conds[e]); o->model = m2; o->depth++;
                jump(*o, o->stack.back(), pi.edges[e]); work.push_back(o);
            } else if (r == Res::Unknown) unk = true;
        }
        if (otherFeasible || unk) { addC(s, conds[chosen]); s.depth++; }
        jump(s, f, pi.edges[chosen]);
        return;
    }
    case C_RET: {
        Val v; if (pi.k) v = R(s, f, pi.a);
        for (auto sl : f.allocas) killObj(s, sl);
        const PInst *call = f.call;
        s.stack.pop_back();
        if (s.stack.empty()) return;
        Frame &cf = s.stack.back();
        if (call) {
            if (call->dst >= 0) cf.regs[call->dst] = v;
            if (!call->edges.empty()) jump(s, cf, call->edges[0]); else cf.ip++;
        }
        return;
    }
    case C_CALL: {
        Function *callee = pi.callee;
        if (!callee && pi.builtin != B_ASM) {
            Val p = R(s, f, pi.a);
            uint64_t a = p.e ? concretize(s, peelIte(s, p.e)) : p.c;
            auto it = addrf.find(a);
            if (it == addrf.end()) fail(s, "memory", a ? "call through an invalid pointer" : "call through a null pointer");
            callee = it->second;
            if (callee->isDeclaration()) {
                PInst tmp = pi; tmp.callee = callee; tmp.builtin = builtinId(callee->getName());
                builtin(s, f, tmp);
                if (!pi.edges.empty()) jump(s, f, pi.edges[0]); else f.ip++;
                return;
            }
        } else if (pi.builtin >= 0 || (callee && callee->isDeclaration())) {
            builtin(s, f, pi);
            Frame &f2 = s.stack.back();
            if (!pi.edges.empty()) jump(s, f2, pi.edges[0]); else f2.ip++;
            return;
        }
        std::vector<Val> args;
        CallBase *cb = cast<CallBase>(const_cast<Instruction *>(pi.I));
        for (size_t i = 0; i < pi.ops.size(); ++i) {
            Val v = R(s, f, pi.ops[i]);
            if (cb->isByValArgument(i)) {
                uint64_t n = DL.getTypeAllocSize(cb->getParamByValType(i));
                uint32_t sl = newObj(s, n, OStack, true);
                Val d{nullptr, slotBase(sl)};
                copyMem(s, d, v, n);
                f.allocas.push_back(sl);
                v = d;
            }
            args.push_back(v);
        }
        pushFrame(s, callee, std::move(args), &pi);
        return;
    }
    case C_UNREACHABLE: fail(s, "undefined", "unreachable code reached");
    case C_EXTRACTV: {
        Val a = R(s, f, pi.a);
        Expr *e = ex(a, pi.w2);
        f.regs[pi.dst] = fromE(mkExtract(e, pi.k, pi.w));
        f.ip++; return;
    }
    case C_INSERTV: {
        Val a = R(s, f, pi.a), b = R(s, f, pi.b);
        Expr *e = ex(a, pi.w), *x = ex(b, pi.w2);
        Expr *r = x;
        if (pi.k) r = mkConcat(r, mkExtract(e, 0, pi.k));
        if (pi.k + pi.w2 < pi.w) r = mkConcat(mkExtract(e, pi.k + pi.w2, pi.w - pi.k - pi.w2), r);
        f.regs[pi.dst] = fromE(r);
        f.ip++; return;
    }
    case C_FBIN: {
        Val a = R(s, f, pi.a), b = R(s, f, pi.b);
        if (pi.w != 32 && pi.w != 64) unsupported(s, "extended floating point");
        if (pi.sub == Instruction::FRem) {
            if (a.e || b.e) unsupported(s, "symbolic floating point remainder");
            f.regs[pi.dst] = fromD(fmod(toD(a, pi.w), toD(b, pi.w)), pi.w); f.ip++; return;
        }
        Fp k = pi.sub == Instruction::FAdd ? Fp::Add : pi.sub == Instruction::FSub ? Fp::Sub : pi.sub == Instruction::FMul ? Fp::Mul : Fp::Div;
        f.regs[pi.dst] = fromE(mkFp(k, pi.w, ex(a, pi.w), ex(b, pi.w))); f.ip++; return;
    }
    case C_FNEG: { Val a = R(s, f, pi.a); f.regs[pi.dst] = fromE(mkXor(ex(a, pi.w), mkConst(pi.w, 1ull << (pi.w - 1)))); f.ip++; return; }
    case C_FCMP: {
        Val av = R(s, f, pi.a), bv = R(s, f, pi.b);
        if (pi.w2 != 32 && pi.w2 != 64) unsupported(s, "extended floating point");
        Expr *a = ex(av, pi.w2), *b = ex(bv, pi.w2), *r = nullptr;
        auto uno = [&] { return mkFp(Fp::Uno, 1, a, b); };
        auto cmp = [&](Fp k, Expr *x, Expr *y) { return mkFp(k, 1, x, y); };
        switch (pi.sub) {
        case FCmpInst::FCMP_OEQ: r = cmp(Fp::Oeq, a, b); break; case FCmpInst::FCMP_OGT: r = cmp(Fp::Olt, b, a); break; case FCmpInst::FCMP_OGE: r = cmp(Fp::Ole, b, a); break;
        case FCmpInst::FCMP_OLT: r = cmp(Fp::Olt, a, b); break; case FCmpInst::FCMP_OLE: r = cmp(Fp::Ole, a, b); break;
        case FCmpInst::FCMP_ONE: r = mkAnd(mkNot(uno()), mkNot(cmp(Fp::Oeq, a, b))); break;
        case FCmpInst::FCMP_ORD: r = mkNot(uno()); break; case FCmpInst::FCMP_UNO: r = uno(); break;
        case FCmpInst::FCMP_UEQ: r = mkOr(uno(), cmp(Fp::Oeq, a, b)); break; case FCmpInst::FCMP_UGT: r = mkNot(cmp(Fp::Ole, a, b)); break;
        case FCmpInst::FCMP_UGE: r = mkNot(cmp(Fp::Olt, a, b)); break; case FCmpInst::FCMP_ULT: r = mkNot(cmp(Fp::Ole, b, a)); break;
        case FCmpInst::FCMP_ULE: r = mkNot(cmp(Fp::Olt, b, a)); break; case FCmpInst::FCMP_UNE: r = mkNot(cmp(Fp::Oeq, a, b)); break;
        case FCmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
        default: r = mkConst(1, 0); break;
        }
        f.regs[pi.dst] = fromE(r); f.ip++; return;
    }
    case C_FCAST: {
        Val a = R(s, f, pi.a);
        if (pi.w > 64 || pi.w2 > 64) unsupported(s, "extended floating point");
        Expr *x = ex(a, pi.w2);
        switch (pi.sub) {
        case Instruction::FPToUI: case Instruction::FPToSI: {
            bool sg = pi.sub == Instruction::FPToSI;
            if (!decideRetry(s, mkFp(sg ? Fp::InS : Fp::InU, 1, x, mkConst(32, pi.w)))) fail(s, "undefined", "floating-point value out of range of the integer");
            f.regs[pi.dst] = fromE(mkFp(sg ? Fp::ToS : Fp::ToU, pi.w, x)); break; }
        case Instruction::UIToFP: f.regs[pi.dst] = fromE(mkFp(Fp::FromU, pi.w, x)); break;
        case Instruction::SIToFP: f.regs[pi.dst] = fromE(mkFp(Fp::FromS, pi.w, x)); break;
        default: f.regs[pi.dst] = fromE(mkFp(Fp::Conv, pi.w, x));
        }
        f.ip++; return;
    }
    case C_ATOMICRMW: {
        Val p = R(s, f, pi.a), v = R(s, f, pi.b);
        Loc l = resolveC(s, p, pi.k, true, "write");
        Val old = loadAt(s, l.slot, l.off, pi.k, pi.w);
        Expr *o = ex(old, pi.w), *x = ex(v, pi.w), *n = nullptr;
        switch (pi.sub) {
        case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = mkAdd(o, x); break; case AtomicRMWInst::Sub: n = mkSub(o, x); break;
        case AtomicRMWInst::And: n = mkAnd(o, x); break; case AtomicRMWInst::Or: n = mkOr(o, x); break; case AtomicRMWInst::Xor: n = mkXor(o, x); break;
        default: unsupported(s, "atomicrmw");
        }
        storeAt(s, l.slot, l.off, pi.k, fromE(n), pi.w);
        f.regs[pi.dst] = old; f.ip++; return;
    }
    case C_CMPXCHG: {
        Val p = R(s, f, pi.a), c = R(s, f, pi.b), n = R(s, f, pi.c);
        Loc l = resolveC(s, p, pi.k, true, "write");
        Val old = loadAt(s, l.slot, l.off, pi.k, pi.w2);
        bool eq = decideRetry(s, mkEq(ex(old, pi.w2), ex(c, pi.w2)));
        if (eq) storeAt(s, l.slot, l.off, pi.k, n, pi.w2);
        f.regs[pi.dst] = fromE(mkConcat(mkConst(1, eq), ex(old, pi.w2))); f.ip++; return;
    }
    default: {
        std::string t; raw_string_ostream os(t); pi.I->print(os);
        unsupported(s, "instruction " + t);
    }
    }
}

void finish(State &s) {
    rep.paths++;
    // keep witnesses that reach coverage labels not yet represented first, then spread
    bool want = rep.witnesses.size() < opt.maxWitnesses;
    for (int c : s.covers) if (witnessPerCover[coverNames[c]]++ == 0) want = true;
    if (!want && rep.paths > 1 && (rep.paths & (rep.paths - 1)) == 0) want = true;   // powers of two
    if (want && rep.witnesses.size() < 64) {
        Witness w; w.inputs = inputs(s, s.model);
        for (auto *e : s.obs) w.obs.push_back(evalU(e, s.model));
        for (int c : s.covers) w.covers.push_back(coverNames[c]);
        rep.witnesses.push_back(w);
    }
}

// run one state to completion
void runState(State &s) {
    try {
        uint64_t lim = opt.maxSteps;
        while (!s.stack.empty()) {
            step(s);
            s.steps++; rep.insts++;
            if (s.steps > lim) fail(s, "nontermination", "no result within " + std::to_string(lim) + " instructions");
            if ((rep.insts & 0xfff) == 0) {
                if (elapsed() > opt.timeBudget) { rep.incomplete.insert("time budget exhausted"); stop = true; return; }
            }
        }
        if (stop) return;
        finish(s);
    } catch (Dead &) { }
}

void run() {
    State *s0 = new State();
    s0->model.stamp = newStamp();
    for (auto &g : M.globals()) {
        Type *t = g.getValueType();
        uint64_t n = t->isSized() ? (uint64_t)DL.getTypeAllocSize(t) : 8;
        if (g.isDeclaration() && n < 64) n = 64;
        uint32_t sl = newObj(*s0, n, g.isConstant() && !g.isDeclaration() ? OConst : OGlobal, false);
        gaddr[&g] = slotBase(sl);
    }
    for (auto &g : M.globals()) if (g.hasInitializer()) writeInit(objW(*s0, gaddr[&g] >> SLOT_SHIFT).b, 0, g.getInitializer());
    for (auto &g : M.globals()) if (g.isThreadLocal()) { uint32_t sl = gaddr[&g] >> SLOT_SHIFT; Bytes *b = objW(*s0, sl).b; tlsInit[sl].assign((char *)b->d, b->size); }
    // static initialisers
    if (auto *gc = M.getGlobalVariable("llvm.global_ctors", true)) {
        if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<uint64_t, Function *>> cs;
            for (auto &o : arr->operands()) {
                auto *cst = cast<ConstantStruct>(o);
                if (auto *fn = dyn_cast<Function>(cst->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cst->getOperand(0))->getZExtValue(), fn});
            }
            std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &c : cs) {
                try {
                    pushFrame(*s0, c.second, {}, nullptr);
                    while (!s0->stack.empty()) { step(*s0); rep.insts++; }
                } catch (Dead &) { rep.incomplete.insert("static initialiser " + c.second->getName().str() + " failed"); s0->stack.clear(); }
                for (auto &v : rep.violations) rep.incomplete.insert("static initialiser: " + v.kind + " " + v.msg + " " + v.where);
                rep.violations.clear(); stop = false;
            }
        }
    }
    // globals written by constructors become constant only if declared so in IR; keep as is
    Function *F = M.getFunction(opt.func);
    if (!F) { rep.incomplete.insert("no harness function " + opt.func); return; }
    pushFrame(*s0, F, {}, nullptr);
    work.push_back(s0);
    while (!work.empty() && !stop) {
        if (elapsed() > opt.timeBudget) { rep.incomplete.insert("time budget exhausted"); break; }
        State *s = work.back(); work.pop_back();
        runState(*s);
        delete s;
    }
    rep.left = work.size();
    for (auto *s : work) delete s;
    work.clear();
    rep.wall = elapsed();
}
