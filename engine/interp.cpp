#include <array>
#include "interp.hpp"
#include <llvm/ADT/SmallVector.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <functional>
#include <cmath>
#include <functional>

using namespace llvm;
namespace se {

Expr *const UNINIT = (Expr *)1;
static const uint64_t SLOT_SHIFT = 24;
static const uint64_t OBJ_OFF = 0x100000;
static inline uint64_t slotBase(uint32_t slot) { return ((uint64_t)slot << SLOT_SHIFT) + OBJ_OFF; }
static inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sxv(uint64_t v, uint32_t w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

static inline Expr *ex(const Val &v, uint32_t w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Val fromE(Expr *e) { if (e->isConst() && !e->wide) return Val{nullptr, e->k}; return Val{e, 0}; }

// ------------------------------------------------------------------ pre-translated code
enum Cmd : uint16_t {
    C_BIN, C_ICMP, C_ZEXT, C_SEXT, C_TRUNC, C_MOV, C_SELECT, C_GEP, C_LOAD, C_STORE, C_ALLOCA, C_BR, C_CONDBR, C_SWITCH,
    C_RET, C_CALL, C_UNREACHABLE, C_EXTRACTV, C_INSERTV, C_FREEZE, C_FBIN, C_FCMP, C_FCAST, C_FNEG, C_ATOMICRMW, C_CMPXCHG, C_NOP, C_UNSUPPORTED,
    C_EXTRACTE, C_INSERTE
};
struct GepTerm { int op; int64_t scale; uint32_t w; };
struct PInst {
    Cmd cmd = C_NOP;
    uint16_t sub = 0;
    int dst = -1;
    uint32_t w = 0, w2 = 0;
    int a = 0, b = 0, c = 0;
    uint64_t k = 0, k2 = 0;
    std::vector<int> ops;
    std::vector<GepTerm> gep;
    std::vector<PEdge> edges;
    std::vector<APInt> cases; std::vector<int> caseEdge;
    Function *callee = nullptr;
    int builtin = -1;
    Type *ty = nullptr;
    const Instruction *I = nullptr;
};
struct PBlock { std::vector<PInst> is; bool seen = false; std::vector<std::string> funcs, lines; };
struct PFunc {
    Function *F;
    std::vector<PBlock> bbs;
    int nregs = 0;
    std::vector<Val> consts;
    std::vector<uint32_t> argw;
};

// ------------------------------------------------------------------ engine
struct Dead {};   // thrown to end the current path

class Engine {
public:
    Module &M;
    const DataLayout &DL;
    Options opt;
    Report rep;
    std::unordered_map<const Function *, std::unique_ptr<PFunc>> funcs;
    std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
    std::map<uint32_t, std::string> tlsInit;   // thread-local objects as a new thread finds them
    std::unordered_map<const Function *, uint64_t> faddr;
    std::unordered_map<uint64_t, Function *> addrf;
    std::deque<State *> work;
    std::chrono::steady_clock::time_point t0;
    std::set<std::string> seenViol;
    std::vector<std::string> coverNames; std::map<std::string, int> coverIdx;
    std::map<std::string, uint64_t> witnessPerCover;
    bool stop = false;

    Engine(Module &m, const Options &o) : M(m), DL(m.getDataLayout()), opt(o) { t0 = std::chrono::steady_clock::now(); }
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    // ---- types
    uint32_t bitsOf(Type *t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        if (t->isX86_FP80Ty()) return 80;
        if (auto *st = dyn_cast<StructType>(t)) { uint32_t n = 0; for (auto *e : st->elements()) n += bitsOf(e); return n; }
        if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * bitsOf(at->getElementType());
        if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * bitsOf(vt->getElementType());
        return 0;
    }
    // bit offset of element idx inside the flat representation (element 0 lowest)
    uint32_t elemOff(Type *t, unsigned idx) {
        if (auto *st = dyn_cast<StructType>(t)) { uint32_t n = 0; for (unsigned i = 0; i < idx; ++i) n += bitsOf(st->getElementType(i)); return n; }
        if (auto *at = dyn_cast<ArrayType>(t)) return idx * bitsOf(at->getElementType());
        if (auto *vt = dyn_cast<FixedVectorType>(t)) return idx * bitsOf(vt->getElementType());
        abort();
    }
    Type *elemTy(Type *t, unsigned idx) {
        if (auto *st = dyn_cast<StructType>(t)) return st->getElementType(idx);
        if (auto *at = dyn_cast<ArrayType>(t)) return at->getElementType();
        if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getElementType();
        abort();
    }

    // ---- constants
    Val zeroV(uint32_t w) { return w <= 64 ? Val{nullptr, 0} : Val{mkConst(APInt(w, 0)), 0}; }
    Val evalConst(const Constant *c) {
        uint32_t w = bitsOf(c->getType());
        if (auto *ci = dyn_cast<ConstantInt>(c)) return w <= 64 ? Val{nullptr, ci->getZExtValue()} : Val{mkConst(ci->getValue()), 0};
        if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); return w <= 64 ? Val{nullptr, v.getZExtValue()} : Val{mkConst(v), 0}; }
        if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return zeroV(w);
        if (isa<UndefValue>(c)) return zeroV(w);
        if (auto *gv = dyn_cast<GlobalVariable>(c)) return Val{nullptr, gaddr.at(gv)};
        if (auto *f = dyn_cast<Function>(c)) return Val{nullptr, fnAddr(f)};
        if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
            Expr *r = nullptr;
            for (unsigned i = 0; i < c->getNumOperands(); ++i) {
                auto *o = cast<Constant>(c->getOperand(i));
                uint32_t ew = bitsOf(o->getType());
                if (!ew) continue;
                Expr *e = ex(evalConst(o), ew);
                r = r ? mkConcat(e, r) : e;
            }
            return r ? fromE(r) : Val{};
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            Expr *r = nullptr;
            for (unsigned i = 0; i < cd->getNumElements(); ++i) { Expr *e = ex(evalConst(cd->getElementAsConstant(i)), bitsOf(cd->getElementType())); r = r ? mkConcat(e, r) : e; }
            return fromE(r);
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto *g = cast<GEPOperator>(ce);
                APInt off(64, 0);
                if (!g->accumulateConstantOffset(DL, off)) abort();
                return Val{nullptr, evalConst(cast<Constant>(g->getPointerOperand())).c + off.getZExtValue()};
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: {
                Val v = evalConst(ce->getOperand(0));
                v.c &= maskw(w);
                return v;
            }
            case Instruction::Add: return Val{nullptr, (evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & maskw(w)};
            case Instruction::Sub: return Val{nullptr, (evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & maskw(w)};
            case Instruction::ICmp: {
                uint64_t x = evalConst(ce->getOperand(0)).c, y = evalConst(ce->getOperand(1)).c;
                return Val{nullptr, (uint64_t)ICmpInst::compare(APInt(64, x), APInt(64, y), (ICmpInst::Predicate)ce->getPredicate())};
            }
            default: errs() << "constexpr " << *ce << "\n"; abort();
            }
        }
        errs() << "constant " << *c << "\n"; abort();
    }
    uint64_t fnAddr(const Function *f) {
        auto it = faddr.find(f);
        if (it != faddr.end()) return it->second;
        uint64_t a = 0x1000 + 16 * faddr.size();
        faddr[f] = a; addrf[a] = const_cast<Function *>(f);
        return a;
    }
    void writeInit(Bytes *b, uint64_t off, const Constant *c) {
        Type *t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) writeInit(b, off + sl->getElementOffset(i), c->getAggregateElement(i));
            return;
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(b->d + off, r.data(), r.size()); return; }
        if (auto *at = dyn_cast<ArrayType>(t)) {
            uint64_t sz = DL.getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < at->getNumElements(); ++i) writeInit(b, off + i * sz, c->getAggregateElement(i));
            return;
        }
        Val v = evalConst(c);
        uint64_t n = DL.getTypeStoreSize(t);
        if (n <= 8) memcpy(b->d + off, &v.c, n);
        else { APInt a = v.e ? constVal(v.e) : APInt(n * 8, v.c); for (uint64_t i = 0; i < n; ++i) b->d[off + i] = a.extractBits(std::min<uint64_t>(8, a.getBitWidth() - 8 * i), 8 * i).getZExtValue(); }
    }

    // ---- objects
    Obj &objR(State &s, uint32_t slot) { return s.chunks[slot >> 8]->o[slot & 255]; }
    Obj &objW(State &s, uint32_t slot) {
        Chunk *&c = s.chunks[slot >> 8];
        if (c->rc > 1) {
            Chunk *n = new Chunk(*c); n->rc = 1;
            for (auto &o : n->o) if (o.b) o.b->rc++;
            c->rc--; c = n;
        }
        return c->o[slot & 255];
    }
    Bytes *bytesW(State &s, uint32_t slot) {
        Obj &o = objW(s, slot);
        if (o.b->rc > 1) {
            Bytes *n = new Bytes(o.b->size);
            memcpy(n->d, o.b->d, o.b->size);
            if (o.b->s) { n->needSym(); memcpy(n->s, o.b->s, o.b->size * sizeof(Expr *)); }
            o.b->rc--; o.b = n;
        }
        return o.b;
    }
    static void unref(Bytes *b) { if (b && --b->rc == 0) delete b; }
    uint32_t newObj(State &s, uint64_t size, ObjKind k, bool uninit) {
        if (s.nslots == 0) s.nslots = 1;
        uint32_t slot = s.nslots++;
        if ((slot >> 8) >= s.chunks.size()) s.chunks.push_back(new Chunk());
        Obj &o = objW(s, slot);
        o.b = new Bytes(size); o.kind = k; o.alive = true; o.ended = false;
        if (uninit && size) { o.b->needSym(); for (uint64_t i = 0; i < size; ++i) o.b->s[i] = UNINIT; }
        return slot;
    }
    void killObj(State &s, uint32_t slot) { Obj &o = objW(s, slot); o.alive = false; unref(o.b); o.b = new Bytes(0); }

    Expr *byteE(State &s, uint32_t slot, Bytes *&b, uint64_t i) {
        if (!b->s || !b->s[i]) return mkConst(8, b->d[i]);
        if (b->s[i] == UNINIT) {
            Expr *v = freshUninit(s, 8);
            b = bytesW(s, slot);
            b->needSym();
            b->s[i] = v;
            return v;
        }
        return b->s[i];
    }
    Expr *freshUninit(State &s, uint32_t w) {
        if (w > 64) { Expr *r = nullptr; while (w) { uint32_t n = std::min(w, 64u); Expr *p = freshUninit(s, n); r = r ? mkConcat(r, p) : p; w -= n; } return r; }
        return mkVar("uninit#" + std::to_string(s.uninitCount++), w);
    }

    // ---- state / forks
    State *clone(State &s) { rep.forks++; return new State(s); }
    void addC(State &s, Expr *c) {
        if (c->isTrue()) return;
        if (c->op == Op::And) { addC(s, c->a); addC(s, c->b); return; }
        for (auto it = s.cs.rbegin(); it != s.cs.rend(); ++it) if (*it == c) return;
        s.cs.push_back(c);
        if (c->op == Op::Eq && c->b->isConst() && c->b->w <= 64) s.fixed.push_back({c->a, c->b->k});
        else if (c->w == 1 && c->op == Op::Not) s.fixed.push_back({c->a, 0});
        else s.fixed.push_back({c, 1});
    }
    bool lookupFixed(State &s, Expr *e, uint64_t &v) {
        for (auto it = s.fixed.rbegin(); it != s.fixed.rend(); ++it) if (it->first == e) { v = it->second; return true; }
        if (e->op == Op::Concat && e->w <= 64) {
            uint64_t h, l;
            auto get = [&](Expr *x, uint64_t &o) { if (x->isConst()) { o = x->k; return true; } return lookupFixed(s, x, o); };
            if (get(e->a, h) && get(e->b, l)) { v = (h << e->b->w) | l; return true; }
        }
        return false;
    }
    Res query(State &s, Expr *q, Model &out) {
        Res r = solve(s.cs, q, s.model, out);
        if (r == Res::Unknown) rep.incomplete.insert("solver gave up on a query within its time limit");
        return r;
    }
    // decide a condition. returns the value taken; if the other side is feasible, `fork` receives a clone already constrained.
    bool decide(State &s, Expr *c, State **other) {
        *other = nullptr;
        if (c->isConst()) return c->k;
        uint64_t f;
        if (lookupFixed(s, c, f)) return f;
        if (c->op == Op::Not && lookupFixed(s, c->a, f)) return !f;
        rep.branches++;
        bool v = evalU(c, s.model);
        Model m2;
        Expr *neg = v ? mkNot(c) : c;
        Res r = query(s, neg, m2);
        if (r == Res::Sat) {
            State *o = clone(s);
            addC(*o, neg); o->model = m2; o->depth++;
            *other = o;
        }
        if (r != Res::Unsat) { addC(s, v ? c : mkNot(c)); s.depth++; }
        return v;
    }
    // decide, queueing the other side to re-execute the current instruction
    bool decideRetry(State &s, Expr *c) {
        State *o;
        bool v = decide(s, c, &o);
        if (o) work.push_back(o);
        return v;
    }
    uint64_t concretize(State &s, Expr *e) {
        if (e->isConst()) return e->k;
        uint64_t v;
        if (lookupFixed(s, e, v)) return v;
        v = evalU(e, s.model);
        Expr *eq = mkEq(e, mkConst(e->w, v));
        Model m2;
        rep.branches++;
        Res r = query(s, mkNot(eq), m2);
        if (r == Res::Sat) {
            State *o = clone(s);
            addC(*o, mkNot(eq)); o->model = m2; o->depth++;
            work.push_back(o);
        }
        addC(s, eq);
        s.fixed.push_back({e, v});
        return v;
    }
    uint64_t conc(State &s, const Val &v) { return v.e ? concretize(s, v.e) : v.c; }

    // ---- reporting
    std::vector<std::pair<std::string, uint64_t>> inputs(State &s, const Model &m) {
        std::vector<std::pair<std::string, uint64_t>> r;
        for (auto *e : s.syms) r.push_back({gVars[e->k].name, evalU(e, m)});
        return r;
    }
    static std::string locStr(const Instruction *I) {
        if (!I) return "?";
        const DebugLoc &d = I->getDebugLoc();
        if (!d) return I->getFunction()->getName().str();
        auto *l = d.get();
        return l->getFilename().str() + ":" + std::to_string(l->getLine());
    }
    std::string backtrace(State &s) {
        std::string r;
        int n = 0;
        for (auto it = s.stack.rbegin(); it != s.stack.rend() && n < 14; ++it, ++n) {
            if (!it->f) continue;
            auto &is = it->f->bbs[it->bb].is;
            int ip = std::min<int>(it->ip, is.size() - 1);
            const Instruction *I = is[ip].I;
            r += "    " + it->f->F->getName().str() + " at ";
            if (I && I->getDebugLoc()) {
                const DILocation *l = I->getDebugLoc().get();
                bool first = true;
                for (; l; l = l->getInlinedAt()) { r += (first ? "" : " < ") + l->getFilename().str() + ":" + std::to_string(l->getLine()); first = false; }
            }
            r += "\n";
        }
        return r;
    }
    const PInst &curInst(State &s) { auto &f = s.stack.back(); return f.f->bbs[f.bb].is[f.ip]; }
    void violation(State &s, const Model &m, const std::string &kind, const std::string &msg) {
        std::string where = s.stack.empty() ? "" : locStr(curInst(s).I);
        std::string key = kind + "|" + msg + "|" + where;
        if (!seenViol.insert(key).second) return;
        Violation v; v.kind = kind; v.msg = msg; v.where = where; v.bt = backtrace(s); v.inputs = inputs(s, m);
        rep.violations.push_back(v);
        if (rep.violations.size() >= opt.maxViolations) stop = true;
    }
    [[noreturn]] void fail(State &s, const std::string &kind, const std::string &msg) { violation(s, s.model, kind, msg); throw Dead(); }
    [[noreturn]] void unsupported(State &s, const std::string &what) {
        rep.incomplete.insert("unsupported: " + what + " at " + (s.stack.empty() ? "" : locStr(curInst(s).I)) + (opt.verbose ? "\n" + backtrace(s) : ""));
        throw Dead();
    }

    // ---- memory access
    // Resolve a pointer for an n-byte access: returns slot and offset expression (or concrete).
    struct Loc { uint32_t slot; bool sym; uint64_t off; Expr *offE; };
    Expr *peelIte(State &s, Expr *p) {
        for (;;) {
            if (p->op == Op::Ite) { p = decideRetry(s, p->a) ? p->b : p->c; continue; }
            if (p->op == Op::Add && p->a->op == Op::Ite) { Expr *x = decideRetry(s, p->a->a) ? p->a->b : p->a->c; p = mkAdd(x, p->b); continue; }
            if (p->op == Op::Add && p->b->op == Op::Ite) { Expr *x = decideRetry(s, p->b->a) ? p->b->b : p->b->c; p = mkAdd(p->a, x); continue; }
            return p;
        }
    }
    std::string accErr(State &s, uint64_t addr, uint64_t n, const char *what) {
        uint32_t slot = addr >> SLOT_SHIFT;
        char buf[200];
        if (addr < 0x1000) return std::string("null pointer ") + what;
        if (slot == 0 || slot >= s.nslots) return std::string("wild pointer ") + what;
        Obj &o = objR(s, slot);
        static const char *kn[] = {"global", "constant", "stack", "heap", "heap", "heap"};
        if (!o.alive) return std::string(kn[o.kind]) + (o.kind >= OHeap ? "-use-after-free " : "-use-after-return ") + what;
        if (o.ended) return std::string("stack-use-after-scope ") + what;
        (void)buf;
        return std::string("out-of-bounds ") + what + " of a " + kn[o.kind] + " object";
    }
    bool okAccess(State &s, uint64_t addr, uint64_t n) {
        uint32_t slot = addr >> SLOT_SHIFT;
        if (slot == 0 || slot >= s.nslots) return false;
        Obj &o = objR(s, slot);
        if (!o.alive || o.ended) return false;
        uint64_t off = addr - slotBase(slot);
        return off <= o.b->size && n <= o.b->size - off;
    }
    Loc resolve(State &s, const Val &p, uint64_t n, bool write, const char *what) {
        rep.memchecks++;
        if (!p.e) {
            if (!okAccess(s, p.c, n)) fail(s, "memory", accErr(s, p.c, n, what));
            uint32_t slot = p.c >> SLOT_SHIFT;
            if (write && objR(s, slot).kind == OConst) fail(s, "memory", "write to constant memory");
            return Loc{slot, false, p.c - slotBase(slot), nullptr};
        }
        uint64_t fx;
        if (lookupFixed(s, p.e, fx)) return resolve(s, Val{nullptr, fx}, n, write, what);
        Expr *e = peelIte(s, p.e);
        if (e->isConst()) return resolve(s, Val{nullptr, e->k}, n, write, what);
        uint64_t a = evalU(e, s.model);
        if (!okAccess(s, a, n)) fail(s, "memory", accErr(s, a, n, what));
        uint32_t slot = a >> SLOT_SHIFT;
        Obj &o = objR(s, slot);
        if (write && o.kind == OConst) fail(s, "memory", "write to constant memory");
        Expr *off = mkSub(e, mkConst(64, slotBase(slot)));
        Expr *inb = mkUle(off, mkConst(64, o.b->size - n));
        if (!decideRetry(s, inb)) abort();
        if (off->isConst()) return Loc{slot, false, off->k, nullptr};
        return Loc{slot, true, 0, off};
    }
    // concrete location only
    Loc resolveC(State &s, const Val &p, uint64_t n, bool write, const char *what) {
        Loc l = resolve(s, p, n, write, what);
        if (l.sym) { l.off = concretize(s, l.offE); l.sym = false; }
        return l;
    }
    Val loadAt(State &s, uint32_t slot, uint64_t off, uint64_t n, uint32_t w) {
        Bytes *b = objR(s, slot).b;
        if (w <= 64) {
            bool allc = true;
            if (b->s) for (uint64_t i = 0; i < n; ++i) if (b->s[off + i]) { allc = false; break; }
            if (allc) { uint64_t v = 0; memcpy(&v, b->d + off, n); return Val{nullptr, v & maskw(w)}; }
        }
        if (b->s) {
            // all bytes uninitialised: one fresh value
            bool allu = true;
            for (uint64_t i = 0; i < n && allu; ++i) if (b->s[off + i] != UNINIT) allu = false;
            if (allu && n <= 8) {
                Expr *v = freshUninit(s, n * 8);
                storeAt(s, slot, off, n, Val{v, 0}, n * 8);
                return fromE(mkExtract(v, 0, w));
            }
        }
        if ((n == 8 || n == 4) && w == n * 8) {
            ByteKey k{}; for (uint64_t i = 0; i < n; ++i) k[i] = byteE(s, slot, b, off + i);
            auto it = split.find(k);
            if (it != split.end()) return fromE(it->second);
        }
        Expr *r = nullptr;
        for (uint64_t i = 0; i < n; ++i) { Expr *x = byteE(s, slot, b, off + i); r = r ? mkConcat(x, r) : x; }
        return fromE(mkExtract(r, 0, w));
    }
    // words stored as bytes, to get the same term back when the bytes are loaded together
    using ByteKey = std::array<Expr *, 8>;
    struct ByteKeyHash { size_t operator()(const ByteKey &k) const { uint64_t h = 7; for (auto *e : k) h = (h ^ (uint64_t)e) * 0x9E3779B97F4A7C15ull, h ^= h >> 31; return h; } };
    std::unordered_map<ByteKey, Expr *, ByteKeyHash> split;
    void storeAt(State &s, uint32_t slot, uint64_t off, uint64_t n, const Val &v, uint32_t w) {
        Bytes *b = bytesW(s, slot);
        if (!v.e) {
            uint64_t x = v.c; memcpy(b->d + off, &x, n);
            if (b->s) for (uint64_t i = 0; i < n; ++i) b->s[off + i] = nullptr;
            return;
        }
        Expr *e = v.e;
        if (e->w < n * 8) e = mkZExt(e, n * 8);
        bool whole = (n == 8 || n == 4) && e->w == n * 8 && e->op != Op::Concat && e->op != Op::Var && e->op != Op::Extract;
        ByteKey key{};
        for (uint64_t i = 0; whole && i < n; ++i) key[i] = mkExtract(e, i * 8, 8);
        if (whole) split.emplace(key, e);
        for (uint64_t i = 0; i < n; ++i) {
            Expr *x = mkExtract(e, i * 8, 8);
            if (x->isConst()) { b->d[off + i] = x->k; if (b->s) b->s[off + i] = nullptr; }
            else { b->needSym(); b->s[off + i] = x; }
        }
    }
    Val loadTy(State &s, const Val &p, Type *t) {
        uint64_t n = DL.getTypeStoreSize(t);
        uint32_t w = bitsOf(t);
        if (t->isStructTy() || t->isArrayTy()) {
            Loc l = resolveC(s, p, n, false, "read");
            Expr *r = nullptr;
            std::function<void(Type *, uint64_t)> go = [&](Type *ty, uint64_t off) {
                if (auto *st = dyn_cast<StructType>(ty)) { auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) go(st->getElementType(i), off + sl->getElementOffset(i)); return; }
                if (auto *at = dyn_cast<ArrayType>(ty)) { uint64_t sz = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) go(at->getElementType(), off + i * sz); return; }
                uint32_t ew = bitsOf(ty);
                Expr *e = ex(loadAt(s, l.slot, off, DL.getTypeStoreSize(ty), ew), ew);
                r = r ? mkConcat(e, r) : e;
            };
            go(t, l.off);
            return r ? fromE(r) : Val{};
        }
        Loc l = resolve(s, p, n, false, "read");
        if (!l.sym) return loadAt(s, l.slot, l.off, n, w);
        // symbolic offset
        Bytes *b = objR(s, l.slot).b;
        uint32_t kz = knownZeroLow(l.offE);
        uint32_t sh = 0;
        while (sh < kz && (1ull << sh) < n && sh < 6) sh++;
        uint64_t stride = 1ull << sh;
        uint64_t cnt = (b->size - n) / stride + 1;
        bool allc = !b->s;
        if (!allc) { allc = true; for (uint64_t i = 0; i < b->size; ++i) if (b->s[i]) { allc = false; break; } }
        uint32_t iw = 0; while ((1ull << iw) < cnt) iw++;
        if (iw == 0) return loadAt(s, l.slot, 0, n, w);
        Expr *idx = mkExtract(l.offE, sh, iw);
        if (allc && n <= 8 && cnt <= 65536) {
            Table t2; t2.idxw = iw; t2.w = w; t2.v.resize(1ull << iw);
            for (uint64_t i = 0; i < t2.v.size(); ++i) { uint64_t v = 0; if (i < cnt) memcpy(&v, b->d + i * stride, n); t2.v[i] = v & maskw(w); }
            return fromE(mkTab(t2, idx));
        }
        {   // only one possible offset
            uint64_t v;
            bool uniq = lookupFixed(s, l.offE, v);
            if (!uniq) {
                v = evalU(l.offE, s.model);
                Model m2;
                if (query(s, mkNot(mkEq(l.offE, mkConst(l.offE->w, v))), m2) == Res::Unsat) { uniq = true; s.fixed.push_back({l.offE, v}); }
            }
            if (uniq) return loadAt(s, l.slot, v, n, w);
        }
        if (cnt <= 600) {
            // restrict to feasible entries cheaply, then build a multiplexer
            Expr *r = nullptr;
            for (uint64_t i = cnt; i-- > 0;) {
                Expr *x = ex(loadAt(s, l.slot, i * stride, n, w), w);
                r = r ? mkIte(mkEq(idx, mkConst(iw, i)), x, r) : x;
            }
            return fromE(r);
        }
        uint64_t off = concretize(s, l.offE);
        return loadAt(s, l.slot, off, n, w);
    }
    void storeTy(State &s, const Val &p, const Val &v, Type *t) {
        uint64_t n = DL.getTypeStoreSize(t);
        Loc l = resolveC(s, p, n, true, "write");
        if (t->isStructTy() || t->isArrayTy()) {
            Expr *e = ex(v, bitsOf(t));
            uint32_t pos = 0;
            std::function<void(Type *, uint64_t)> go = [&](Type *ty, uint64_t off) {
                if (auto *st = dyn_cast<StructType>(ty)) { auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) go(st->getElementType(i), off + sl->getElementOffset(i)); return; }
                if (auto *at = dyn_cast<ArrayType>(ty)) { uint64_t sz = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) go(at->getElementType(), off + i * sz); return; }
                uint32_t ew = bitsOf(ty);
                storeAt(s, l.slot, off, DL.getTypeStoreSize(ty), fromE(mkExtract(e, pos, ew)), ew);
                pos += ew;
            };
            go(t, l.off);
            return;
        }
        storeAt(s, l.slot, l.off, n, v, bitsOf(t));
    }
    void copyMem(State &s, const Val &dst, const Val &src, uint64_t n) {
        if (n == 0) return;
        Loc d = resolveC(s, dst, n, true, "write");
        Loc r = resolveC(s, src, n, false, "read");
        Bytes *sb = objR(s, r.slot).b;
        std::vector<uint8_t> tmp(sb->d + r.off, sb->d + r.off + n);
        std::vector<Expr *> ts;
        if (sb->s) ts.assign(sb->s + r.off, sb->s + r.off + n);
        Bytes *db = bytesW(s, d.slot);
        memcpy(db->d + d.off, tmp.data(), n);
        bool any = false;
        for (auto *e : ts) if (e) any = true;
        if (any) db->needSym();
        if (db->s) for (uint64_t i = 0; i < n; ++i) db->s[d.off + i] = ts.empty() ? nullptr : ts[i];
    }
    std::string cstr(State &s, uint64_t addr) {
        std::string r;
        uint32_t slot = addr >> SLOT_SHIFT;
        if (slot == 0 || slot >= s.nslots) return "?";
        Obj &o = objR(s, slot);
        for (uint64_t off = addr - slotBase(slot); o.b && off < o.b->size && o.b->d[off]; ++off) r += (char)o.b->d[off];
        return r;
    }

    // ------------------------------------------------------------------ translation
    #include "translate.inc"
    // ------------------------------------------------------------------ execution
    #include "exec.inc"
};

State::State(const State &o)
    : stack(o.stack), chunks(o.chunks), nslots(o.nslots), cs(o.cs), fixed(o.fixed), model(o.model), steps(o.steps), depth(o.depth), syms(o.syms), counts(o.counts),
      obs(o.obs), trail(o.trail), uninitCount(o.uninitCount), covers(o.covers), inThread(o.inThread), tls(o.tls) { for (auto *c : chunks) c->rc++; }
State::~State() {
    for (auto *c : chunks) if (--c->rc == 0) { for (auto &o : c->o) if (o.b && --o.b->rc == 0) delete o.b; delete c; }
}

void threadLocals(Module &m) {
    std::vector<GlobalVariable *> tl;
    std::vector<Constant *> tc;
    for (auto &g : m.globals()) if (g.isThreadLocal()) { tl.push_back(&g); tc.push_back(&g); }
    if (tl.empty()) return;
    convertUsersOfConstantsToInstructions(tc);
    for (auto *g : tl) {
        std::vector<Use *> us;
        for (auto &u : g->uses()) if (isa<Instruction>(u.getUser())) us.push_back(&u);
        for (auto *u : us) {
            auto *i = cast<Instruction>(u->getUser());
            if (auto *ii = dyn_cast<IntrinsicInst>(i)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
            Instruction *at = i;
            if (auto *p = dyn_cast<PHINode>(i)) at = p->getIncomingBlock(*u)->getTerminator();
            IRBuilder<> b(at);
            u->set(b.CreateThreadLocalAddress(g));
        }
    }
}

Report explore(Module &m, const Options &opt) {
    Engine e(m, opt);
    e.run();
    return e.rep;
}
}
