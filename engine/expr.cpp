#include "expr.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <tuple>
#include <unordered_set>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/Hashing.h>

namespace se {

std::vector<VarInfo> gVars;
static uint32_t gNextId = 0;

static inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ---------------------------------------------------------------- hash-consing
struct Key {
    const Expr *e;
};
struct KeyHash {
    size_t operator()(const Key &k) const {
        const Expr *e = k.e;
        uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull + e->w;
        auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->c ? e->c->id + 1 : 0);
        mix(e->k);
        if (e->wide) mix(hash_value(*e->wide));
        mix((uint64_t)e->tab);
        return h;
    }
};
struct KeyEq {
    bool operator()(const Key &x, const Key &y) const {
        const Expr *p = x.e, *q = y.e;
        if (p->op != q->op || p->w != q->w || p->a != q->a || p->b != q->b || p->c != q->c || p->k != q->k || p->tab != q->tab) return false;
        if (p->wide || q->wide) return p->wide && q->wide && *p->wide == *q->wide;
        return true;
    }
};
static std::unordered_set<Key, KeyHash, KeyEq> gPool;
static std::vector<Expr *> gChunks;
static size_t gChunkUsed = 4096;
size_t exprCount() { return gPool.size(); }

static Expr *intern(Expr &t) {
    auto it = gPool.find(Key{&t});
    if (it != gPool.end()) return const_cast<Expr *>(it->e);
    if (gChunkUsed == 4096) { gChunks.push_back((Expr *)malloc(4096 * sizeof(Expr))); gChunkUsed = 0; }
    Expr *n = new (&gChunks.back()[gChunkUsed++]) Expr(t);
    n->id = gNextId++;
    if (n->wide) n->wide = new APInt(*n->wide);
    uint32_t d = 0;
    if (n->a) d = std::max(d, n->a->depth + 1);
    if (n->b) d = std::max(d, n->b->depth + 1);
    if (n->c) d = std::max(d, n->c->depth + 1);
    n->depth = d;
    gPool.insert(Key{n});
    return n;
}
static Expr *mk(Op op, uint32_t w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, uint64_t k = 0) {
    Expr t; t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.k = k;
    return intern(t);
}

static Expr *gSmall[65][257];
Expr *mkConst(uint32_t w, uint64_t v) {
    if (w > 64) return mkConst(APInt(w, v));
    v &= maskw(w);
    if (v < 257) {
        Expr *&s = gSmall[w][v];
        if (!s) s = mk(Op::Const, w, nullptr, nullptr, nullptr, v);
        return s;
    }
    return mk(Op::Const, w, nullptr, nullptr, nullptr, v);
}
Expr *mkConst(const APInt &v) {
    if (v.getBitWidth() <= 64) return mkConst(v.getBitWidth(), v.getZExtValue());
    Expr t; t.op = Op::Const; t.w = v.getBitWidth(); t.wide = &v;
    return intern(t);
}
APInt constVal(const Expr *e) { return e->wide ? *e->wide : APInt(e->w, e->k); }

static std::unordered_map<std::string, Expr *> gVarByName;
Expr *mkVar(const std::string &name, uint32_t w) {
    std::string key = name + ":" + std::to_string(w);
    auto it = gVarByName.find(key);
    if (it != gVarByName.end()) return it->second;
    Expr *e = mk(Op::Var, w, nullptr, nullptr, nullptr, gVars.size());
    gVars.push_back({name, w, e});
    gVarByName[key] = e;
    return e;
}

static bool isZero(const Expr *e) { return e->isConst() && (e->wide ? e->wide->isZero() : e->k == 0); }
static bool isOnes(const Expr *e) { return e->isConst() && (e->wide ? e->wide->isAllOnes() : e->k == maskw(e->w)); }
static bool isOne(const Expr *e) { return e->isConst() && (e->wide ? e->wide->isOne() : e->k == 1); }
static Expr *zero(uint32_t w) { return mkConst(w, 0); }
static Expr *ones(uint32_t w) { return w <= 64 ? mkConst(w, ~0ull) : mkConst(APInt::getAllOnes(w)); }

// constant evaluation of a binary op (also used by the evaluator)
static APInt foldBin(Op op, const APInt &x, const APInt &y) {
    unsigned w = x.getBitWidth();
    switch (op) {
    case Op::Add: return x + y;
    case Op::Sub: return x - y;
    case Op::Mul: return x * y;
    case Op::UDiv: return y.isZero() ? APInt::getAllOnes(w) : x.udiv(y);
    case Op::URem: return y.isZero() ? x : x.urem(y);
    case Op::SDiv: return y.isZero() ? (x.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : x.sdiv(y);
    case Op::SRem: return y.isZero() ? x : x.srem(y);
    case Op::And: return x & y;
    case Op::Or: return x | y;
    case Op::Xor: return x ^ y;
    case Op::Shl: return y.uge(w) ? APInt(w, 0) : x.shl(y);
    case Op::LShr: return y.uge(w) ? APInt(w, 0) : x.lshr(y);
    case Op::AShr: return y.uge(w) ? (x.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : x.ashr(y);
    default: abort();
    }
}
static inline int64_t sx(uint64_t v, uint32_t w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static uint64_t foldBin64(Op op, uint64_t x, uint64_t y, uint32_t w) {
    uint64_t m = maskw(w);
    switch (op) {
    case Op::Add: return (x + y) & m;
    case Op::Sub: return (x - y) & m;
    case Op::Mul: return (x * y) & m;
    case Op::UDiv: return y == 0 ? m : x / y;
    case Op::URem: return y == 0 ? x : x % y;
    case Op::SDiv: { int64_t a = sx(x, w), b = sx(y, w); if (b == 0) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
    case Op::SRem: { int64_t a = sx(x, w), b = sx(y, w); if (b == 0) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
    case Op::And: return x & y;
    case Op::Or: return x | y;
    case Op::Xor: return x ^ y;
    case Op::Shl: return y >= w ? 0 : (x << y) & m;
    case Op::LShr: return y >= w ? 0 : x >> y;
    case Op::AShr: return y >= w ? (sx(x, w) < 0 ? m : 0) : (uint64_t)(sx(x, w) >> y) & m;
    default: abort();
    }
}
static Expr *foldC(Op op, Expr *a, Expr *b) {
    if (a->w <= 64) return mkConst(a->w, foldBin64(op, a->k, b->k, a->w));
    return mkConst(foldBin(op, constVal(a), constVal(b)));
}
static Expr *mkBin(Op op, Expr *a, Expr *b) {
    switch (op) {
    case Op::Add: return mkAdd(a, b); case Op::Sub: return mkSub(a, b); case Op::Mul: return mkMul(a, b);
    case Op::UDiv: return mkUDiv(a, b); case Op::SDiv: return mkSDiv(a, b); case Op::URem: return mkURem(a, b); case Op::SRem: return mkSRem(a, b);
    case Op::And: return mkAnd(a, b); case Op::Or: return mkOr(a, b); case Op::Xor: return mkXor(a, b);
    case Op::Shl: return mkShl(a, b); case Op::LShr: return mkLShr(a, b); case Op::AShr: return mkAShr(a, b);
    default: abort();
    }
}
// op(ite(c,k1,k2), k3) -> ite(c, ., .)
static Expr *pushIte(Op op, Expr *a, Expr *b) {
    if (a->op == Op::Ite && b->isConst() && (a->b->isConst() && a->c->isConst()))
        return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (b->op == Op::Ite && a->isConst() && (b->b->isConst() && b->c->isConst()))
        return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    return nullptr;
}

Expr *mkAdd(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::Add, a, b);
    if (a->isConst()) std::swap(a, b);
    if (isZero(b)) return a;
    if (b->isConst()) {
        if (a->op == Op::Add && a->b->isConst()) return mkAdd(a->a, mkAdd(a->b, b));
        if (a->op == Op::Sub && a->a->isConst()) return mkSub(mkAdd(a->a, b), a->b);
    }
    if (auto p = pushIte(Op::Add, a, b)) return p;
    if (a->op == Op::Sub && a->b == b) return a->a;
    if (b->op == Op::Sub && b->b == a) return b->a;
    // float constants outwards
    if (a->op == Op::Add && a->b->isConst()) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->op == Op::Add && b->b->isConst()) return mkAdd(mkAdd(a, b->a), b->b);
    if (a->w == 1) return mkXor(a, b);
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return mk(Op::Add, a->w, a, b);
}
Expr *mkSub(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::Sub, a, b);
    if (a == b) return zero(a->w);
    if (isZero(b)) return a;
    if (b->isConst()) return mkAdd(a, foldC(Op::Sub, zero(a->w), b));
    if (auto p = pushIte(Op::Sub, a, b)) return p;
    if (a->op == Op::Add) {
        if (a->a == b) return a->b;
        if (a->b == b) return a->a;
        if (a->b->isConst()) return mkAdd(mkSub(a->a, b), a->b);
    }
    if (b->op == Op::Add) {
        if (b->a == a) return mkNeg(b->b);
        if (b->b == a) return mkNeg(b->a);
        if (b->b->isConst()) return mkAdd(mkSub(a, b->a), mkNeg(b->b));
    }
    if (b->op == Op::Sub && b->a == a) return b->b;
    if (b->op == Op::Sub && isZero(b->a)) return mkAdd(a, b->b);
    if (a->op == Op::Add && b->op == Op::Add) {
        if (a->a == b->a) return mkSub(a->b, b->b);
        if (a->a == b->b) return mkSub(a->b, b->a);
        if (a->b == b->a) return mkSub(a->a, b->b);
        if (a->b == b->b) return mkSub(a->a, b->a);
    }
    if (a->op == Op::Sub && a->a == b) return mkNeg(a->b);
    // 0 - zext(bit)
    if (isZero(a) && b->op == Op::Concat && b->b->w == 1 && isZero(b->a)) return mkIte(b->b, ones(a->w), zero(a->w));
    // x - (x/c)*c -> x % c
    if (b->op == Op::Mul && b->b->isConst()) {
        if (b->a->op == Op::UDiv && b->a->a == a && b->a->b == b->b) return mkURem(a, b->b);
        if (b->a->op == Op::SDiv && b->a->a == a && b->a->b == b->b) return mkSRem(a, b->b);
    }
    if (a->w == 1) return mkXor(a, b);
    return mk(Op::Sub, a->w, a, b);
}
static int log2Const(const Expr *e) {
    if (!e->isConst()) return -1;
    APInt v = constVal(e);
    return v.isPowerOf2() ? (int)v.logBase2() : -1;
}
Expr *mkMul(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::Mul, a, b);
    if (a->isConst()) std::swap(a, b);
    if (isZero(b)) return b;
    if (isOne(b)) return a;
    if (isOnes(b)) return mkNeg(a);
    int l = log2Const(b);
    if (l >= 0) return mkShl(a, mkConst(b->w, l));
    if (auto p = pushIte(Op::Mul, a, b)) return p;
    if (b->isConst() && a->op == Op::Mul && a->b->isConst()) return mkMul(a->a, mkMul(a->b, b));
    // c*(x - (x/c')...) and similar are left to the solver
    if (a->w == 1) return mkAnd(a, b);
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return mk(Op::Mul, a->w, a, b);
}
// upper bound (exclusive as width): number of low bits that may be non-zero
static uint32_t activeBits(Expr *e) {
    if (e->isConst()) return constVal(e).getActiveBits();
    if (e->op == Op::Concat) {
        if (isZero(e->a)) return activeBits(e->b);
        return e->b->w + activeBits(e->a);
    }
    if (e->op == Op::Ite) return std::max(activeBits(e->b), activeBits(e->c));
    return e->w;
}
Expr *mkUDiv(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::UDiv, a, b);
    if (isOne(b)) return a;
    int l = log2Const(b);
    if (l >= 0) return mkLShr(a, mkConst(b->w, l));
    if (auto p = pushIte(Op::UDiv, a, b)) return p;
    if (b->isConst() && !isZero(b)) {
        uint32_t ab = activeBits(a);
        uint32_t n = std::max(ab, constVal(b).getActiveBits());
        if (ab == 0 || constVal(b).getActiveBits() > ab) return zero(a->w);
        if (n < a->w) return mkZExt(mkUDiv(mkExtract(a, 0, n), mkExtract(b, 0, n)), a->w);
    }
    return mk(Op::UDiv, a->w, a, b);
}
Expr *mkURem(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::URem, a, b);
    if (isOne(b)) return zero(a->w);
    int l = log2Const(b);
    if (l >= 0) return mkZExt(mkExtract(a, 0, l), a->w);
    if (auto p = pushIte(Op::URem, a, b)) return p;
    if (b->isConst() && !isZero(b)) {
        uint32_t ab = activeBits(a);
        uint32_t n = std::max(ab, constVal(b).getActiveBits());
        if (ab == 0 || constVal(b).getActiveBits() > ab) return a;
        if (n < a->w) return mkZExt(mkURem(mkExtract(a, 0, n), mkExtract(b, 0, n)), a->w);
    }
    return mk(Op::URem, a->w, a, b);
}
static bool topZero(Expr *e) { return activeBits(e) < e->w; }
Expr *mkSDiv(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::SDiv, a, b);
    if (isOne(b)) return a;
    if (topZero(a) && topZero(b)) return mkUDiv(a, b);
    if (auto p = pushIte(Op::SDiv, a, b)) return p;
    return mk(Op::SDiv, a->w, a, b);
}
Expr *mkSRem(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::SRem, a, b);
    if (topZero(a) && topZero(b)) return mkURem(a, b);
    if (isOne(b)) return zero(a->w);
    if (auto p = pushIte(Op::SRem, a, b)) return p;
    return mk(Op::SRem, a->w, a, b);
}

// parts of a concat, most significant first
static void parts(Expr *e, std::vector<Expr *> &out) {
    while (e->op == Op::Concat) { parts(e->a, out); e = e->b; }
    out.push_back(e);
}
static Expr *bitwiseConcat(Op op, Expr *a, Expr *b) {
    // Distribute a bitwise operation over concat boundaries.
    std::vector<Expr *> pa, pb;
    parts(a, pa); parts(b, pb);
    size_t i = 0, j = 0;
    Expr *ra = nullptr, *rb = nullptr;
    Expr *res = nullptr;
    // walk from the most significant end
    while (i < pa.size() || ra || rb) {
        Expr *x = ra ? ra : pa[i];
        Expr *y = rb ? rb : pb[j];
        uint32_t n = std::min(x->w, y->w);
        Expr *xs = mkExtract(x, x->w - n, n), *ys = mkExtract(y, y->w - n, n);
        Expr *r = mkBin(op, xs, ys);
        res = res ? mkConcat(res, r) : r;
        if (x->w > n) ra = mkExtract(x, 0, x->w - n); else { ra = nullptr; i++; }
        if (y->w > n) rb = mkExtract(y, 0, y->w - n); else { rb = nullptr; j++; }
        if (!ra && !rb && i >= pa.size()) break;
    }
    return res;
}
// split a constant mask into runs so that And becomes concat of extracts
static int runs(const APInt &m) {
    int r = 1;
    for (unsigned i = 1; i < m.getBitWidth(); ++i) if (m[i] != m[i - 1]) r++;
    return r;
}
Expr *mkAnd(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::And, a, b);
    if (a == b) return a;
    if (a->isConst()) std::swap(a, b);
    if (isZero(b)) return b;
    if (isOnes(b)) return a;
    if (a->w == 1) {
        if (a->op == Op::Not && a->a == b) return zero(1);
        if (b->op == Op::Not && b->a == a) return zero(1);
        if (a->op == Op::And && (a->a == b || a->b == b)) return a;
        if (b->op == Op::And && (b->a == a || b->b == a)) return b;
    } else {
        if (auto p = pushIte(Op::And, a, b)) return p;
        if (b->isConst()) {
            if (a->op == Op::And && a->b->isConst()) return mkAnd(a->a, mkAnd(a->b, b));
            APInt m = constVal(b);
            if (runs(m) <= 9) {
                Expr *res = nullptr;
                unsigned hi = m.getBitWidth();
                while (hi > 0) {
                    unsigned lo = hi - 1; bool bit = m[hi - 1];
                    while (lo > 0 && m[lo - 1] == bit) lo--;
                    Expr *p = bit ? mkExtract(a, lo, hi - lo) : zero(hi - lo);
                    res = res ? mkConcat(res, p) : p;
                    hi = lo;
                }
                return res;
            }
        }
        if (a->op == Op::Concat && (b->op == Op::Concat || b->isConst())) return bitwiseConcat(Op::And, a, b);
        if (b->op == Op::Concat && isZero(b->a)) return bitwiseConcat(Op::And, a, b);
        if (a->op == Op::Concat && isZero(a->a)) return bitwiseConcat(Op::And, a, b);
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return mk(Op::And, a->w, a, b);
}
Expr *mkOr(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::Or, a, b);
    if (a == b) return a;
    if (a->isConst()) std::swap(a, b);
    if (isZero(b)) return a;
    if (isOnes(b)) return b;
    if (a->w == 1) {
        if (a->op == Op::Not && a->a == b) return ones(1);
        if (b->op == Op::Not && b->a == a) return ones(1);
        if (a->op == Op::Or && (a->a == b || a->b == b)) return a;
        if (b->op == Op::Or && (b->a == a || b->b == a)) return b;
        return mkNot(mkAnd(mkNot(a), mkNot(b)));
    }
    if (auto p = pushIte(Op::Or, a, b)) return p;
    if ((a->op == Op::Concat || b->op == Op::Concat) && (b->op == Op::Concat || b->isConst() || true)) {
        if (b->isConst() || a->op == Op::Concat || b->op == Op::Concat) {
            bool useful = (a->op == Op::Concat && (b->op == Op::Concat || b->isConst()));
            if (!useful) {
                Expr *cc = a->op == Op::Concat ? a : b;
                std::vector<Expr *> ps; parts(cc, ps);
                for (auto *p : ps) if (p->isConst()) useful = true;
            }
            if (useful) return bitwiseConcat(Op::Or, a, b);
        }
    }
    if (b->isConst()) {
        APInt m = constVal(b);
        if (runs(m) <= 9) {
            Expr *res = nullptr;
            unsigned hi = m.getBitWidth();
            while (hi > 0) {
                unsigned lo = hi - 1; bool bit = m[hi - 1];
                while (lo > 0 && m[lo - 1] == bit) lo--;
                Expr *p = !bit ? mkExtract(a, lo, hi - lo) : ones(hi - lo);
                res = res ? mkConcat(res, p) : p;
                hi = lo;
            }
            return res;
        }
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return mk(Op::Or, a->w, a, b);
}
Expr *mkXor(Expr *a, Expr *b) {
    if (a->isConst() && b->isConst()) return foldC(Op::Xor, a, b);
    if (a == b) return zero(a->w);
    if (a->isConst()) std::swap(a, b);
    if (isZero(b)) return a;
    if (a->w == 1) {
        if (isOne(b)) return mkNot(a);
        if (a->op == Op::Not && b->op == Op::Not) return mkXor(a->a, b->a);
        if (a->op == Op::Not) return mkNot(mkXor(a->a, b));
        if (b->op == Op::Not) return mkNot(mkXor(a, b->a));
        if (a->op == Op::Xor && (a->a == b || a->b == b)) return a->a == b ? a->b : a->a;
        if (b->op == Op::Xor && (b->a == a || b->b == a)) return b->a == a ? b->b : b->a;
    } else {
        if (auto p = pushIte(Op::Xor, a, b)) return p;
        if (a->op == Op::Xor && a->b->isConst() && b->isConst()) return mkXor(a->a, mkXor(a->b, b));
        if (a->op == Op::Xor && a->b->isConst()) return mkXor(mkXor(a->a, b), a->b);
        if (b->op == Op::Xor && b->b->isConst()) return mkXor(mkXor(a, b->a), b->b);
        if (a->op == Op::Xor && (a->a == b || a->b == b)) return a->a == b ? a->b : a->a;
        if (b->op == Op::Xor && (b->a == a || b->b == a)) return b->a == a ? b->b : b->a;
        if (a->op == Op::Concat && (b->op == Op::Concat || b->isConst())) return bitwiseConcat(Op::Xor, a, b);
        Expr *cc = a->op == Op::Concat ? a : b->op == Op::Concat ? b : nullptr;
        if (cc) {
            std::vector<Expr *> ps; parts(cc, ps);
            for (auto *p : ps) if (p->isConst()) return bitwiseConcat(Op::Xor, a, b);
        }
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return mk(Op::Xor, a->w, a, b);
}
Expr *mkNot(Expr *a) {
    if (a->w != 1) return mkXor(a, ones(a->w));
    if (a->isConst()) return mkConst(1, !a->k);
    if (a->op == Op::Not) return a->a;
    return mk(Op::Not, 1, a);
}
Expr *mkShl(Expr *a, Expr *b) {
    if (b->isConst()) {
        APInt s = constVal(b);
        if (s.uge(a->w)) return zero(a->w);
        uint32_t n = s.getZExtValue();
        if (n == 0) return a;
        return mkConcat(mkExtract(a, 0, a->w - n), zero(n));
    }
    if (isZero(a)) return a;
    if (auto p = pushIte(Op::Shl, a, b)) return p;
    return mk(Op::Shl, a->w, a, b);
}
Expr *mkLShr(Expr *a, Expr *b) {
    if (b->isConst()) {
        APInt s = constVal(b);
        if (s.uge(a->w)) return zero(a->w);
        uint32_t n = s.getZExtValue();
        if (n == 0) return a;
        return mkConcat(zero(n), mkExtract(a, n, a->w - n));
    }
    if (isZero(a)) return a;
    if (auto p = pushIte(Op::LShr, a, b)) return p;
    return mk(Op::LShr, a->w, a, b);
}
Expr *mkAShr(Expr *a, Expr *b) {
    if (topZero(a)) return mkLShr(a, b);
    if (b->isConst()) {
        APInt s = constVal(b);
        uint32_t n = s.uge(a->w) ? a->w - 1 : s.getZExtValue();
        if (n == 0) return a;
        if (a->isConst()) return foldC(Op::AShr, a, b);
        return mkSExt(mkExtract(a, n, a->w - n), a->w);
    }
    if (auto p = pushIte(Op::AShr, a, b)) return p;
    return mk(Op::AShr, a->w, a, b);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
    if (hi->isConst() && lo->isConst()) {
        uint32_t w = hi->w + lo->w;
        if (w <= 64) return mkConst(w, (hi->k << lo->w) | lo->k);
        return mkConst(constVal(hi).zext(w).shl(lo->w) | constVal(lo).zext(w));
    }
    // right-leaning
    if (hi->op == Op::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    Expr *first = lo->op == Op::Concat ? lo->a : lo;
    if (hi->isConst() && first->isConst() && lo->op == Op::Concat) return mkConcat(mkConcat(hi, first), lo->b);
    if (hi->op == Op::Extract && first->op == Op::Extract && hi->a == first->a && hi->k == first->k + first->w) {
        Expr *m = mkExtract(hi->a, first->k, hi->w + first->w);
        return lo->op == Op::Concat ? mkConcat(m, lo->b) : m;
    }
    // upper and lower part of one sum (the lower part of a sum is kept as a sum of lower parts)
    if (hi->op == Op::Extract && hi->k == first->w && (hi->a->op == Op::Add || hi->a->op == Op::Sub || hi->a->op == Op::Mul) && mkExtract(hi->a, 0, hi->k) == first) {
        Expr *m = mkExtract(hi->a, 0, hi->w + first->w);
        return lo->op == Op::Concat ? mkConcat(m, lo->b) : m;
    }
    // ites on the same condition with constant arms
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a && hi->b->isConst() && lo->b->isConst() && hi->c->isConst() && lo->c->isConst())
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    return mk(Op::Concat, hi->w + lo->w, hi, lo);
}
Expr *mkExtract(Expr *e, uint32_t lo, uint32_t w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->op) {
    case Op::Const:
        if (e->w <= 64) return mkConst(w, e->k >> lo);
        return mkConst(constVal(e).extractBits(w, lo));
    case Op::Extract: return mkExtract(e->a, e->k + lo, w);
    case Op::Concat: {
        uint32_t lw = e->b->w;
        if (lo >= lw) return mkExtract(e->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(e->b, lo, w);
        return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
    }
    case Op::SExt:
        if (lo + w <= e->a->w) return mkExtract(e->a, lo, w);
        if (lo < e->a->w) return mkSExt(mkExtract(e->a, lo, e->a->w - lo), w);
        return mkSExt(mkExtract(e->a, e->a->w - 1, 1), w);
    case Op::And: case Op::Or: case Op::Xor:
        return mkBin(e->op, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
        if (lo == 0) return mkBin(e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    case Op::Ite:
        if ((e->b->isConst() || e->b->op == Op::Ite || e->b->op == Op::Concat || e->b->op == Op::Var)
            && (e->c->isConst() || e->c->op == Op::Ite || e->c->op == Op::Concat || e->c->op == Op::Var))
            return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
        break;
    default: break;
    }
    return mk(Op::Extract, w, e, nullptr, nullptr, lo);
}
Expr *mkZExt(Expr *e, uint32_t w) {
    if (w == e->w) return e;
    if (w < e->w) return mkExtract(e, 0, w);
    return mkConcat(zero(w - e->w), e);
}
Expr *mkSExt(Expr *e, uint32_t w) {
    if (w == e->w) return e;
    if (w < e->w) return mkExtract(e, 0, w);
    if (e->isConst()) return mkConst(constVal(e).sext(w));
    if (e->op == Op::SExt) return mkSExt(e->a, w);
    if (topZero(e)) return mkZExt(e, w);
    if (e->w == 1) return mkIte(e, ones(w), zero(w));
    if (e->op == Op::Ite && e->b->isConst() && e->c->isConst()) return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
    return mk(Op::SExt, w, e);
}

// ---------------------------------------------------------------- XOR-linear forms
// lin form: for each bit a sorted list of atoms (exprId*? , bit) plus constant.
static std::unordered_map<uint64_t, Expr *> gAtoms;
struct LBit { bool c = false; std::vector<uint64_t> at; bool operator==(const LBit &) const = default; };
static std::vector<std::vector<LBit>> gLin;
static std::vector<Expr *> gById;   // only for atoms display (unused)
static LBit lxor(const LBit &x, const LBit &y) {
    LBit r; r.c = x.c ^ y.c;
    r.at.reserve(x.at.size() + y.at.size());
    std::set_symmetric_difference(x.at.begin(), x.at.end(), y.at.begin(), y.at.end(), std::back_inserter(r.at));
    return r;
}
static bool tabAffine(const Table *t) { return t->affine; }
static int linOf(Expr *e) {
    if (e->lin >= 0) return e->lin;
    std::vector<LBit> r(e->w);
    auto atom = [&] { gAtoms[e->id] = e; for (uint32_t i = 0; i < e->w; ++i) r[i].at.push_back(((uint64_t)e->id << 12) | i); };
    switch (e->op) {
    case Op::Const: { APInt v = constVal(e); for (uint32_t i = 0; i < e->w; ++i) r[i].c = v[i]; break; }
    case Op::Xor: { int x = linOf(e->a), y = linOf(e->b); for (uint32_t i = 0; i < e->w; ++i) r[i] = lxor(gLin[x][i], gLin[y][i]); break; }
    case Op::Not: { int x = linOf(e->a); r[0] = gLin[x][0]; r[0].c ^= 1; break; }
    case Op::Concat: { int x = linOf(e->a), y = linOf(e->b);
        for (uint32_t i = 0; i < e->b->w; ++i) r[i] = gLin[y][i];
        for (uint32_t i = 0; i < e->a->w; ++i) r[e->b->w + i] = gLin[x][i];
        break; }
    case Op::Extract: { int x = linOf(e->a); for (uint32_t i = 0; i < e->w; ++i) r[i] = gLin[x][e->k + i]; break; }
    case Op::SExt: { int x = linOf(e->a); for (uint32_t i = 0; i < e->w; ++i) r[i] = gLin[x][std::min(i, e->a->w - 1)]; break; }
    case Op::Eq:
        if (e->a->w == 1) { int x = linOf(e->a), y = linOf(e->b); r[0] = lxor(gLin[x][0], gLin[y][0]); r[0].c ^= 1; break; }
        atom(); break;
    case Op::Ite:
        if (e->b->isConst() && e->c->isConst()) {
            int x = linOf(e->a);
            APInt p = constVal(e->b), q = constVal(e->c);
            for (uint32_t i = 0; i < e->w; ++i) {
                if (p[i] == q[i]) r[i].c = p[i];
                else { r[i] = gLin[x][0]; if (!p[i]) r[i].c ^= 1; }
            }
            break;
        } else {
            // ite(c, x^k, x) = x ^ (c ? k : 0) when the difference is constant
            int x = linOf(e->b), y = linOf(e->c);
            bool ok = true;
            for (uint32_t i = 0; i < e->w && ok; ++i) if (gLin[x][i].at != gLin[y][i].at) ok = false;
            if (ok) {
                int c = linOf(e->a);
                for (uint32_t i = 0; i < e->w; ++i) {
                    r[i] = gLin[y][i];
                    if (gLin[x][i].c != gLin[y][i].c) r[i] = lxor(r[i], gLin[c][0]);
                }
                break;
            }
        }
        atom(); break;
    case Op::Tab:
        if (tabAffine(e->tab)) {
            int x = linOf(e->a);
            for (uint32_t i = 0; i < e->w; ++i) {
                LBit b; b.c = (e->tab->v[0] >> i) & 1;
                for (uint32_t j = 0; j < e->tab->idxw; ++j)
                    if ((((e->tab->v[1ull << j] ^ e->tab->v[0]) >> i) & 1)) b = lxor(b, gLin[x][j]);
                r[i] = b;
            }
            break;
        }
        atom(); break;
    default: atom(); break;
    }
    gLin.push_back(std::move(r));
    return e->lin = (int)gLin.size() - 1;
}
// linear forms of all bits over atoms (variables and opaque subterms)
Expr *linAtom(uint64_t id) { return gAtoms.at(id); }
void linBits(Expr *e, std::vector<LinRow> &rows) {
    int x = linOf(e);
    for (const auto &b : gLin[x]) { LinRow r; r.c = b.c; r.bits = b.at; rows.push_back(std::move(r)); }
}
static bool linInteresting(Expr *e, int depth = 0) {
    if (depth > 3) return false;
    switch (e->op) {
    case Op::Tab: return tabAffine(e->tab);
    case Op::Xor: return true;
    case Op::Ite: return linInteresting(e->b, depth + 1) || linInteresting(e->c, depth + 1);
    case Op::Concat: return linInteresting(e->a, depth + 1) || linInteresting(e->b, depth + 1);
    case Op::Extract: return linInteresting(e->a, depth + 1);
    default: return false;
    }
}

static Expr *eqConcat(Expr *a, Expr *b) {
    std::vector<Expr *> pa, pb;
    parts(a, pa); parts(b, pb);
    Expr *res = mkTrue();
    size_t i = 0, j = 0; Expr *ra = nullptr, *rb = nullptr;
    while (i < pa.size() || ra) {
        Expr *x = ra ? ra : pa[i];
        Expr *y = rb ? rb : pb[j];
        uint32_t n = std::min(x->w, y->w);
        res = mkAnd(res, mkEq(mkExtract(x, x->w - n, n), mkExtract(y, y->w - n, n)));
        if (res->isFalse()) return res;
        if (x->w > n) ra = mkExtract(x, 0, x->w - n); else { ra = nullptr; i++; }
        if (y->w > n) rb = mkExtract(y, 0, y->w - n); else { rb = nullptr; j++; }
    }
    return res;
}

Expr *mkEq(Expr *a, Expr *b) {
    if (a == b) return mkTrue();
    if (a->isConst() && b->isConst()) return mkFalse();   // hash-consed: different
    if (a->isConst()) std::swap(a, b);
    if (a->w == 1) {
        if (b->isConst()) return b->k ? a : mkNot(a);
        return mkNot(mkXor(a, b));
    }
    if (b->isConst()) {
        if (a->op == Op::Ite) {
            if (a->b->isConst() && a->c->isConst()) {
                bool p = a->b == b, q = a->c == b;
                if (p && q) return mkTrue();
                if (p) return a->a;
                if (q) return mkNot(a->a);
                return mkFalse();
            }
            if (a->b->isConst() || a->c->isConst() || a->b->op == Op::Ite || a->c->op == Op::Ite)
                return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
        }
        if (a->op == Op::Add && a->b->isConst()) return mkEq(a->a, mkSub(b, a->b));
        if (a->op == Op::Sub && a->a->isConst()) return mkEq(a->b, mkSub(a->a, b));
        if (a->op == Op::Xor && a->b->isConst()) return mkEq(a->a, mkXor(b, a->b));
        if (isZero(b) && (a->op == Op::Xor || a->op == Op::Sub) && !a->a->isConst() && !linInteresting(a)) return mkEq(a->a, a->b);
        if (a->op == Op::SExt) {
            Expr *lowc = mkExtract(b, 0, a->a->w);
            if (mkSExt(lowc, a->w) != b) return mkFalse();
            return mkEq(a->a, lowc);
        }
        if (a->op == Op::Concat) return eqConcat(a, b);
        if (a->op == Op::Mul && a->b->isConst()) {
            // odd multiplier: invertible
            APInt m = constVal(a->b);
            if (m[0]) {
                APInt inv = m; // Newton
                for (int i = 0; i < 8; ++i) inv = inv * (APInt(m.getBitWidth(), 2) - m * inv);
                return mkEq(a->a, mkConst(inv * constVal(b)));
            }
        }
        if (a->op == Op::Tab && a->w <= 64) {
            bool any = false;
            for (auto v : a->tab->v) if (v == b->k) { any = true; break; }
            if (!any) return mkFalse();
        }
    } else {
        if (a->op == Op::Concat && b->op == Op::Concat) {
            return eqConcat(a, b);
        }
        if (a->op == Op::Add && b->op == Op::Add) {
            if (a->a == b->a) return mkEq(a->b, b->b);
            if (a->b == b->b) return mkEq(a->a, b->a);
            if (a->a == b->b) return mkEq(a->b, b->a);
            if (a->b == b->a) return mkEq(a->a, b->b);
        }
        if (a->op == Op::Add && (a->a == b || a->b == b)) return mkEq(a->a == b ? a->b : a->a, zero(a->w));
        if (b->op == Op::Add && (b->a == a || b->b == a)) return mkEq(b->a == a ? b->b : b->a, zero(a->w));
        if (a->op == Op::Xor && b->op == Op::Xor) {
            if (a->a == b->a) return mkEq(a->b, b->b);
            if (a->b == b->b) return mkEq(a->a, b->a);
            if (a->a == b->b) return mkEq(a->b, b->a);
            if (a->b == b->a) return mkEq(a->a, b->b);
        }
        if (a->op == Op::Ite && b->op == Op::Ite && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
        if (a->op == Op::Ite && a->b == b) return mkOr(a->a, mkEq(a->c, b));
        if (a->op == Op::Ite && a->c == b) return mkOr(mkNot(a->a), mkEq(a->b, b));
        if (b->op == Op::Ite && b->b == a) return mkOr(b->a, mkEq(b->c, a));
        if (b->op == Op::Ite && b->c == a) return mkOr(mkNot(b->a), mkEq(b->b, a));
    }
    if (a->w <= 256 && (linInteresting(a) || linInteresting(b))) {
        int x = linOf(a), y = linOf(b);
        bool allZero = true;
        for (uint32_t i = 0; i < a->w; ++i) {
            LBit d = lxor(gLin[x][i], gLin[y][i]);
            if (d.at.empty()) { if (d.c) return mkFalse(); }
            else allZero = false;
        }
        if (allZero) return mkTrue();
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return mk(Op::Eq, 1, a, b);
}
Expr *mkUlt(Expr *a, Expr *b) {
    if (a == b) return mkFalse();
    if (a->isConst() && b->isConst()) return mkConst(1, constVal(a).ult(constVal(b)));
    if (isZero(b)) return mkFalse();
    if (isOnes(a)) return mkFalse();
    if (isOne(b)) return mkEq(a, zero(a->w));
    if (isZero(a)) return mkNot(mkEq(b, zero(b->w)));
    if (isOnes(b)) return mkNot(mkEq(a, b));
    if (a->w == 1) return mkAnd(mkNot(a), b);
    uint32_t n = std::max(activeBits(a), activeBits(b));
    if (n < a->w) {
        if (n == 0) return mkFalse();
        return mkUlt(mkExtract(a, 0, n), mkExtract(b, 0, n));
    }
    if (b->isConst() && activeBits(a) < constVal(b).getActiveBits()) return mkTrue();
    if (a->isConst() && a->w <= 64) { uint32_t z = knownZeroLow(b), k = activeBits(b); uint64_t mx = k >= 64 ? ~0ull : (1ull << k) - 1; if (z < 64) mx &= ~0ull << z; if (a->k >= mx) return mkFalse(); }
    if (b->isConst() && b->w <= 64) { uint32_t z = knownZeroLow(a), k = activeBits(a); uint64_t mx = k >= 64 ? ~0ull : (1ull << k) - 1; if (z < 64) mx &= ~0ull << z; if (mx < b->k) return mkTrue(); }
    if (a->op == Op::Ite && b->isConst() && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (b->op == Op::Ite && a->isConst() && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    if (a->op == Op::Concat && b->op == Op::Concat) {
        // common low part
        if (a->b == b->b) return mkUlt(a->a, b->a);
        if (a->a == b->a) return mkUlt(a->b, b->b);
    }
    return mk(Op::Ult, 1, a, b);
}
Expr *mkSlt(Expr *a, Expr *b) {
    if (a == b) return mkFalse();
    if (a->isConst() && b->isConst()) return mkConst(1, constVal(a).slt(constVal(b)));
    if (a->w == 1) return mkAnd(a, mkNot(b));
    bool ta = topZero(a), tb = topZero(b);
    if (ta && tb) return mkUlt(a, b);
    if (ta && b->isConst() && constVal(b).isNegative()) return mkFalse();
    if (tb && a->isConst() && constVal(a).isNegative()) return mkTrue();
    if (isZero(b)) return mkExtract(a, a->w - 1, 1);
    if (isOnes(a)) return mkNot(mkExtract(b, b->w - 1, 1));
    if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkSlt(a->a, b->a);
    if (a->op == Op::SExt && b->isConst()) {
        Expr *l = mkExtract(b, 0, a->a->w);
        if (mkSExt(l, a->w) == b) return mkSlt(a->a, l);
        return mkConst(1, !constVal(b).isNegative());
    }
    if (b->op == Op::SExt && a->isConst()) {
        Expr *l = mkExtract(a, 0, b->a->w);
        if (mkSExt(l, b->w) == a) return mkSlt(l, b->a);
        return mkConst(1, constVal(a).isNegative());
    }
    if (a->op == Op::Ite && b->isConst() && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
    if (b->op == Op::Ite && a->isConst() && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
    return mk(Op::Slt, 1, a, b);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
    if (c->isConst()) return c->k ? a : b;
    if (a == b) return a;
    if (c->op == Op::Not) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (a->isConst()) return a->k ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isConst()) return b->k ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (a->op == Op::Ite && a->a == c) return mkIte(c, a->b, b);
    if (b->op == Op::Ite && b->a == c) return mkIte(c, a, b->c);
    if (b->op == Op::Ite && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
    return mk(Op::Ite, a->w, c, a, b);
}
struct TabKey { uint32_t idxw, w; std::vector<uint64_t> v; bool operator<(const TabKey &o) const { return std::tie(idxw, w, v) < std::tie(o.idxw, o.w, o.v); } };
static std::map<TabKey, std::unique_ptr<Table>> gTabs;
Expr *mkTab(const Table &t, Expr *idx) {
    if (idx->isConst()) return mkConst(t.w, t.v[idx->k]);
    bool same = true;
    for (auto v : t.v) if (v != t.v[0]) { same = false; break; }
    if (same) return mkConst(t.w, t.v[0]);
    auto &p = gTabs[TabKey{t.idxw, t.w, t.v}];
    if (!p) {
        p = std::make_unique<Table>(t);
        bool aff = true;
        for (size_t i = 0; i < t.v.size() && aff; ++i) {
            uint64_t x = t.v[0];
            for (uint32_t j = 0; j < t.idxw; ++j) if ((i >> j) & 1) x ^= t.v[1ull << j] ^ t.v[0];
            if (x != t.v[i]) aff = false;
        }
        p->affine = aff;
    }
    Expr n; n.op = Op::Tab; n.w = t.w; n.a = idx; n.tab = p.get();
    return intern(n);
}

// ---------------------------------------------------------------- floating point
static double asD(uint64_t v, uint32_t w) { if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t bitsF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t bitsD(double d, uint32_t w) { if (w == 32) return bitsF((float)d); uint64_t u; memcpy(&u, &d, 8); return u; }
uint64_t foldFp(Fp k, uint32_t w, uint32_t aw, uint64_t x, uint64_t y) {
    double a = asD(x, aw), b = asD(y, aw);
    // the nearest values inside the range of a w-bit integer
    auto inS = [](double v, uint32_t n) { return v > -std::ldexp(1.0, n - 1) - (n < 53 ? 1.0 : 0.0) && v < std::ldexp(1.0, n - 1) || v == -std::ldexp(1.0, n - 1); };
    auto inU = [](double v, uint32_t n) { return v > -1.0 && v < std::ldexp(1.0, n); };
    switch (k) {
    case Fp::Add: return bitsD(a + b, w);
    case Fp::Sub: return bitsD(a - b, w);
    case Fp::Mul: return bitsD(a * b, w);
    case Fp::Div: return bitsD(a / b, w);
    case Fp::Oeq: return a == b;
    case Fp::Olt: return a < b;
    case Fp::Ole: return a <= b;
    case Fp::Uno: return std::isnan(a) || std::isnan(b);
    case Fp::FromS: return w == 32 ? bitsF((float)sx(x, aw)) : bitsD((double)sx(x, aw), 64);
    case Fp::FromU: return w == 32 ? bitsF((float)x) : bitsD((double)x, 64);
    case Fp::ToS: return inS(a, w) ? (uint64_t)(int64_t)a & maskw(w) : 0;
    case Fp::ToU: return inU(a, w) ? (a < 0 ? 0 : (uint64_t)a) & maskw(w) : 0;
    case Fp::Conv: return bitsD(a, w);
    case Fp::InS: return inS(a, (uint32_t)y);
    case Fp::InU: return inU(a, (uint32_t)y);
    }
    abort();
}
Expr *mkFp(Fp k, uint32_t w, Expr *a, Expr *b) {
    if (a->isConst() && (!b || b->isConst())) return mkConst(w, foldFp(k, w, a->w, a->k, b ? b->k : 0));
    return mk(Op::FP, w, a, b, nullptr, (uint64_t)k);
}

// ---------------------------------------------------------------- evaluation
uint64_t evalU(Expr *e, const Model &m) {
    if (e->op == Op::Const) return e->wide ? e->wide->getLoBits(64).getZExtValue() : e->k;
    if (e->op == Op::Var) return m.get(e->k) & maskw(e->w);
    if (e->evalStamp == m.stamp) return e->evalVal;
    uint64_t r = 0;
    uint64_t mk_ = maskw(e->w);
    switch (e->op) {
    case Op::Add: case Op::Sub: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem:
    case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr:
        if (e->w <= 64) r = foldBin64(e->op, evalU(e->a, m), evalU(e->b, m), e->w);
        else abort();
        break;
    case Op::Not: r = !evalU(e->a, m); break;
    case Op::Concat: r = (evalU(e->a, m) << e->b->w) | evalU(e->b, m); break;
    case Op::Extract:
        if (e->a->w <= 64) r = (evalU(e->a, m) >> e->k) & mk_;
        else r = evalWide(e->a, m).extractBits(e->w, e->k).getZExtValue();
        break;
    case Op::SExt: r = (uint64_t)sx(evalU(e->a, m), e->a->w) & mk_; break;
    case Op::Eq:
        if (e->a->w <= 64) r = evalU(e->a, m) == evalU(e->b, m);
        else r = evalWide(e->a, m) == evalWide(e->b, m);
        break;
    case Op::Ult:
        if (e->a->w <= 64) r = evalU(e->a, m) < evalU(e->b, m);
        else r = evalWide(e->a, m).ult(evalWide(e->b, m));
        break;
    case Op::Slt:
        if (e->a->w <= 64) r = sx(evalU(e->a, m), e->a->w) < sx(evalU(e->b, m), e->a->w);
        else r = evalWide(e->a, m).slt(evalWide(e->b, m));
        break;
    case Op::Ite: r = evalU(e->a, m) ? evalU(e->b, m) : evalU(e->c, m); break;
    case Op::Tab: r = e->tab->v[evalU(e->a, m)]; break;
    case Op::FP: r = foldFp((Fp)e->k, e->w, e->a->w, evalU(e->a, m), e->b ? evalU(e->b, m) : 0); break;
    default: abort();
    }
    e->evalStamp = m.stamp; e->evalVal = r;
    return r;
}
APInt evalWide(Expr *e, const Model &m) {
    if (e->w <= 64) return APInt(e->w, evalU(e, m));
    switch (e->op) {
    case Op::Const: return constVal(e);
    case Op::Add: case Op::Sub: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem:
    case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr:
        return foldBin(e->op, evalWide(e->a, m), evalWide(e->b, m));
    case Op::Concat: return evalWide(e->a, m).zext(e->w).shl(e->b->w) | evalWide(e->b, m).zext(e->w);
    case Op::Extract: return evalWide(e->a, m).extractBits(e->w, e->k);
    case Op::SExt: return evalWide(e->a, m).sext(e->w);
    case Op::Ite: return evalU(e->a, m) ? evalWide(e->b, m) : evalWide(e->c, m);
    case Op::Var: return APInt(e->w, m.get(e->k));
    default: fprintf(stderr, "evalWide op %d\n", (int)e->op); abort();
    }
}

// ---------------------------------------------------------------- variable sets
static std::vector<VSet> gSets;
static std::map<VSet, int> gSetIdx;
static std::unordered_map<uint64_t, int> gUnion;
static int internSet(VSet &&s) {
    while (!s.empty() && s.back() == 0) s.pop_back();
    auto it = gSetIdx.find(s);
    if (it != gSetIdx.end()) return it->second;
    int i = gSets.size();
    gSetIdx.emplace(s, i);
    gSets.push_back(std::move(s));
    return i;
}
static int uni(int x, int y) {
    if (x == y) return x;
    if (gSets[x].empty()) return y;
    if (gSets[y].empty()) return x;
    if (x > y) std::swap(x, y);
    uint64_t key = ((uint64_t)x << 32) | y;
    auto it = gUnion.find(key);
    if (it != gUnion.end()) return it->second;
    VSet s = gSets[x]; const VSet &t = gSets[y];
    if (s.size() < t.size()) s.resize(t.size());
    for (size_t i = 0; i < t.size(); ++i) s[i] |= t[i];
    int r = internSet(std::move(s));
    gUnion[key] = r;
    return r;
}
static int vsetOf(Expr *e) {
    if (e->vset >= 0) return e->vset;
    int r;
    if (e->op == Op::Var) { VSet s(e->k / 64 + 1); s[e->k / 64] |= 1ull << (e->k % 64); r = internSet(std::move(s)); }
    else {
        r = internSet(VSet{});
        if (e->a) r = uni(r, vsetOf(e->a));
        if (e->b) r = uni(r, vsetOf(e->b));
        if (e->c) r = uni(r, vsetOf(e->c));
    }
    return e->vset = r;
}
const VSet &varSet(Expr *e) { int i = vsetOf(e); return gSets[i]; }
bool intersects(const VSet &a, const VSet &b) {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) if (a[i] & b[i]) return true;
    return false;
}

uint32_t knownZeroLow(Expr *e) {
    if (e->isConst()) return constVal(e).countTrailingZeros();
    if (e->op == Op::Concat) {
        uint32_t l = knownZeroLow(e->b);
        return l < e->b->w ? l : l + knownZeroLow(e->a);
    }
    if (e->op == Op::Add || e->op == Op::Sub || e->op == Op::Or || e->op == Op::Xor) return std::min(knownZeroLow(e->a), knownZeroLow(e->b));
    if (e->op == Op::Mul) return std::min(e->w, knownZeroLow(e->a) + knownZeroLow(e->b));
    if (e->op == Op::Ite) return std::min(knownZeroLow(e->b), knownZeroLow(e->c));
    return 0;
}

std::string show(Expr *e, int depth) {
    static const char *names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","concat","extract","sext","eq","ult","slt","ite","tab","fp"};
    if (e->op == Op::Const) { llvm::SmallString<32> s; constVal(e).toString(s, 16, false); return "0x" + std::string(s.str()) + ":" + std::to_string(e->w); }
    if (e->op == Op::Var) return gVars[e->k].name;
    if (depth == 0) return "...";
    std::string r = std::string("(") + names[(int)e->op];
    if (e->op == Op::Extract) r += "[" + std::to_string(e->k) + "+" + std::to_string(e->w) + "]";
    for (Expr *x : {e->a, e->b, e->c}) if (x) r += " " + show(x, depth - 1);
    return r + ")";
}

}
