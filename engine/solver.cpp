#include "solver.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <chrono>
#include <deque>
#include <set>
#include <unordered_set>
#include <z3.h>
#include <llvm/ADT/SmallVector.h>
namespace se {
SolverStats gSolver;
unsigned gQueryTimeoutMs = 60000;
static uint32_t gStamp = 0;
uint32_t newStamp() { return ++gStamp; }

static Z3_context C;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, zerr);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
struct DivAx { Z3_ast ax; };
static std::unordered_map<Expr *, Z3_ast> gAx;     // UDiv/URem node -> axiom
static std::unordered_map<Expr *, std::pair<Z3_ast, Z3_ast>> gQR;
static std::unordered_map<Expr *, std::vector<Expr *>> gDivsOf;

static Z3_ast toBv(Expr *e);
static Z3_ast toBool(Expr *e);
static Z3_ast constBv(const APInt &v) {
    if (v.getBitWidth() <= 64) return Z3_mk_unsigned_int64(C, v.getZExtValue(), bvs(v.getBitWidth()));
    llvm::SmallVector<char, 64> s; v.toString(s, 10, false); s.push_back(0);
    return Z3_mk_numeral(C, s.data(), bvs(v.getBitWidth()));
}
static Z3_ast constBv(uint32_t w, uint64_t v) { return Z3_mk_unsigned_int64(C, v, bvs(w)); }
static std::pair<Z3_ast, Z3_ast> divRem(Expr *a, Expr *b) {
    // keyed by a canonical udiv node
    static std::map<std::pair<Expr *, Expr *>, std::pair<Z3_ast, Z3_ast>> qr;
    auto it = qr.find({a, b});
    if (it != qr.end()) return it->second;
    uint32_t w = a->w;
    Z3_ast q = Z3_mk_fresh_const(C, "q", bvs(w)); Z3_inc_ref(C, q);
    Z3_ast r = Z3_mk_fresh_const(C, "r", bvs(w)); Z3_inc_ref(C, r);
    return qr[{a, b}] = {q, r};
}
static Z3_ast divAxiom(Expr *e) {
    auto it = gAx.find(e);
    if (it != gAx.end()) return it->second;
    auto [q, r] = divRem(e->a, e->b);
    APInt c = constVal(e->b);
    Z3_ast x = toBv(e->a), cc = constBv(c);
    Z3_ast p = Z3_mk_bvmul(C, q, cc);
    Z3_ast cs[3] = { Z3_mk_eq(C, x, Z3_mk_bvadd(C, p, r)), Z3_mk_bvult(C, r, cc),
                     Z3_mk_bvule(C, q, constBv(APInt::getAllOnes(c.getBitWidth()).udiv(c))) };
    // no wrap of p + r: x >= p
    Z3_ast nw = Z3_mk_bvuge(C, x, p);
    Z3_ast all[4] = {cs[0], cs[1], cs[2], nw};
    Z3_ast ax = Z3_mk_and(C, 4, all); Z3_inc_ref(C, ax);
    gAx[e] = ax;
    return ax;
}
static bool defDiv(Expr *e) { return (e->op == Op::UDiv || e->op == Op::URem) && e->b->isConst() && constVal(e->b) != 0; }

static Z3_ast tabAst(const Table *t, Expr *idx) {
    if (t->affine) {
        Z3_ast r = constBv(t->w, t->v[0]);
        for (uint32_t j = 0; j < t->idxw; ++j) {
            uint64_t d = t->v[1ull << j] ^ t->v[0];
            if (!d) continue;
            Z3_ast bit = toBool(mkExtract(idx, j, 1));
            r = Z3_mk_bvxor(C, r, Z3_mk_ite(C, bit, constBv(t->w, d), constBv(t->w, 0)));
        }
        return r;
    }
    // balanced multiplexer, most significant bit first
    std::vector<Z3_ast> lv;
    for (auto v : t->v) lv.push_back(constBv(t->w, v));
    for (uint32_t j = 0; j < t->idxw; ++j) {
        Z3_ast bit = toBool(mkExtract(idx, j, 1));
        std::vector<Z3_ast> nx;
        for (size_t i = 0; i + 1 < lv.size(); i += 2) nx.push_back(lv[i] == lv[i + 1] ? lv[i] : Z3_mk_ite(C, bit, lv[i + 1], lv[i]));
        lv = nx;
    }
    return lv[0];
}
static Z3_ast keep(void *&slot, Z3_ast a) { Z3_inc_ref(C, a); slot = a; return a; }

// ---- floating point
static Z3_sort fps(uint32_t w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast fpOf(Expr *e) {
    // conversions chain without going through bit patterns
    static std::unordered_map<Expr *, Z3_ast> memo;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Z3_ast r = nullptr;
    auto rne = Z3_mk_fpa_rne(C);
    if (e->op == Op::FP) switch ((Fp)e->k) {
    case Fp::Add: r = Z3_mk_fpa_add(C, rne, fpOf(e->a), fpOf(e->b)); break;
    case Fp::Sub: r = Z3_mk_fpa_sub(C, rne, fpOf(e->a), fpOf(e->b)); break;
    case Fp::Mul: r = Z3_mk_fpa_mul(C, rne, fpOf(e->a), fpOf(e->b)); break;
    case Fp::Div: r = Z3_mk_fpa_div(C, rne, fpOf(e->a), fpOf(e->b)); break;
    case Fp::FromS: r = Z3_mk_fpa_to_fp_signed(C, rne, toBv(e->a), fps(e->w)); break;
    case Fp::FromU: r = Z3_mk_fpa_to_fp_unsigned(C, rne, toBv(e->a), fps(e->w)); break;
    case Fp::Conv: r = Z3_mk_fpa_to_fp_float(C, rne, fpOf(e->a), fps(e->w)); break;
    default: break;
    }
    if (!r) r = Z3_mk_fpa_to_fp_bv(C, toBv(e), fps(e->w));
    Z3_inc_ref(C, r);
    return memo[e] = r;
}
static Z3_ast fpNum(double d, uint32_t w) { return Z3_mk_fpa_numeral_double(C, d, fps(w)); }
static Z3_ast fpBool(Expr *e) {
    switch ((Fp)e->k) {
    case Fp::Oeq: return Z3_mk_fpa_eq(C, fpOf(e->a), fpOf(e->b));
    case Fp::Olt: return Z3_mk_fpa_lt(C, fpOf(e->a), fpOf(e->b));
    case Fp::Ole: return Z3_mk_fpa_leq(C, fpOf(e->a), fpOf(e->b));
    case Fp::Uno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, fpOf(e->a)), Z3_mk_fpa_is_nan(C, fpOf(e->b))}; return Z3_mk_or(C, 2, x); }
    case Fp::InS: case Fp::InU: {
        uint32_t n = (uint32_t)e->b->k; Z3_ast v = fpOf(e->a), lo, hi;
        if ((Fp)e->k == Fp::InU) { lo = Z3_mk_fpa_gt(C, v, fpNum(-1.0, e->a->w)); hi = Z3_mk_fpa_lt(C, v, fpNum(std::ldexp(1.0, n), e->a->w)); }
        else {
            double m = -std::ldexp(1.0, n - 1);
            lo = n < 53 && e->a->w == 64 ? Z3_mk_fpa_gt(C, v, fpNum(m - 1.0, 64)) : Z3_mk_fpa_geq(C, v, fpNum(m, e->a->w));
            hi = Z3_mk_fpa_lt(C, v, fpNum(-m, e->a->w));
        }
        Z3_ast x[2] = {lo, hi}; return Z3_mk_and(C, 2, x); }
    default: return nullptr;
    }
}
static bool hasFp(Expr *e, std::unordered_set<Expr *> &seen) {
    if (!seen.insert(e).second) return false;
    if (e->op == Op::FP) return true;
    for (Expr *x : {e->a, e->b, e->c}) if (x && hasFp(x, seen)) return true;
    return false;
}
static bool gFpUsed = false;

static Z3_ast toBool(Expr *e) {
    if (e->zbool) return (Z3_ast)e->zbool;
    if (e->w != 1) abort();
    Z3_ast r;
    switch (e->op) {
    case Op::Const: r = e->k ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case Op::Not: r = Z3_mk_not(C, toBool(e->a)); break;
    case Op::And: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case Op::Or: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case Op::Xor: r = Z3_mk_not(C, Z3_mk_eq(C, toBool(e->a), toBool(e->b))); break;
    case Op::Eq: r = Z3_mk_eq(C, toBv(e->a), toBv(e->b)); break;
    case Op::Ult: r = Z3_mk_bvult(C, toBv(e->a), toBv(e->b)); break;
    case Op::Slt: r = Z3_mk_bvslt(C, toBv(e->a), toBv(e->b)); break;
    case Op::Ite: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    case Op::FP: gFpUsed = true; if ((r = fpBool(e))) break; [[fallthrough]];
    default: r = Z3_mk_eq(C, toBv(e), constBv(1, 1)); break;
    }
    return keep(e->zbool, r);
}
static Z3_ast toBv(Expr *e) {
    if (e->zbv) return (Z3_ast)e->zbv;
    Z3_ast r;
    switch (e->op) {
    case Op::Const: r = constBv(constVal(e)); break;
    case Op::Var: { std::string n = "v" + std::to_string(e->k); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvs(e->w)); break; }
    case Op::Add: r = Z3_mk_bvadd(C, toBv(e->a), toBv(e->b)); break;
    case Op::Sub: r = Z3_mk_bvsub(C, toBv(e->a), toBv(e->b)); break;
    case Op::Mul: r = Z3_mk_bvmul(C, toBv(e->a), toBv(e->b)); break;
    case Op::UDiv: r = defDiv(e) ? divRem(e->a, e->b).first : Z3_mk_bvudiv(C, toBv(e->a), toBv(e->b)); break;
    case Op::URem: r = defDiv(e) ? divRem(e->a, e->b).second : Z3_mk_bvurem(C, toBv(e->a), toBv(e->b)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(C, toBv(e->a), toBv(e->b)); break;
    case Op::SRem: r = Z3_mk_bvsrem(C, toBv(e->a), toBv(e->b)); break;
    case Op::Shl: r = Z3_mk_bvshl(C, toBv(e->a), toBv(e->b)); break;
    case Op::LShr: r = Z3_mk_bvlshr(C, toBv(e->a), toBv(e->b)); break;
    case Op::AShr: r = Z3_mk_bvashr(C, toBv(e->a), toBv(e->b)); break;
    case Op::Concat: r = Z3_mk_concat(C, toBv(e->a), toBv(e->b)); break;
    case Op::Extract: r = Z3_mk_extract(C, e->k + e->w - 1, e->k, toBv(e->a)); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, toBv(e->a)); break;
    case Op::Tab: r = tabAst(e->tab, e->a); break;
    case Op::FP:
        gFpUsed = true;
        if ((Fp)e->k == Fp::ToS) r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), fpOf(e->a), e->w);
        else if ((Fp)e->k == Fp::ToU) r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), fpOf(e->a), e->w);
        else if (e->w == 1) r = Z3_mk_ite(C, toBool(e), constBv(1, 1), constBv(1, 0));
        else r = Z3_mk_fpa_to_ieee_bv(C, fpOf(e));
        break;
    case Op::Ite: if (e->w > 1) { r = Z3_mk_ite(C, toBool(e->a), toBv(e->b), toBv(e->c)); break; } [[fallthrough]];
    case Op::And: if (e->w > 1) { r = Z3_mk_bvand(C, toBv(e->a), toBv(e->b)); break; } [[fallthrough]];
    case Op::Or: if (e->w > 1) { r = Z3_mk_bvor(C, toBv(e->a), toBv(e->b)); break; } [[fallthrough]];
    case Op::Xor: if (e->w > 1) { r = Z3_mk_bvxor(C, toBv(e->a), toBv(e->b)); break; } [[fallthrough]];
    default: r = Z3_mk_ite(C, toBool(e), constBv(1, 1), constBv(1, 0)); break;
    }
    return keep(e->zbv, r);
}

static void collectDivs(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Expr *> &out) {
    if (!seen.insert(e).second) return;
    if (defDiv(e)) out.push_back(e);
    if (e->a) collectDivs(e->a, seen, out);
    if (e->b) collectDivs(e->b, seen, out);
    if (e->c) collectDivs(e->c, seen, out);
}
static const std::vector<Expr *> &divsOf(Expr *e) {
    auto it = gDivsOf.find(e);
    if (it != gDivsOf.end()) return it->second;
    std::unordered_set<Expr *> seen; std::vector<Expr *> out;
    collectDivs(e, seen, out);
    return gDivsOf[e] = out;
}

// ---------------------------------------------------------------- linear integer encoding
// Bit-vector arithmetic as bounded integer arithmetic with explicit wrap counters: decides
// add/sub/multiply/divide-by-constant kernels that bit-blasting does not finish.
struct Unsupported {};
struct Lia {
    // value of an expression: any integer congruent to it, with bounds known for that integer
    struct V { Z3_ast e; APInt lo, hi; };
    static constexpr unsigned W = 320;
    static APInt I_(int64_t v) { return APInt(W, (uint64_t)v, true); }
    static APInt P(unsigned w) { return APInt::getOneBitSet(W, w); }
    static APInt zx(const APInt &v) { return v.zext(W); }
    static bool in(const V &v, const APInt &lo, const APInt &hi) { return v.lo.sge(lo) && v.hi.slt(hi); }
    std::unordered_map<Expr *, V> mi, mu, ms;
    std::unordered_map<Expr *, Z3_ast> mb;
    std::vector<Z3_ast> side;
    std::unordered_map<Expr *, Z3_ast> vars;
    std::unordered_map<Expr *, std::pair<APInt, APInt>> bounds;      // of variables, inclusive
    Z3_sort I = Z3_mk_int_sort(C);
    std::vector<Z3_ast> refs;
    Z3_ast R(Z3_ast a) { Z3_inc_ref(C, a); refs.push_back(a); return a; }
    ~Lia() { for (auto a : refs) Z3_dec_ref(C, a); }
    Z3_ast num(const APInt &v) { llvm::SmallVector<char, 96> s; v.toString(s, 10, true); s.push_back(0); return R(Z3_mk_numeral(C, s.data(), I)); }
    Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return R(Z3_mk_add(C, 2, x)); }
    Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return R(Z3_mk_sub(C, 2, x)); }
    Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return R(Z3_mk_mul(C, 2, x)); }
    Z3_ast ite(Z3_ast c, Z3_ast a, Z3_ast b) { return a == b ? a : R(Z3_mk_ite(C, c, a, b)); }
    Z3_ast le(Z3_ast a, Z3_ast b) { return R(Z3_mk_le(C, a, b)); }
    Z3_ast lt(Z3_ast a, Z3_ast b) { return R(Z3_mk_lt(C, a, b)); }
    Z3_ast eq(Z3_ast a, Z3_ast b) { return R(Z3_mk_eq(C, a, b)); }
    Z3_ast fresh() { return R(Z3_mk_fresh_const(C, "i", I)); }
    Z3_ast tf(bool b) { return b ? Z3_mk_true(C) : Z3_mk_false(C); }
    void range(Z3_ast x, const APInt &lo, const APInt &hi) { side.push_back(le(num(lo), x)); side.push_back(lt(x, num(hi))); }
    static APInt mn(const APInt &a, const APInt &b) { return a.slt(b) ? a : b; }
    static APInt mx(const APInt &a, const APInt &b) { return a.sgt(b) ? a : b; }
    static APInt fdiv(const APInt &a, unsigned w) { return a.ashr(w); }
    // the representative in [lo, lo + 2^w)
    V window(const V &v, uint32_t w, const APInt &lo) {
        APInt hi = lo + P(w);
        if (in(v, lo, hi)) return v;
        APInt k0 = fdiv(v.lo - lo, w), k1 = fdiv(v.hi - lo, w);
        if (k0 == k1) return {sub(v.e, num(k0.shl(w))), v.lo - k0.shl(w), v.hi - k0.shl(w)};
        Z3_ast r;
        if (k1 - k0 == I_(1)) {          // one boundary: a case distinction
            APInt edge = lo + k1.shl(w);
            r = ite(lt(v.e, num(edge)), sub(v.e, num(k0.shl(w))), sub(v.e, num(k1.shl(w))));
        } else {
            Z3_ast k = fresh(); side.push_back(le(num(k0), k)); side.push_back(le(k, num(k1)));
            r = sub(v.e, mul(num(P(w)), k)); range(r, lo, hi);
        }
        return {r, lo, hi - I_(1)};
    }
    const V &un(Expr *e) { auto it = mu.find(e); if (it != mu.end()) return it->second; return mu[e] = window(val(e), e->w, I_(0)); }
    const V &sg(Expr *e) { auto it = ms.find(e); if (it != ms.end()) return it->second; return ms[e] = window(val(e), e->w, -P(e->w - 1)); }
    std::map<std::pair<Expr *, Expr *>, std::pair<V, V>> qr, sqr;
    std::pair<V, V> udiv(Expr *a, Expr *b) {
        auto it = qr.find({a, b}); if (it != qr.end()) return it->second;
        V x = un(a); APInt c = zx(constVal(b)); Z3_ast q = fresh(), r = fresh();
        V Q{q, x.lo.udiv(c), x.hi.udiv(c)}, Rm{r, I_(0), mn(c - I_(1), x.hi)};
        side.push_back(eq(x.e, add(mul(num(c), q), r))); range(r, I_(0), c); range(q, Q.lo, Q.hi + I_(1));
        return qr.emplace(std::make_pair(a, b), std::make_pair(Q, Rm)).first->second;
    }
    std::pair<V, V> sdiv(Expr *a, Expr *b) {
        auto it = sqr.find({a, b}); if (it != sqr.end()) return it->second;
        APInt cv = constVal(b);
        if (cv.isAllOnes() || cv.isMinSignedValue()) throw Unsupported();
        V x = sg(a);
        APInt c = cv.abs().zext(W);
        Z3_ast q = fresh(), r = fresh();
        side.push_back(eq(x.e, add(mul(num(c), q), r)));
        APInt z = I_(0);
        V Q{q, x.lo.sdiv(c), x.hi.sdiv(c)}, Rm{r, x.lo.isNegative() ? -(c - I_(1)) : z, x.hi.isNegative() ? z : c - I_(1)};
        range(r, Rm.lo, Rm.hi + I_(1)); range(q, Q.lo, Q.hi + I_(1));
        if (x.lo.isNegative() && !x.hi.isNegative()) {
            Z3_ast nn = le(num(z), x.e);
            side.push_back(R(Z3_mk_implies(C, nn, le(num(z), r))));
            side.push_back(R(Z3_mk_implies(C, R(Z3_mk_not(C, nn)), le(r, num(z)))));
        }
        if (cv.isNegative()) Q = V{sub(num(z), q), -Q.hi, -Q.lo};
        return sqr.emplace(std::make_pair(a, b), std::make_pair(Q, Rm)).first->second;
    }
    V val(Expr *e) {
        auto it = mi.find(e); if (it != mi.end()) return it->second;
        if (e->w > 128) throw Unsupported();
        V r{nullptr, I_(0), I_(1)};
        if (e->w == 1 && e->op != Op::Const && e->op != Op::Var && e->op != Op::Extract) r = V{ite(bo(e), num(I_(1)), num(I_(0))), I_(0), I_(1)};
        else switch (e->op) {
        case Op::Const: { APInt c = zx(constVal(e)); r = V{num(c), c, c}; break; }
        case Op::Var: {
            Z3_ast x = fresh(); vars[e] = x;
            APInt lo = I_(0), hi = P(e->w) - I_(1);
            auto b = bounds.find(e); if (b != bounds.end()) { lo = b->second.first; hi = b->second.second; if (lo.sgt(hi)) { side.push_back(tf(false)); hi = lo; } }
            range(x, lo, hi + I_(1)); r = V{x, lo, hi}; break;
        }
        case Op::Add: {
            V a = val(e->a);
            if (e->b->isConst()) { APInt c = constVal(e->b).sext(W); r = V{add(a.e, num(c)), a.lo + c, a.hi + c}; break; }
            V b = val(e->b); r = V{add(a.e, b.e), a.lo + b.lo, a.hi + b.hi}; break;
        }
        case Op::Sub: { V a = val(e->a), b = val(e->b); r = V{sub(a.e, b.e), a.lo - b.hi, a.hi - b.lo}; break; }
        case Op::Mul: {
            if (!e->b->isConst()) throw Unsupported();
            APInt c = constVal(e->b).sext(W);
            V a = val(e->a);
            APInt x = a.lo * c, y = a.hi * c;
            r = V{mul(num(c), a.e), mn(x, y), mx(x, y)};
            break;
        }
        case Op::UDiv: if (!defDiv(e)) throw Unsupported(); r = udiv(e->a, e->b).first; break;
        case Op::URem: if (!defDiv(e)) throw Unsupported(); r = udiv(e->a, e->b).second; break;
        case Op::SDiv: if (!e->b->isConst() || constVal(e->b).isZero()) throw Unsupported(); r = sdiv(e->a, e->b).first; break;
        case Op::SRem: if (!e->b->isConst() || constVal(e->b).isZero()) throw Unsupported(); r = sdiv(e->a, e->b).second; break;
        case Op::Concat: { V a = val(e->a), b = un(e->b); r = V{add(mul(num(P(e->b->w)), a.e), b.e), a.lo.shl(e->b->w) + b.lo, a.hi.shl(e->b->w) + b.hi}; break; }
        case Op::Extract: {
            uint32_t lo = e->k;
            if (lo == 0) { V x = val(e->a); r = x; break; }          // congruent modulo the smaller power
            if (lo + e->w == e->a->w && e->w == 1) { r = V{ite(bo(e), num(I_(1)), num(I_(0))), I_(0), I_(1)}; break; }
            V x = un(e->a);
            Z3_ast q = fresh(), l = fresh();
            V Q{q, x.lo.lshr(lo), x.hi.lshr(lo)};
            side.push_back(eq(x.e, add(mul(num(P(lo)), q), l))); range(l, I_(0), P(lo)); range(q, Q.lo, Q.hi + I_(1));
            r = Q; break;
        }
        case Op::SExt: r = sg(e->a); break;
        case Op::Ite: { V b = val(e->b), c = val(e->c); r = V{ite(bo(e->a), b.e, c.e), mn(b.lo, c.lo), mx(b.hi, c.hi)}; break; }
        case Op::Xor: if (e->b->isConst() && constVal(e->b).isAllOnes()) { V a = val(e->a); r = V{sub(num(I_(-1)), a.e), I_(-1) - a.hi, I_(-1) - a.lo}; break; } throw Unsupported();
        default: throw Unsupported();
        }
        // keep the bounds far inside the arithmetic used for them
        if (r.lo.slt(-P(200)) || r.hi.sgt(P(200))) r = window(r, e->w, I_(0));
        mi.emplace(e, r);
        return r;
    }
    Z3_ast less(const V &a, const V &b) { if (a.hi.slt(b.lo)) return tf(true); if (a.lo.sge(b.hi)) return tf(false); return lt(a.e, b.e); }
    Z3_ast bo(Expr *e) {
        auto it = mb.find(e); if (it != mb.end()) return it->second;
        Z3_ast r;
        switch (e->op) {
        case Op::Const: r = tf(e->k); break;
        case Op::Not: r = R(Z3_mk_not(C, bo(e->a))); break;
        case Op::And: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = R(Z3_mk_and(C, 2, x)); break; }
        case Op::Or: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = R(Z3_mk_or(C, 2, x)); break; }
        case Op::Xor: r = R(Z3_mk_xor(C, bo(e->a), bo(e->b))); break;
        case Op::Eq: {
            if (e->a->w == 1) { r = R(Z3_mk_iff(C, bo(e->a), bo(e->b))); break; }
            V a = val(e->a), b = val(e->b);
            APInt p = P(e->a->w);
            if ((a.hi - b.lo).slt(p) && (b.hi - a.lo).slt(p)) r = eq(a.e, b.e);
            else r = eq(un(e->a).e, un(e->b).e);
            break;
        }
        case Op::Ult: r = less(un(e->a), un(e->b)); break;
        case Op::Slt: r = less(sg(e->a), sg(e->b)); break;
        case Op::Ite: r = R(Z3_mk_ite(C, bo(e->a), bo(e->b), bo(e->c))); break;
        case Op::Extract: if (e->k + 1 == e->a->w) { V z{num(I_(0)), I_(0), I_(0)}; r = less(sg(e->a), z); break; } r = eq(un(e).e, num(I_(1))); break;
        default: r = eq(un(e).e, num(I_(1))); break;
        }
        return mb[e] = r;
    }
    // bounds of variables from constraints that are about one variable only
    void learn(Expr *c) {
        bool neg = false;
        if (c->op == Op::And && c->w == 1) { learn(c->a); learn(c->b); return; }
        if (c->op == Op::Not) { neg = true; c = c->a; }
        if (c->op != Op::Ult) return;
        auto get = [&](Expr *v) -> std::pair<APInt, APInt> & { return bounds.try_emplace(v, std::make_pair(I_(0), P(v->w) - I_(1))).first->second; };
        if (c->a->op == Op::Var && c->b->isConst()) {
            auto &b = get(c->a); APInt k = zx(constVal(c->b));
            if (neg) b.first = mx(b.first, k); else b.second = mn(b.second, k - I_(1));
        } else if (c->b->op == Op::Var && c->a->isConst()) {
            auto &b = get(c->b); APInt k = zx(constVal(c->a));
            if (neg) b.second = mn(b.second, k); else b.first = mx(b.first, k + I_(1));
        } else if (!neg && c->b->isConst() && c->a->op == Op::Add && c->a->a->op == Op::Var && c->a->b->isConst()) {
            // v + n < k without wrap: v in [-n, -n + k)
            APInt n = zx(-constVal(c->a->b)), k = zx(constVal(c->b));
            if ((n + k).sle(P(c->a->w))) { auto &b = get(c->a->a); b.first = mx(b.first, n); b.second = mn(b.second, n + k - I_(1)); }
        }
    }
};
static bool hasArith(Expr *e, std::unordered_set<Expr *> &seen) {
    if (!seen.insert(e).second) return false;
    if (e->op == Op::UDiv || e->op == Op::SDiv || e->op == Op::URem || e->op == Op::SRem || e->op == Op::Mul) return true;
    return (e->a && hasArith(e->a, seen)) || (e->b && hasArith(e->b, seen)) || (e->c && hasArith(e->c, seen));
}

// sums and comparisons of wide words only: the integer encoding is tried first
static std::unordered_map<Expr *, char> gLinear;
static bool linearOnly(Expr *e) {
    auto it = gLinear.find(e);
    if (it != gLinear.end()) return it->second;
    bool r = false;
    switch (e->op) {
    case Op::Const: r = true; break;
    case Op::Var: r = e->w >= 16; break;
    case Op::Add: case Op::Sub: r = e->w >= 32 && linearOnly(e->a) && linearOnly(e->b); break;
    case Op::Mul: case Op::UDiv: case Op::SDiv: r = e->w >= 32 && e->b->isConst() && linearOnly(e->a); break;
    case Op::Eq: case Op::Ult: case Op::Slt: case Op::And: case Op::Or:
        r = (e->w == 1) && linearOnly(e->a) && linearOnly(e->b); break;
    case Op::Not: r = e->w == 1 && linearOnly(e->a); break;
    case Op::Ite: r = linearOnly(e->a) && linearOnly(e->b) && linearOnly(e->c); break;
    case Op::Extract: r = linearOnly(e->a) && (e->k + e->w == e->a->w || e->k == 0); break;
    case Op::Concat: r = linearOnly(e->a) && linearOnly(e->b) && (e->a->isConst() || e->b->isConst()); break;
    case Op::SExt: r = linearOnly(e->a); break;
    default: break;
    }
    return gLinear[e] = r;
}
static bool hasWideVar(Expr *e, std::unordered_set<Expr *> &seen) {
    if (!seen.insert(e).second) return false;
    if ((e->op == Op::Add || e->op == Op::Sub) && e->w >= 32 && !e->b->isConst()) return true;
    return (e->a && hasWideVar(e->a, seen)) || (e->b && hasWideVar(e->b, seen)) || (e->c && hasWideVar(e->c, seen));
}
static std::deque<Model> gRecent;
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; return h; } };
struct Cached { Res r; std::vector<std::pair<uint64_t, uint64_t>> vals; };
static std::unordered_map<std::vector<uint32_t>, Cached, VecHash> gCache;

static void flattenAnd(Expr *e, std::vector<Expr *> &out) {
    if (e->op == Op::And && e->w == 1) { flattenAnd(e->a, out); flattenAnd(e->b, out); }
    else out.push_back(e);
}

// ---------------------------------------------------------------- GF(2)-linear part
// Equalities that are XOR-linear in variable bits (CRC) are solved by Gaussian elimination;
// the rest goes to Z3 together with the rows that constrain variables the rest mentions.
struct Gauss {
    bool active = false, inconsistent = false, strengthened = false;
    std::vector<Expr *> rest;                        // conjuncts for Z3
    struct Row { std::vector<uint64_t> w; bool c; uint64_t pivot; bool inRest; };
    std::vector<Row> rows;
    std::vector<uint64_t> cols;                      // column -> var bit
    void build(const std::vector<Expr *> &sl, Expr *q) {
        std::vector<Expr *> all;
        for (auto *c : sl) flattenAnd(c, all);
        flattenAnd(q, all);
        std::vector<LinRow> lin; bool big = false;
        std::vector<std::vector<LinRow>> neg;
        auto eqRows = [&](Expr *c, std::vector<LinRow> &rs) {
            Expr *in = c->op == Op::Not ? c->a : c;
            if (in->op == Op::Xor || in->op == Op::Extract || (c->op == Op::Not && in->op == Op::Eq && in->a->w == 1)) { size_t at = rs.size(); linBits(c, rs); rs[at].c ^= 1; return true; }
            if (c->op != Op::Eq || c->a->w > 256) return false;
            std::vector<LinRow> y; size_t at = rs.size();
            linBits(c->a, rs); linBits(c->b, y);
            for (size_t i = 0; i < y.size(); ++i) {
                LinRow &r = rs[at + i];
                std::vector<uint64_t> a = r.bits, b = y[i].bits, d;
                std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
                std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d));
                r.bits = d; r.c ^= y[i].c;
            }
            return true;
        };
        for (auto *c : all) {
            if (c->op == Op::Not && (c->a->op == Op::Eq || c->a->op == Op::And)) {
                std::vector<Expr *> parts; flattenAnd(c->a, parts);
                std::vector<LinRow> rs; bool ok = true, wide = false;
                for (auto *p : parts) if (!eqRows(p, rs)) { ok = false; break; }
                for (auto &r : rs) if (r.bits.size() >= 6 || r.bits.empty()) wide = true;
                if (ok && wide) { neg.push_back(std::move(rs)); big = true; continue; }
            }
            std::vector<LinRow> rs; bool ok = false;
            if (c->op == Op::Eq) ok = eqRows(c, rs);
            else if (c->op == Op::Xor || c->op == Op::Extract || c->op == Op::Not) {
                if (c->op == Op::Not && c->a->op != Op::Xor && c->a->op != Op::Extract) { rest.push_back(c); continue; }
                linBits(c, rs); ok = true; rs[0].c ^= 1;
            }
            if (!ok) { rest.push_back(c); continue; }
            for (auto &r : rs) { if (r.bits.size() >= 6 || r.bits.empty()) big = true; lin.push_back(std::move(r)); }
        }
        if (!big) return;
        active = true;
        VSet rv;
        for (auto *c : rest) { const VSet &v = varSet(c); if (v.size() > rv.size()) rv.resize(v.size()); for (size_t j = 0; j < v.size(); ++j) rv[j] |= v[j]; }
        auto opaque = [&](const std::vector<LinRow> &rs) {
            for (auto &r : rs) for (auto b : r.bits) {
                Expr *e = linAtom(b >> 12);
                if (e->op == Op::Var) continue;
                const VSet &v = varSet(e); if (v.size() > rv.size()) rv.resize(v.size());
                for (size_t j = 0; j < v.size(); ++j) rv[j] |= v[j];
            }
        };
        opaque(lin); for (auto &n : neg) opaque(n);
        auto inR = [&](uint64_t bit) { Expr *e = linAtom(bit >> 12); if (e->op != Op::Var) return true; uint64_t id = e->k; return id / 64 < rv.size() && ((rv[id / 64] >> (id % 64)) & 1); };
        std::set<uint64_t> free_, tied;
        for (auto &r : lin) for (auto b : r.bits) (inR(b) ? tied : free_).insert(b);
        for (auto &n : neg) for (auto &r : n) for (auto b : r.bits) (inR(b) ? tied : free_).insert(b);
        std::unordered_map<uint64_t, uint32_t> colOf;
        for (auto b : free_) { colOf[b] = cols.size(); cols.push_back(b); }
        size_t nfree = cols.size();
        for (auto b : tied) { colOf[b] = cols.size(); cols.push_back(b); }
        size_t nw = (cols.size() + 63) / 64;
        // 1: new row added; 0: implied; -1: contradicts
        auto add = [&](const LinRow &r, bool insert) -> int {
            Row w{std::vector<uint64_t>(nw), r.c, 0, false};
            for (auto b : r.bits) { uint32_t c = colOf[b]; w.w[c / 64] ^= 1ull << (c % 64); }
            // reduce by existing rows
            for (auto &p : rows) if ((w.w[p.pivot / 64] >> (p.pivot % 64)) & 1) { for (size_t k = 0; k < nw; ++k) w.w[k] ^= p.w[k]; w.c ^= p.c; }
            size_t piv = SIZE_MAX;
            for (size_t k = 0; k < nw; ++k) if (w.w[k]) { piv = k * 64 + __builtin_ctzll(w.w[k]); break; }
            if (piv == SIZE_MAX) return w.c ? -1 : 0;
            if (!insert) return 1;
            w.pivot = piv; w.inRest = piv >= nfree;
            for (auto &p : rows) if ((p.w[piv / 64] >> (piv % 64)) & 1) { for (size_t k = 0; k < nw; ++k) p.w[k] ^= w.w[k]; p.c ^= w.c; }
            rows.push_back(std::move(w));
            return 1;
        };
        for (auto &r : lin) if (add(r, true) < 0) { inconsistent = true; return; }
        // "not all of these equations": decided by the rows, or strengthened to the negation of one
        for (auto &n : neg) {
            int open = -1; bool contra = false;
            for (size_t i = 0; i < n.size() && !contra; ++i) { int k = add(n[i], false); if (k < 0) contra = true; else if (k > 0 && open < 0) open = i; }
            if (contra) continue;
            if (open < 0) { inconsistent = true; return; }
            LinRow r = n[open]; r.c ^= 1;
            if (n.size() > 1) strengthened = true;
            if (add(r, true) < 0) { inconsistent = true; return; }
        }
    }
    Z3_ast rowAst(const Row &r) {
        Z3_ast x = r.c ? Z3_mk_true(C) : Z3_mk_false(C);        // sum of bits = c
        std::vector<Z3_ast> b;
        for (size_t i = 0; i < cols.size(); ++i) if ((r.w[i / 64] >> (i % 64)) & 1) b.push_back(toBool(mkExtract(linAtom(cols[i] >> 12), cols[i] & 0xfff, 1)));
        Z3_ast s = b[0];
        for (size_t i = 1; i < b.size(); ++i) s = Z3_mk_not(C, Z3_mk_eq(C, s, b[i]));
        return Z3_mk_iff(C, s, x);
    }
    // the bits of the pivots outside the rest, after the others are known
    void complete(Model &m) {
        m.stamp = newStamp();
        auto get = [&](uint64_t bit) { Expr *e = linAtom(bit >> 12); return ((e->op == Op::Var ? m.get(e->k) : evalU(mkExtract(e, bit & 0xfff, 1), m) << (bit & 0xfff)) >> (bit & 0xfff)) & 1; };
        for (auto &r : rows) {
            if (r.inRest) continue;
            bool v = r.c;
            for (size_t i = 0; i < cols.size(); ++i) if (i != r.pivot && ((r.w[i / 64] >> (i % 64)) & 1)) v ^= get(cols[i]);
            uint64_t id = linAtom(cols[r.pivot] >> 12)->k, bit = cols[r.pivot] & 0xfff;
            if (m.v.size() <= id) m.v.resize(id + 1);
            m.v[id] = (m.v[id] & ~(1ull << bit)) | ((uint64_t)v << bit);
        }
    }
};

static bool hasMul(Expr *e) {
    static std::unordered_map<uint32_t, bool> memo;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    bool r = e->op == Op::Mul && e->w >= 32;
    for (Expr *x : {e->a, e->b, e->c}) if (!r && x) r = hasMul(x);
    return memo[e->id] = r;
}
Res solve(const std::vector<Expr *> &cs, Expr *q, const Model &cur, Model &out) {
    gSolver.queries++;
    if (q->isConst()) { if (!q->k) return Res::Unsat; out = cur; return Res::Sat; }
    if (evalU(q, cur)) { out = cur; return Res::Sat; }
    { Expr *nq = mkNot(q); for (auto *c : cs) if (c == nq) return Res::Unsat; }
    // slice
    std::vector<Expr *> sl; std::vector<char> used(cs.size(), 0);
    VSet vs = varSet(q);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < cs.size(); ++i) {
            if (used[i]) continue;
            const VSet &v = varSet(cs[i]);
            if (!intersects(v, vs)) continue;
            used[i] = 1; sl.push_back(cs[i]); ch = true;
            if (v.size() > vs.size()) vs.resize(v.size());
            for (size_t j = 0; j < v.size(); ++j) vs[j] |= v[j];
        }
    }
    auto merge = [&](const Model &m) {
        out = cur;
        for (size_t i = 0; i < vs.size(); ++i) if (vs[i]) for (int b = 0; b < 64; ++b) if ((vs[i] >> b) & 1) {
            uint64_t id = i * 64 + b;
            if (out.v.size() <= id) out.v.resize(id + 1);
            out.v[id] = m.get(id);
        }
        out.stamp = newStamp();
    };
    // recent models
    for (auto &m : gRecent) {
        if (!evalU(q, m)) continue;
        bool ok = true;
        for (auto *c : sl) if (!evalU(c, m)) { ok = false; break; }
        if (ok) { gSolver.cexHits++; merge(m); return Res::Sat; }
    }
    std::vector<uint32_t> key;
    for (auto *c : sl) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.push_back(q->id);
    auto it = gCache.find(key);
    if (it != gCache.end() && it->second.r != Res::Unknown) {
        gSolver.cacheHits++;
        if (it->second.r == Res::Unsat) return Res::Unsat;
        Model m; for (auto &p : it->second.vals) { if (m.v.size() <= p.first) m.v.resize(p.first + 1); m.v[p.first] = p.second; }
        m.stamp = newStamp(); merge(m); return Res::Sat;
    }
    // Products are hard to solve for and easy to evaluate: try some values first.
    if (hasMul(q)) {
        static uint64_t rs = 0x9e3779b97f4a7c15ull;
        auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
        std::vector<uint64_t> ids;
        for (size_t i = 0; i < vs.size(); ++i) if (vs[i]) for (int b = 0; b < 64; ++b) if ((vs[i] >> b) & 1) ids.push_back(i * 64 + b);
        for (int t = 0; t < 12 && !ids.empty(); ++t) {
            Model g = cur; g.stamp = newStamp();
            if (g.v.size() <= ids.back()) g.v.resize(ids.back() + 1);
            auto set = [&](uint64_t id) { uint32_t w = gVars[id].w; g.v[id] = w >= 64 ? rnd() : rnd() & ((1ull << w) - 1); };
            if (t & 1) for (auto id : ids) set(id); else set(ids[rnd() % ids.size()]);
            if (!evalU(q, g)) continue;
            bool ok = true;
            for (auto *c : sl) if (!evalU(c, g)) { ok = false; break; }
            if (ok) { gSolver.cexHits++; out = g; return Res::Sat; }
        }
    }
    init();
    auto t0 = std::chrono::steady_clock::now();
    gSolver.z3++;
    static Z3_solver inc = nullptr;
    Res res = Res::Unknown;
    Model m;
    std::unordered_set<Expr *> axs;
    std::vector<Z3_ast> as;
    Gauss ga; ga.build(sl, q);
retry:
    if (ga.active) {
        gSolver.gauss++;
        if (getenv("SE_GAUSS")) { fprintf(stderr, "gauss rows=%zu cols=%zu rest=%zu inc=%d str=%d\n", ga.rows.size(), ga.cols.size(), ga.rest.size(), ga.inconsistent, ga.strengthened); for (auto *c : ga.rest) fprintf(stderr, "   rest %s\n", show(c, 7).c_str()); }
        if (ga.inconsistent) res = Res::Unsat;
        for (auto *c : ga.rest) { as.push_back(toBool(c)); for (auto *d : divsOf(c)) axs.insert(d); }
        if (!ga.inconsistent) for (auto &r : ga.rows) if (r.inRest) as.push_back(ga.rowAst(r));
    } else {
    for (auto *c : sl) { as.push_back(toBool(c)); for (auto *d : divsOf(c)) axs.insert(d); }
    as.push_back(toBool(q)); for (auto *d : divsOf(q)) axs.insert(d);
    }
    // axioms may mention further divisions through their dividend: divsOf is transitive over the DAG
    for (auto *d : axs) as.push_back(divAxiom(d));
    auto read = [&](Z3_solver s) {
        Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
        for (size_t i = 0; i < vs.size(); ++i) if (vs[i]) for (int b = 0; b < 64; ++b) if ((vs[i] >> b) & 1) {
            uint64_t id = i * 64 + b; Z3_ast o;
            uint64_t val = 0;
            if (Z3_model_eval(C, zm, toBv(gVars[id].e), true, &o)) { Z3_inc_ref(C, o); Z3_get_numeral_uint64(C, o, &val); Z3_dec_ref(C, o); }
            if (m.v.size() <= id) m.v.resize(id + 1);
            m.v[id] = val;
        }
        Z3_model_dec_ref(C, zm);
    };
    bool lin = !ga.active && linearOnly(q);
    for (auto *c : sl) lin = lin && linearOnly(c);
    if (lin) { std::unordered_set<Expr *> seen; bool wide = hasWideVar(q, seen); for (auto *c : sl) wide = wide || hasWideVar(c, seen); lin = wide; }
    bool fp = false;
    if (gFpUsed) { std::unordered_set<Expr *> seen; fp = hasFp(q, seen); for (auto *c : sl) fp = fp || hasFp(c, seen); }
    // integer encoding for sums and comparisons; plain incremental core; integer encoding
    // where there is arithmetic; full QF_BV preprocessing
    for (int stage = lin ? -1 : 0; stage < 3 && res == Res::Unknown; ++stage) {
        Z3_solver s;
        if (stage == 1 || stage == -1) {
            if (ga.active) continue;
            std::unordered_set<Expr *> seen; bool ar = lin || hasArith(q, seen);
            for (auto *c : sl) if (!ar) ar = hasArith(c, seen);
            if (!ar) continue;
            try {
                Lia L;
                std::vector<Z3_ast> fs;
                for (auto *c : sl) L.learn(c);
                L.learn(q);
                for (auto *c : sl) fs.push_back(L.bo(c));
                fs.push_back(L.bo(q));
                s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s);
                Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
                Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), stage < 0 ? 2000u : std::max(2000u, gQueryTimeoutMs / 2));
                Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
                for (auto f : L.side) Z3_solver_assert(C, s, f);
                for (auto f : fs) Z3_solver_assert(C, s, f);
                Z3_lbool r = Z3_solver_check(C, s);
                if (r == Z3_L_FALSE) { res = Res::Unsat; gSolver.lia++; }
                else if (r == Z3_L_TRUE) {
                    Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
                    for (auto &v : L.vars) {
                        Z3_ast o; uint64_t val = 0;
                        if (Z3_model_eval(C, zm, v.second, true, &o)) { Z3_inc_ref(C, o); Z3_get_numeral_uint64(C, o, &val); Z3_dec_ref(C, o); }
                        uint64_t id = v.first->k;
                        if (m.v.size() <= id) m.v.resize(id + 1);
                        m.v[id] = val;
                    }
                    Z3_model_dec_ref(C, zm);
                    res = Res::Sat; gSolver.lia++;
                }
                Z3_solver_dec_ref(C, s);
            } catch (Unsupported &) { }
            continue;
        }
        if (stage == 0) {
            if (!inc) { inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, inc); }
            s = inc;
        } else { s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, fp ? "QF_BVFP" : "QF_BV")); Z3_solver_inc_ref(C, s); }
        Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), stage == 0 ? std::min(300u, gQueryTimeoutMs) : gQueryTimeoutMs);
        Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
        if (stage == 0) Z3_solver_push(C, s);
        for (auto a : as) Z3_solver_assert(C, s, a);
        Z3_lbool r = Z3_solver_check(C, s);
        if (r == Z3_L_TRUE) { res = Res::Sat; read(s); if (ga.active) ga.complete(m); }
        else if (r == Z3_L_FALSE) res = Res::Unsat;
        if (stage == 0) Z3_solver_pop(C, s, 1); else Z3_solver_dec_ref(C, s);
    }
    if (ga.active && ga.strengthened && res != Res::Sat) { ga.active = false; res = Res::Unknown; as.clear(); axs.clear(); m = Model(); goto retry; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.z3Time += dt; gSolver.maxTime = std::max(gSolver.maxTime, dt);
    if (getenv("SE_SLOWQ") && dt > atof(getenv("SE_SLOWQ"))) {
        fprintf(stderr, "slow query %.2fs res=%d q=%s\n", dt, (int)res, show(q, 5).c_str());
        for (auto *c : sl) fprintf(stderr, "    c: %s\n", show(c, 5).c_str());
    }
    Cached cd; cd.r = res;
    if (res == Res::Sat) {
        gSolver.sat++;
        m.stamp = newStamp();
        for (size_t i = 0; i < m.v.size(); ++i) if (m.v[i]) cd.vals.push_back({i, m.v[i]});
        // the model must really satisfy the query (encoding self-check)
        bool ok = evalU(q, m);
        for (auto *c : sl) ok = ok && evalU(c, m);
        if (!ok && fp) { gSolver.sat--; gSolver.unknown++; return Res::Unknown; }   // a NaN's bit pattern is not fixed by the theory
        if (!ok) { fprintf(stderr, "solver model does not satisfy the query: encoding error q=%s\n", show(q, 6).c_str()); abort(); }
        merge(m);
        gRecent.push_front(m); if (gRecent.size() > 24) gRecent.pop_back();
    } else if (res == Res::Unsat) gSolver.unsat++;
    else gSolver.unknown++;
    gCache[key] = cd;
    return res;
}
}
