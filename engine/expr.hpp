// Bit-vector expression DAG: hash-consed nodes, simplifying constructors,
// evaluation under a model, XOR-linear normal form, variable sets.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <llvm/ADT/APInt.h>

namespace se {

using llvm::APInt;

enum class Op : uint8_t {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Not, Shl, LShr, AShr,
    Concat, Extract, SExt, Eq, Ult, Slt, Ite, Tab, FP
};

struct Table;
struct Expr {
    Op op;
    uint32_t w;
    uint32_t id;
    Expr *a = nullptr, *b = nullptr, *c = nullptr;
    uint64_t k = 0;          // const value (w<=64), var id, extract low bit
    const APInt *wide = nullptr;  // const value, w>64
    const Table *tab = nullptr;
    // caches
    int32_t vset = -1;
    uint32_t evalStamp = 0;
    uint64_t evalVal = 0;
    int32_t lin = -1;       // linear form index; -1 unknown
    void *zbv = nullptr, *zbool = nullptr;
    uint32_t depth = 0;
    bool isConst() const { return op == Op::Const; }
    bool isTrue() const { return op == Op::Const && w == 1 && k == 1; }
    bool isFalse() const { return op == Op::Const && w == 1 && k == 0; }
};

struct Table {
    uint32_t idxw, w;
    std::vector<uint64_t> v;   // 2^idxw entries (w<=64)
    bool affine = false;
};

struct VarInfo { std::string name; uint32_t w; Expr *e; };

struct Model { std::vector<uint64_t> v; uint32_t stamp = 0;
    uint64_t get(uint64_t id) const { return id < v.size() ? v[id] : 0; } };

extern std::vector<VarInfo> gVars;

Expr *mkConst(uint32_t w, uint64_t v);
Expr *mkConst(const APInt &v);
Expr *mkVar(const std::string &name, uint32_t w);
Expr *mkAdd(Expr *, Expr *);
Expr *mkSub(Expr *, Expr *);
Expr *mkMul(Expr *, Expr *);
Expr *mkUDiv(Expr *, Expr *);
Expr *mkSDiv(Expr *, Expr *);
Expr *mkURem(Expr *, Expr *);
Expr *mkSRem(Expr *, Expr *);
Expr *mkAnd(Expr *, Expr *);
Expr *mkOr(Expr *, Expr *);
Expr *mkXor(Expr *, Expr *);
Expr *mkNot(Expr *);
Expr *mkShl(Expr *, Expr *);
Expr *mkLShr(Expr *, Expr *);
Expr *mkAShr(Expr *, Expr *);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *, uint32_t lo, uint32_t w);
// floating point over bit patterns (32 and 64 bits), round to nearest even
enum class Fp : uint64_t { Add, Sub, Mul, Div, Oeq, Olt, Ole, Uno, FromS, FromU, ToS, ToU, Conv, InS, InU };
Expr *mkFp(Fp k, uint32_t w, Expr *a, Expr *b = nullptr);
uint64_t foldFp(Fp k, uint32_t w, uint32_t aw, uint64_t x, uint64_t y);
Expr *mkZExt(Expr *, uint32_t w);
Expr *mkSExt(Expr *, uint32_t w);
Expr *mkEq(Expr *, Expr *);
Expr *mkUlt(Expr *, Expr *);
Expr *mkSlt(Expr *, Expr *);
Expr *mkIte(Expr *, Expr *, Expr *);
Expr *mkTab(const Table &t, Expr *idx);
inline Expr *mkUle(Expr *a, Expr *b) { return mkNot(mkUlt(b, a)); }
inline Expr *mkSle(Expr *a, Expr *b) { return mkNot(mkSlt(b, a)); }
inline Expr *mkNe(Expr *a, Expr *b) { return mkNot(mkEq(a, b)); }
inline Expr *mkTrue() { return mkConst(1, 1); }
inline Expr *mkFalse() { return mkConst(1, 0); }
inline Expr *mkNeg(Expr *a) { return mkSub(mkConst(a->w, 0), a); }

APInt constVal(const Expr *e);
uint64_t evalU(Expr *e, const Model &m);   // w<=64
APInt evalWide(Expr *e, const Model &m);

using VSet = std::vector<uint64_t>;
const VSet &varSet(Expr *e);
bool intersects(const VSet &a, const VSet &b);
std::string show(Expr *e, int depth = 6);
uint32_t knownZeroLow(Expr *e);
struct LinRow { bool c = false; std::vector<uint64_t> bits; };   // bit: atom id << 12 | bit number
void linBits(Expr *e, std::vector<LinRow> &rows);
Expr *linAtom(uint64_t id);
size_t exprCount();

}
