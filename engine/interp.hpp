// Symbolic interpreter for LLVM-18 IR.
#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace se {

struct Val { Expr *e = nullptr; uint64_t c = 0; };

struct Bytes {
    uint32_t rc = 1;
    uint64_t size;
    uint8_t *d;
    Expr **s = nullptr;      // per byte: nullptr concrete, UNINIT, or an 8-bit expression
    uint32_t gen = 0;
    explicit Bytes(uint64_t n) : size(n), d((uint8_t *)calloc(n ? n : 1, 1)) {}
    ~Bytes() { free(d); free(s); }
    void needSym() { if (!s) s = (Expr **)calloc(size ? size : 1, sizeof(Expr *)); }
};
extern Expr *const UNINIT;

enum ObjKind : uint8_t { OGlobal, OConst, OStack, OHeap, OHeapArr, OMalloc };
struct Obj { Bytes *b = nullptr; ObjKind kind = OGlobal; bool alive = false; bool ended = false; };
struct Chunk { uint32_t rc = 1; Obj o[256]; };

struct PFunc;
struct PInst;
struct PBlock;
struct PEdge { int to; std::vector<std::pair<int, int>> phis; };

struct Frame {
    PFunc *f;
    int bb = 0;
    int ip = 0;
    std::vector<Val> regs;
    std::vector<uint32_t> allocas;
    const PInst *call = nullptr;   // call instruction in the caller
};

struct SymRec { Expr *e; };
struct State {
    std::vector<Frame> stack;
    std::vector<Chunk *> chunks;
    uint32_t nslots = 0;
    std::vector<Expr *> cs;
    std::vector<std::pair<Expr *, uint64_t>> fixed;
    Model model;
    uint64_t steps = 0, depth = 0;
    std::vector<Expr *> syms;
    std::map<std::string, int> counts;
    std::vector<Expr *> obs;
    std::vector<std::string> trail;     // sym_note strings
    uint32_t uninitCount = 0;
    std::vector<int> covers;
    bool inThread = false;                      // another thread runs: its own copies of thread-local objects
    std::map<uint32_t, uint32_t> tls;
    State() = default;
    State(const State &o);
    State &operator=(const State &) = delete;
    ~State();
};

struct Violation { std::string kind, msg, where, bt; std::vector<std::pair<std::string, uint64_t>> inputs; };
struct Witness { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<uint64_t> obs; std::vector<std::string> covers; };

struct Options {
    std::string func;
    std::vector<int64_t> params;
    uint64_t maxSteps = 20000000;      // per path
    double timeBudget = 120;
    uint64_t maxStates = 0;
    size_t maxViolations = 3;
    size_t maxWitnesses = 6;
    std::string repo = "/repo";
    bool verbose = false;
};
struct Report {
    uint64_t paths = 0, forks = 0, killed = 0, insts = 0, asserts = 0, asserts_symbolic = 0, memchecks = 0, branches = 0;
    std::vector<Violation> violations;
    std::vector<Witness> witnesses;
    std::map<std::string, uint64_t> covers;
    std::set<std::string> functions, lines;
    std::set<std::string> incomplete;
    uint64_t left = 0;
    double wall = 0;
};

Report explore(llvm::Module &m, const Options &opt);
void threadLocals(llvm::Module &m);   // makes every access to a thread-local variable go through the intrinsic
}
