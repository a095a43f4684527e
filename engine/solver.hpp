// Satisfiability queries over expr DAGs, decided by Z3.
#pragma once
#include "expr.hpp"
#include <map>
namespace se {
struct SolverStats {
    uint64_t queries = 0, z3 = 0, cexHits = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, lia = 0, gauss = 0;
    double z3Time = 0, maxTime = 0;
};
extern SolverStats gSolver;
extern unsigned gQueryTimeoutMs;
enum class Res { Sat, Unsat, Unknown };
// Is (conjunction of cs) && q satisfiable?  cs is known satisfiable with `cur`.
// On Sat `out` satisfies everything.
Res solve(const std::vector<Expr *> &cs, Expr *q, const Model &cur, Model &out);
uint32_t newStamp();
}
