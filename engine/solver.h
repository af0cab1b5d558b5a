// z3 back end with caching. Queries: conjunction of width-1 expressions + byte-domain restrictions.
#pragma once
#include "expr.h"
enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats {
  u64 z3Queries = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0, cacheHits = 0, modelHits = 0, domainDecided = 0, assertTrivial = 0, assertQueries = 0;
  double z3Time = 0;
};
extern SolverStats SS;
void solverInit(unsigned timeoutMs);
// doms: list of (var, domain). Returns model values for variables in the support on SAT (others untouched).
SatRes solve(const std::vector<ExprId> &cs, const std::vector<std::pair<unsigned, Bits256>> &doms, Model *out);
