#pragma once
#include "expr.h"
#include <functional>

struct SolverStats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, trivial = 0;
  double seconds = 0, maxSeconds = 0;
};
extern SolverStats g_solverStats;
extern unsigned g_solverTimeoutMs;
extern std::string g_dumpDir;
extern double g_solverDeadline;  // when set, some queries are written there as SMT-LIB2 for a second solver

enum SatResult { R_UNSAT, R_SAT, R_UNKNOWN };

// Decides the conjunction of `cs`. On R_SAT updates `m` for every symbol occurring in `cs`.
SatResult solverCheck(const std::vector<E>& cs, Model& m);
void solverResetAfterFork();
