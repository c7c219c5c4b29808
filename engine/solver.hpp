// Z3 back end: slices the path condition, caches verdicts, and re-evaluates
// every model concretely before it is trusted.
#pragma once
#include "expr.hpp"
#include <string>
#include <vector>
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats {
  u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, fpaQueries = 0, ufQueries = 0, modelRejects = 0;
  double time = 0, maxTime = 0;
};
struct Solver {
  SolverStats st;
  unsigned rlimit = 60000000;     // per bit-vector query (deterministic resource units)
  unsigned fpaRlimit = 400000000;
  double deadline = 1e18;         // absolute; a query still running then is abandoned
  Solver();
  // is pc && extra satisfiable?  On SAT, `model` (in: a model of pc) becomes a model of pc && extra.
  Res check(const std::vector<Expr*>& pc, Expr* extra, Assign& model);
 private:
  struct Impl; Impl* I;
  Res solveSlice(const std::vector<Expr*>& sl, Expr* extra, Assign& out);
};
extern Solver SV;
extern bool solverVerbose;
