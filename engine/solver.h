#pragma once
#include "expr.h"
enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0, guessed = 0; double time = 0; };
extern SolverStats SST;
extern int solver_timeout_ms;
extern bool lira_mode;
// is the conjunction of boolean terms satisfiable?  On SAT, out receives values for the variables of the slice (others untouched).
SatRes solve(const vector<Expr*> &conj, Model &out);
