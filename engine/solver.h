#pragma once
#include "expr.h"
struct SolverStats { u64 queries = 0, z3 = 0, dom = 0, cache = 0, repair = 0, unknown = 0; double z3time = 0; u64 sat = 0, unsat = 0; };
extern SolverStats g_ss;
// satisfiability of conj(cs) where vars in `fixed` have the value given by m. base model m is updated on success.
// returns 1 sat, 0 unsat, -1 unknown
int solveConj(const std::vector<Expr*>& cs, const std::vector<u64>& fixed, Model& m);
extern unsigned g_z3_timeout_ms;
