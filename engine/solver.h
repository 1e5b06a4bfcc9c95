// SMT back end: translates Expr to z3 bit-vectors; sliced, cached, time-limited queries.
#pragma once
#include "expr.h"
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, table = 0, cross = 0; double seconds = 0; };
extern SolverStats g_ss;
enum SatRes { SAT, UNSAT, UNKNOWN };
void solverInit(unsigned timeoutMs);
// Is (constraints && q) satisfiable?  `base` must satisfy `constraints`; on SAT `out` = base updated.
SatRes solve(const std::vector<E>& constraints, E q, const Model& base, Model& out, bool smt = false); // smt: never by truth table
// do the constraints over variable v alone leave it a single value?
bool oneValueLeft(const std::vector<E>& constraints, u32 v);
extern bool g_incremental;
