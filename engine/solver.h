#pragma once
#include "expr.h"
#include <map>
enum class SatRes { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, z3 = 0, order = 0, linear = 0, arith = 0, cross = 0, disagree = 0; double seconds = 0, maxQuery = 0; };
extern SolverStats gSolverStats;
void solverInit(unsigned timeoutMs, const char *dumpDir);
// Is the conjunction of `pc` (sliced by dependence on cond) and `cond` satisfiable?
// On Sat, `model` receives values for the variables of the slice.
SatRes solveSlice(const std::vector<E> &pc, E cond, Assignment &model);
SatRes blastSolve(const std::vector<E> &cs, Assignment &model, int64_t confBudget);
bool orderRefute(const std::vector<E> &cs);
SatRes linearSolve(const std::vector<E> &cs, Assignment &model, unsigned attempt);
SatRes intSolve(const std::vector<E> &cs, Assignment &model, unsigned timeoutMs, bool force = false, int *streak = nullptr);   // *streak: timeouts in a row
void intStart();   // starts the worker process of intSolve while this process is small
