// symx: constraint solving (Z3) with independence slicing and query caching.
#pragma once
#include "expr.h"
#include <memory>
#include <chrono>
enum class Sat { Unsat, Sat, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, fallback = 0; double seconds = 0, maxSeconds = 0; };
extern SolverStats gStats;
struct QueryDump { std::string dir; unsigned every = 0; unsigned count = 0; unsigned max = 200; };
extern QueryDump gDump;
void solverInit(unsigned timeoutMs, unsigned seed);
// Is (constraints && query) satisfiable?  When Sat, *out receives base overlaid with a model of the relevant slice.
Sat solverCheck(const std::vector<Expr *> &constraints, Expr *query, const Model &base, Model *out);
