#pragma once
#include "expr.h"
#include <z3.h>
namespace tse {
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double seconds = 0; };
enum SatResult { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct Solver {
    Z3_context ctx = nullptr;
    SolverStats st;
    std::unordered_map<E, Z3_ast> ast;
    std::unordered_map<std::string, std::pair<SatResult, std::vector<std::pair<uint32_t, uint64_t>>>> cache;
    void init();
    Z3_ast tr(E e);
    // satisfiability of (slice of pc relevant to cond) and cond;  model receives values for the symbols of the slice
    SatResult check(const std::vector<E> &pc, E cond, Model *model);
};
extern Solver S;
} // namespace tse
