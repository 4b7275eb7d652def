#pragma once
#include "expr.hpp"
enum Res { SAT, UNSAT, UNKNOWN };
struct Model { std::map<std::string,double> real; std::map<std::string,uint64_t> ints; };
struct SolverStats { long queries=0, sat=0, unsat=0, unknown=0; double time=0; };
extern SolverStats sstats;
extern std::string solverCmd;
// are the conditions (together with the definitions of all atoms involved) satisfiable?
Res solve(const std::vector<Expr*>& conds, int timeoutMs, Model* m = nullptr, const std::vector<std::string>& extra = {});
// z3 check of the polynomial identity l == r after clearing denominators
Res confirmEq(Expr* l, Expr* r, int timeoutMs);
extern std::string dumpDir;
