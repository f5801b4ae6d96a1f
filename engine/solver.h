#pragma once
#include "expr.h"
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct ModelEnt { uint32_t var; double d; uint64_t u; };
typedef std::vector<ModelEnt> Model;
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cache = 0, trivial = 0; double secs = 0; };
extern SolverStats g_ss;
extern double g_solver_deadline;
// Is  (constraints of the path that matter for `extra`)  and  extra  satisfiable?
Res checkPath(const std::vector<Expr*>& path, const std::vector<Expr*>& extra, Model* m, uint64_t rlimit, double secs);
void applyModel(const Model& m);
std::vector<Expr*> sliceFor(const std::vector<Expr*>& path, const std::vector<Expr*>& extra);
void dumpQueries(const char* dir);
void rawAtoms(Expr* e);
