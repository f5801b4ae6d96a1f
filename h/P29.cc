// Option validation: an options object is accepted exactly when it meets the documented constraints.
#include "vp.h"
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "ceres/gradient_problem_solver.h"
#include "ceres/linear_solver.h"
#include "ceres/minimizer.h"
#include "ceres/residual_block.h"
#include "ceres/solver.h"
#include "ceres/types.h"
// @bound every value (NaN and infinities included) of the validated fields, grouped as common, trust region, linear solver and line search options; other groups at their defaults; libraries as configured in this build (Eigen only)
using namespace ceres; using namespace ceres::internal;
template <class T> static T pick(const char* n, int count) { return static_cast<T>(vp_int(n, 0, count - 1)); }
static int i32(const char* n) { return vp_int(n, -3, 5); }
static double d(const char* n) { return vp_double(n); }
static bool b(const char* n) { return vp_int(n, 0, 1) != 0; }
static void decide(const Solver::Options& o, int want, const char* id) { std::string e; int got = o.IsValid(&e); vp_check(got == want, id); vp_check(got || !e.empty(), "a reason is given"); }
// @run common ieee jobs=8
extern "C" void common() { Solver::Options o; o.minimizer_type = vp_choose("minimizer", 2) ? TRUST_REGION : LINE_SEARCH; o.max_num_iterations = i32("iterations"); o.max_solver_time_in_seconds = d("time"); o.function_tolerance = d("ftol"); o.gradient_tolerance = d("gtol"); o.parameter_tolerance = d("ptol"); o.num_threads = i32("threads"); o.check_gradients = b("check"); o.gradient_check_relative_precision = d("precision"); o.gradient_check_numeric_derivative_relative_step_size = d("step");
  int want = (o.max_num_iterations >= 0) & (o.max_solver_time_in_seconds >= 0) & (o.function_tolerance >= 0) & (o.gradient_tolerance >= 0) & (o.parameter_tolerance >= 0) & (o.num_threads >= 1) & ((o.check_gradients == 0) | ((o.gradient_check_relative_precision > 0) & (o.gradient_check_numeric_derivative_relative_step_size > 0))); decide(o, want, "common options"); }
static int trOk(const Solver::Options& o) { return (o.initial_trust_region_radius > 0) & (o.min_trust_region_radius > 0) & (o.max_trust_region_radius > 0) & (o.min_trust_region_radius <= o.initial_trust_region_radius) & (o.initial_trust_region_radius <= o.max_trust_region_radius) & (o.min_trust_region_radius <= o.max_trust_region_radius) & (o.min_relative_decrease >= 0) & (o.min_lm_diagonal > 0) & (o.max_lm_diagonal >= 0) & (o.min_lm_diagonal <= o.max_lm_diagonal) & (o.max_num_consecutive_invalid_steps >= 0) & (o.eta > 0) & (o.min_linear_solver_iterations >= 0) & (o.max_linear_solver_iterations >= 0) & (o.min_linear_solver_iterations <= o.max_linear_solver_iterations) & ((o.use_inner_iterations == 0) | (o.inner_iteration_tolerance >= 0)) & ((o.use_nonmonotonic_steps == 0) | (o.max_consecutive_nonmonotonic_steps > 0)) & (o.trust_region_minimizer_iterations_to_dump.empty() | (o.trust_region_problem_dump_format_type == CONSOLE) | !o.trust_region_problem_dump_directory.empty()); }
// @run radii ieee jobs=8
extern "C" void radii() { Solver::Options o; int tr = vp_choose("minimizer", 2); o.minimizer_type = tr ? TRUST_REGION : LINE_SEARCH; o.initial_trust_region_radius = d("initial"); o.min_trust_region_radius = d("min"); o.max_trust_region_radius = d("max"); o.min_relative_decrease = d("decrease"); o.min_lm_diagonal = d("mindiag"); o.max_lm_diagonal = d("maxdiag"); o.eta = d("eta"); decide(o, tr ? trOk(o) : 1, "trust region sizes"); }
// @run counts ieee jobs=8
extern "C" void counts() { Solver::Options o; int tr = vp_choose("minimizer", 2); o.minimizer_type = tr ? TRUST_REGION : LINE_SEARCH; o.max_num_consecutive_invalid_steps = i32("invalid"); o.min_linear_solver_iterations = i32("minit"); o.max_linear_solver_iterations = i32("maxit"); o.use_inner_iterations = b("inner"); o.inner_iteration_tolerance = d("innertol"); o.use_nonmonotonic_steps = b("nonmonotonic"); o.max_consecutive_nonmonotonic_steps = i32("nmsteps"); if (vp_choose("dump", 2)) o.trust_region_minimizer_iterations_to_dump.push_back(1); if (vp_choose("dir", 2)) o.trust_region_problem_dump_directory.clear(); o.trust_region_problem_dump_format_type = pick<DumpFormatType>("format", 2); decide(o, tr ? trOk(o) : 1, "trust region counts"); }
// Availability, from this build's configuration.
static int sparseAvailable(int t) {
#ifdef CERES_USE_EIGEN_SPARSE
  if (t == EIGEN_SPARSE) return 1;
#endif
  return 0; }
static int sparseOk(const Solver::Options& o) { return sparseAvailable(o.sparse_linear_algebra_library_type) && !(o.linear_solver_ordering_type == NESDIS) ? 1 : 0; }   // no METIS in this build
static int linOk(const Solver::Options& o) { int dense = o.dense_linear_algebra_library_type == EIGEN, p = o.preconditioner_type;
  switch (o.linear_solver_type) {
    case DENSE_NORMAL_CHOLESKY: return dense;
    case DENSE_QR: return dense && !o.use_mixed_precision_solves;
    case DENSE_SCHUR: return dense && !o.dynamic_sparsity;
    case SPARSE_NORMAL_CHOLESKY: return sparseOk(o);
    case SPARSE_SCHUR: return !o.dynamic_sparsity && sparseOk(o);
    case ITERATIVE_SCHUR: if (o.trust_region_strategy_type == DOGLEG || o.dynamic_sparsity || o.use_mixed_precision_solves || p == SUBSET) return 0; if (o.use_explicit_schur_complement && (p != SCHUR_JACOBI || o.use_spse_initialization)) return 0; if ((o.use_spse_initialization || p == SCHUR_POWER_SERIES_EXPANSION) && !(o.max_num_spse_iterations >= 1 && o.spse_tolerance >= 0)) return 0; return p == CLUSTER_JACOBI || p == CLUSTER_TRIDIAGONAL ? sparseOk(o) : 1;
    case CGNR: if (o.trust_region_strategy_type == DOGLEG || o.dynamic_sparsity || o.use_mixed_precision_solves) return 0; if (p != IDENTITY && p != JACOBI && p != SUBSET) return 0; if (p == SUBSET && o.residual_blocks_for_subset_preconditioner.empty()) return 0; if (o.sparse_linear_algebra_library_type == CUDA_SPARSE) return 0; return p == SUBSET ? sparseOk(o) : 1; }
  return 0; }
static void linear(int from, int to) { Solver::Options o; o.linear_solver_type = static_cast<LinearSolverType>(from + vp_choose("solver", to - from)); o.preconditioner_type = pick<PreconditionerType>("preconditioner", 7); o.dense_linear_algebra_library_type = pick<DenseLinearAlgebraLibraryType>("dense", 3); o.sparse_linear_algebra_library_type = pick<SparseLinearAlgebraLibraryType>("sparse", 5); o.linear_solver_ordering_type = pick<LinearSolverOrderingType>("ordering", 2); o.trust_region_strategy_type = pick<TrustRegionStrategyType>("strategy", 2); o.use_explicit_schur_complement = b("explicit"); o.use_spse_initialization = b("spse"); o.use_mixed_precision_solves = b("mixed"); o.dynamic_sparsity = b("dynamic"); o.max_num_spse_iterations = i32("spseit"); o.spse_tolerance = d("spsetol"); if (vp_choose("subset", 2)) o.residual_blocks_for_subset_preconditioner.insert(reinterpret_cast<ResidualBlockId>(16)); decide(o, linOk(o), "linear solver options"); }
// @run dense ieee jobs=8
extern "C" void dense() { linear(0, 4); }
// @run schur ieee jobs=8
extern "C" void schur() { linear(4, 7); }
// @run ignored ieee
extern "C" void ignored() { Solver::Options o; o.minimizer_type = LINE_SEARCH; o.linear_solver_type = pick<LinearSolverType>("solver", 7); o.preconditioner_type = pick<PreconditionerType>("preconditioner", 7); o.sparse_linear_algebra_library_type = pick<SparseLinearAlgebraLibraryType>("sparse", 5); o.dynamic_sparsity = b("dynamic"); o.eta = d("eta"); o.use_nonmonotonic_steps = true; o.max_consecutive_nonmonotonic_steps = i32("nm"); decide(o, 1, "a line search ignores trust region options"); }
template <class O> static void fillLine(O& o) { o.max_lbfgs_rank = i32("rank"); o.min_line_search_step_size = d("minstep"); o.max_line_search_step_contraction = d("maxc"); o.min_line_search_step_contraction = d("minc"); o.max_num_line_search_step_size_iterations = i32("steps"); o.line_search_sufficient_function_decrease = d("c1"); o.line_search_sufficient_curvature_decrease = d("c2"); o.max_line_search_step_expansion = d("expand"); o.line_search_direction_type = pick<LineSearchDirectionType>("direction", 4); o.line_search_type = pick<LineSearchType>("type", 2); o.line_search_interpolation_type = pick<LineSearchInterpolationType>("interpolation", 3); }
template <class O> static int lineOk(const O& o, int minit) { int quasi = (o.line_search_direction_type == LBFGS) | (o.line_search_direction_type == BFGS); return (o.max_lbfgs_rank >= 1) & (o.min_line_search_step_size > 0) & (o.max_line_search_step_contraction > 0) & (o.max_line_search_step_contraction < 1) & (o.max_line_search_step_contraction < o.min_line_search_step_contraction) & (o.min_line_search_step_contraction <= 1) & (o.max_num_line_search_step_size_iterations >= minit) & (o.line_search_sufficient_function_decrease > 0) & (o.line_search_sufficient_function_decrease < o.line_search_sufficient_curvature_decrease) & (o.line_search_sufficient_curvature_decrease < 1) & (o.max_line_search_step_expansion > 1) & (!quasi | (o.line_search_type == WOLFE)); }
// @run line ieee jobs=8
extern "C" void line() { Solver::Options o; int tr = vp_choose("minimizer", 2); o.minimizer_type = tr ? TRUST_REGION : LINE_SEARCH; fillLine(o); decide(o, lineOk(o, tr ? 0 : 1), "line search options"); }
// @run gradient ieee jobs=8
extern "C" void gradient() { GradientProblemSolver::Options o; fillLine(o); std::string e; int got = o.IsValid(&e); vp_check(got == lineOk(o, 1), "gradient problem options"); vp_check(got || !e.empty(), "a reason is given"); }
// @run gradientcommon ieee jobs=8
extern "C" void gradientcommon() { GradientProblemSolver::Options o; o.max_num_iterations = i32("iterations"); o.max_solver_time_in_seconds = d("time"); o.function_tolerance = d("ftol"); o.gradient_tolerance = d("gtol"); o.parameter_tolerance = d("ptol"); std::string e; int got = o.IsValid(&e), want = (o.max_num_iterations >= 0) & (o.max_solver_time_in_seconds >= 0) & (o.function_tolerance >= 0) & (o.gradient_tolerance >= 0) & (o.parameter_tolerance >= 0); vp_check(got == want, "gradient problem options"); vp_check(got || !e.empty(), "a reason is given"); }
struct Call : IterationCallback { CallbackReturnType operator()(const IterationSummary&) override { return SOLVER_CONTINUE; } };
// @run handed
extern "C" void handed() { Solver::Options o; Call c; int n = 0; auto r = [&] { return vp_real(("v" + std::string(1, char('a' + n++))).c_str()); }; auto k = [&] { return vp_int(("k" + std::string(1, char('a' + n++))).c_str(), -1000, 1000); };
#define DS(X) X(max_solver_time_in_seconds) X(gradient_tolerance) X(parameter_tolerance) X(function_tolerance) X(min_relative_decrease) X(eta) X(min_trust_region_radius) X(min_line_search_step_size) X(line_search_sufficient_function_decrease) X(max_line_search_step_contraction) X(min_line_search_step_contraction) X(line_search_sufficient_curvature_decrease) X(max_line_search_step_expansion) X(inner_iteration_tolerance)
#define IS(X) X(max_num_iterations) X(num_threads) X(max_num_consecutive_invalid_steps) X(max_lbfgs_rank) X(max_num_line_search_step_size_iterations) X(max_num_line_search_direction_restarts)
#define BS(X) X(jacobi_scaling) X(use_approximate_eigenvalue_bfgs_scaling)
#define SETD(f) o.f = r();
#define SETI(f) o.f = k();
#define SETB(f) o.f = b(#f);
  DS(SETD) IS(SETI) BS(SETB) o.line_search_direction_type = pick<LineSearchDirectionType>("direction", 4); o.line_search_type = pick<LineSearchType>("type", 2); o.line_search_interpolation_type = pick<LineSearchInterpolationType>("interpolation", 3); o.nonlinear_conjugate_gradient_type = pick<NonlinearConjugateGradientType>("cg", 3); o.use_nonmonotonic_steps = b("nonmonotonic"); o.max_consecutive_nonmonotonic_steps = k(); if (vp_choose("callback", 2)) o.callbacks.push_back(&c); o.logging_type = pick<LoggingType>("logging", 2); o.trust_region_minimizer_iterations_to_dump = {3, 1};
  Minimizer::Options m(o);
#define EQD(f) vp_check_eq(m.f, o.f, #f);
#define EQI(f) vp_check(m.f == o.f, #f);
  DS(EQD) IS(EQI) BS(EQI) vp_check(m.line_search_direction_type == o.line_search_direction_type && m.line_search_type == o.line_search_type && m.line_search_interpolation_type == o.line_search_interpolation_type && m.nonlinear_conjugate_gradient_type == o.nonlinear_conjugate_gradient_type, "line search kinds"); vp_check(m.use_nonmonotonic_steps == o.use_nonmonotonic_steps && m.max_consecutive_nonmonotonic_steps == o.max_consecutive_nonmonotonic_steps, "nonmonotonic steps"); vp_check(m.callbacks == o.callbacks, "callbacks"); vp_check(m.is_silent == (o.logging_type == SILENT), "logging"); vp_check(!m.is_constrained, "unconstrained by default"); }
// @run kinds
extern "C" void kinds() { auto t = pick<LinearSolverType>("type", 7); vp_check(IsSchurType(t) == (t == DENSE_SCHUR || t == SPARSE_SCHUR || t == ITERATIVE_SCHUR), "Schur types"); auto z = LinearSolver::LinearSolverForZeroEBlocks(t); LinearSolverType want = t; if (t == SPARSE_SCHUR) want = SPARSE_NORMAL_CHOLESKY; if (t == DENSE_SCHUR) want = DENSE_QR; if (t == ITERATIVE_SCHUR) want = CGNR; vp_check(z == want, "without E blocks"); vp_check(!IsSchurType(z), "no Schur type without E blocks"); }
