// Preprocessing: what the minimizer, strategy, linear solver and evaluator are set up with, and which requests are refused.
#include "vp.h"
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/context_impl.h"
#include "ceres/cost_function.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/detect_structure.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/evaluator.h"
#include "ceres/iteration_callback.h"
#include "ceres/linear_solver.h"
#include "ceres/manifold.h"
#include "ceres/minimizer.h"
#include "ceres/ordered_groups.h"
#include "ceres/parameter_block.h"
#include "ceres/preprocessor.h"
#include "ceres/problem.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/residual_block.h"
#include "ceres/solver.h"
#include "ceres/thread_pool.h"
#include "ceres/trust_region_strategy.h"
// @bound problems of 4 blocks of sizes 1, 2, 1, 1 with linear residuals of fixed slopes and one arbitrary offset; 18 combinations of linear solver and preconditioner, 5 elimination orderings, every set of constant blocks; block structures of 3 rows and 4 columns; every option value
using namespace ceres; using namespace ceres::internal;
static const int SZ[4] = {1, 2, 1, 1};
struct Lin : CostFunction { std::vector<std::vector<double>> A; std::vector<double> b;
  Lin(std::vector<std::vector<double>> A_, std::vector<double> b_) : A(A_), b(b_) { set_num_residuals(b.size()); for (auto& a : A) mutable_parameter_block_sizes()->push_back(a.size() / b.size()); }
  bool Evaluate(double const* const* p, double* r, double** J) const override { for (size_t i = 0; i < b.size(); ++i) { r[i] = -b[i]; for (size_t k = 0; k < A.size(); ++k) { size_t n = A[k].size() / b.size(); for (size_t j = 0; j < n; ++j) r[i] += A[k][i * n + j] * p[k][j]; } } if (J) for (size_t k = 0; k < A.size(); ++k) if (J[k]) for (size_t j = 0; j < A[k].size(); ++j) J[k][j] = A[k][j]; return true; } };
// a - b - c - d in a chain, and every block alone
struct World { double mem[8], *v[4], start[5], off; Problem P; Solver::Options o; Solver::Summary S; ProblemImpl* I; ResidualBlockId id[7]; int held = 0;
  explicit World(bool symbolic = true) { int at[4] = {5, 2, 4, 0}; for (int i = 0; i < 8; ++i) mem[i] = 0.5 - 0.125 * i; for (int i = 0; i < 4; ++i) v[i] = mem + at[i]; off = symbolic ? vp_real_in("b", 6, 10) : 7.0; for (int i = 0; i < 4; ++i) P.AddParameterBlock(v[i], SZ[i]);
    id[0] = P.AddResidualBlock(new Lin({{3, 4}, {4, 0, 0, 3}}, {off, 1}), nullptr, v[0], v[1]); id[1] = P.AddResidualBlock(new Lin({{4, 1, 0, 3}, {3, 1}}, {2, -1}), nullptr, v[1], v[2]); id[2] = P.AddResidualBlock(new Lin({{2}, {1}}, {1}), nullptr, v[2], v[3]); id[3] = P.AddResidualBlock(new Lin({{1}}, {0.5}), nullptr, v[0]); id[4] = P.AddResidualBlock(new Lin({{1, 0, 0, 1}}, {0.5, 0.25}), nullptr, v[1]); id[5] = P.AddResidualBlock(new Lin({{1}}, {0.5}), nullptr, v[2]); id[6] = P.AddResidualBlock(new Lin({{2}}, {0.5}), nullptr, v[3]);
    I = P.mutable_impl(); o.jacobi_scaling = false; o.logging_type = SILENT; o.max_num_iterations = 1; o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0; o.initial_trust_region_radius = 4; o.min_lm_diagonal = o.max_lm_diagonal = 1; o.max_linear_solver_iterations = 2; o.min_linear_solver_iterations = 0; o.sparse_linear_algebra_library_type = EIGEN_SPARSE; now(start); }
  void now(double* q) const { q[0] = v[0][0]; q[1] = v[1][0]; q[2] = v[1][1]; q[3] = v[2][0]; q[4] = v[3][0]; }
  static int owner(int i) { return i == 0 ? 0 : i < 3 ? 1 : i - 1; }
  void hold(int mask) { held = mask; for (int i = 0; i < 4; ++i) if (mask >> i & 1) P.SetParameterBlockConstant(v[i]); }
  double cost(const double* q) const { double r[] = {3 * q[0] + 4 * q[1] - off, 4 * q[0] + 3 * q[2] - 1, 0, 0, 2 * q[3] + q[4] - 1, q[0] - 0.5, q[1] - 0.5, q[2] - 0.25, q[3] - 0.5, 2 * q[4] - 0.5}; r[0] = 3 * q[0] + 4 * q[1] + 0 * q[2] - off; r[2] = 4 * q[1] + q[2] + 3 * q[3] - 2; r[3] = 3 * q[2] + q[3] + 1; r[1] = 4 * q[0] + 0 * q[1] + 3 * q[2] - 1; double c = 0; for (double e : r) c += e * e; return c / 2; } };
static const LinearSolverType T[18] = {DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, CGNR, CGNR, CGNR, ITERATIVE_SCHUR, ITERATIVE_SCHUR, ITERATIVE_SCHUR, ITERATIVE_SCHUR, ITERATIVE_SCHUR, ITERATIVE_SCHUR, ITERATIVE_SCHUR, ITERATIVE_SCHUR, DENSE_SCHUR};
static const PreconditionerType K[18] = {JACOBI, JACOBI, JACOBI, JACOBI, JACOBI, JACOBI, IDENTITY, JACOBI, SUBSET, IDENTITY, JACOBI, SCHUR_JACOBI, SCHUR_POWER_SERIES_EXPANSION, CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL, SCHUR_JACOBI, SCHUR_JACOBI, JACOBI};
static void kind(World& w, int k) { w.o.linear_solver_type = T[k]; w.o.preconditioner_type = K[k]; w.o.dynamic_sparsity = k == 3; w.o.use_explicit_schur_complement = k == 15; w.o.use_spse_initialization = k == 16; if (K[k] == SUBSET) w.o.residual_blocks_for_subset_preconditioner = {w.id[3], w.id[4], w.id[5], w.id[6]}; w.o.use_mixed_precision_solves = false; w.o.trust_region_strategy_type = k == 17 ? DOGLEG : LEVENBERG_MARQUARDT; }
static const int G[5][4] = {{-1, -1, -1, -1}, {2, 2, 2, 2}, {0, 1, 0, 3}, {4, 0, 4, 4}, {5, 6, 7, 5}};
static std::shared_ptr<ParameterBlockOrdering> ordering(World& w, const int* g) { auto o = std::make_shared<ParameterBlockOrdering>(); for (int i = 0; i < 4; ++i) if (g[i] >= 0) o->AddElementToGroup(w.v[i], g[i]); return o; }
static std::vector<int> sizes(const int* g, int held) { std::map<int, int> m; for (int i = 0; i < 4; ++i) if (g[i] >= 0 && !(held >> i & 1)) ++m[g[i]]; std::vector<int> s; for (auto& q : m) s.push_back(q.second); return s; }
static bool schur(LinearSolverType t) { return t == DENSE_SCHUR || t == SPARSE_SCHUR || t == ITERATIVE_SCHUR; }
// the solver that must be used
static bool vanished(const int* g, int held) { if (g[0] < 0) return false; int least = 99; for (int i = 0; i < 4; ++i) if (g[i] < least) least = g[i]; for (int i = 0; i < 4; ++i) if (g[i] == least && !(held >> i & 1)) return false; return true; }
static void used(int k, bool gone, LinearSolverType* t, PreconditionerType* c) { *t = T[k]; *c = K[k]; if (!gone || !schur(T[k])) return; if (T[k] == DENSE_SCHUR) *t = DENSE_QR; if (T[k] == SPARSE_SCHUR) *t = SPARSE_NORMAL_CHOLESKY; if (T[k] == ITERATIVE_SCHUR) { *t = CGNR; if (K[k] != IDENTITY) *c = JACOBI; } }
static int freeBlocks(int held) { return 4 - __builtin_popcount(held); }
static void solved(int k, int which, int held, bool symbolic) { World w(symbolic); kind(w, k); w.hold(held); if (which) w.o.linear_solver_ordering = ordering(w, G[which]); std::string why; vp_check(w.o.IsValid(&why), "the options are acceptable"); Solve(w.o, &w.P, &w.S); double q[5]; w.now(q); auto& S = w.S; bool gone = which && vanished(G[which], held); LinearSolverType t; PreconditionerType c; used(k, gone, &t, &c);
  vp_check(S.IsSolutionUsable(), "accepted options solve"); vp_check(std::abs(S.initial_cost - w.cost(w.start)) <= 1e-9, "initial cost"); vp_check(std::abs(S.final_cost - w.cost(q)) <= 1e-9, "final cost"); vp_check(S.final_cost <= S.initial_cost, "never worse"); for (int i = 0; i < 5; ++i) if (held >> World::owner(i) & 1) vp_check(q[i] == w.start[i], "constant"); if (held == 15) return; vp_check(S.linear_solver_type_given == T[k] && S.preconditioner_type_given == K[k], "given"); vp_check(S.linear_solver_type_used == t, "linear solver used"); vp_check(S.preconditioner_type_used == c, "preconditioner used"); vp_check(S.linear_solver_ordering_given == sizes(G[which], 0), "ordering given"); vp_check(S.num_threads_given == 1 && S.num_threads_used == 1, "threads");
  auto now = sizes(G[which], held); int n = 0; for (int e : S.linear_solver_ordering_used) n += e; vp_check(n == freeBlocks(held), "every free block is ordered"); if (now.size() > 1) vp_check(S.linear_solver_ordering_used == now, "ordering used"); if (schur(t)) vp_check(!S.schur_structure_given.empty() && !S.schur_structure_used.empty(), "structure reported"); else vp_check(S.schur_structure_given.empty() && S.schur_structure_used.empty(), "no structure"); if (which) for (int i = 0; i < 4; ++i) vp_check(w.o.linear_solver_ordering->GroupId(w.v[i]) == G[which][i], "the caller's ordering is left alone"); }
// @run accepted ieee jobs=8
extern "C" void accepted() { int k = vp_choose("kind", 18); solved(k, vp_choose("ordering", 5), vp_choose("held", 16), false); }
static std::unique_ptr<PreprocessedProblem> prepared(World& w, bool expect = true) { auto p = std::make_unique<PreprocessedProblem>(); w.I->mutable_program()->SetParameterBlockStatePtrsToUserStatePtrs(); bool ok = Preprocessor::Create(w.o.minimizer_type)->Preprocess(w.o, w.I, p.get()); vp_check(ok == expect, expect ? "preprocessing succeeds" : "preprocessing fails"); if (!ok) vp_check(!p->error.empty(), "with a message"); return p; }
struct Call : IterationCallback { CallbackReturnType operator()(const IterationSummary&) override { return SOLVER_CONTINUE; } };
// What the linear solver, the evaluator and the minimizer are told.
// @run told jobs=8
extern "C" void told() { World w(false); int k = vp_choose("kind", 18); kind(w, k); static const int H[] = {0, 1, 5, 10, 7}; int which = vp_choose("ordering", 5), held = H[vp_choose("held", 5)]; w.hold(held); if (which) w.o.linear_solver_ordering = ordering(w, G[which]); Call c, c2; w.o.callbacks = {&c, &c2};
  w.o.min_linear_solver_iterations = vp_int("minit", 0, 1000); w.o.max_linear_solver_iterations = vp_int("maxit", 0, 1000); w.o.spse_tolerance = vp_real_in("spse", 0, 10); w.o.max_num_spse_iterations = vp_int("spseit", 1, 100); w.o.max_num_refinement_iterations = vp_int("refine", 0, 100); w.o.max_num_iterations = vp_int("iterations", 0, 1000); w.o.num_threads = 1; w.o.visibility_clustering_type = vp_choose("clustering", 2) ? SINGLE_LINKAGE : CANONICAL_VIEWS; w.o.update_state_every_iteration = vp_choose("update", 2); w.o.function_tolerance = vp_real_in("ftol", 0, 1); if (held == 0) w.P.SetParameterUpperBound(w.v[0], 0, 50); if (held == 1) w.P.SetParameterUpperBound(w.v[0], 0, 50); auto p = prepared(w); auto& l = p->linear_solver_options; auto& o = w.o; LinearSolverType t; PreconditionerType pc; bool gone = which && vanished(G[which], held); used(k, gone, &t, &pc);
  vp_check(l.type == t && l.preconditioner_type == pc, "linear solver and preconditioner"); vp_check(l.min_num_iterations == o.min_linear_solver_iterations && l.max_num_iterations == o.max_linear_solver_iterations, "iteration limits"); vp_check_eq(l.spse_tolerance, o.spse_tolerance, "power series tolerance"); vp_check(l.max_num_spse_iterations == o.max_num_spse_iterations && l.use_spse_initialization == o.use_spse_initialization, "power series"); vp_check(l.max_num_refinement_iterations == o.max_num_refinement_iterations && l.use_mixed_precision_solves == o.use_mixed_precision_solves, "refinement"); vp_check(l.visibility_clustering_type == o.visibility_clustering_type && l.use_explicit_schur_complement == o.use_explicit_schur_complement && l.dynamic_sparsity == o.dynamic_sparsity, "kinds"); vp_check(l.sparse_linear_algebra_library_type == EIGEN_SPARSE && l.dense_linear_algebra_library_type == EIGEN && l.num_threads == 1 && l.context == w.I->context(), "libraries and context"); vp_check(p->linear_solver != nullptr, "a solver");
  if (t == CGNR && pc == SUBSET) { const auto& rb = p->reduced_program->residual_blocks(); int at = l.subset_preconditioner_start_row_block; vp_check(at >= 0 && at <= (int)rb.size(), "start of the subset"); for (int i = 0; i < (int)rb.size(); ++i) vp_check((i >= at) == (w.o.residual_blocks_for_subset_preconditioner.count(rb[i]) == 1), "exactly the named residual blocks precondition"); }
  if (schur(t)) { vp_check(l.elimination_groups.size() > 1, "two groups at least"); int n = 0; for (int g : l.elimination_groups) n += g; vp_check(n == freeBlocks(held), "groups cover the blocks"); auto s = sizes(G[which], held); if (s.size() > 1) vp_check(l.elimination_groups == s, "groups as given"); vp_check(p->evaluator_options.num_eliminate_blocks == l.elimination_groups[0], "the evaluator eliminates the first group"); const auto& pb = p->reduced_program->parameter_blocks(); for (auto* r : p->reduced_program->residual_blocks()) { int e = 0; for (int j = 0; j < r->NumParameterBlocks(); ++j) { auto* b = r->parameter_blocks()[j]; if (!b->IsConstant() && b->index() < l.elimination_groups[0]) ++e; } vp_check(e <= 1, "eliminated blocks are independent"); } vp_check((int)pb.size() == freeBlocks(held), "reduced"); } else vp_check(p->evaluator_options.num_eliminate_blocks == 0, "nothing to eliminate");
  vp_check(p->evaluator_options.linear_solver_type == t && p->evaluator_options.dynamic_sparsity == o.dynamic_sparsity && p->evaluator_options.num_threads == 1 && p->evaluator_options.context == w.I->context(), "evaluator"); auto& m = p->minimizer_options; vp_check(m.evaluator == p->evaluator && m.evaluator && m.jacobian && m.trust_region_strategy && m.context == w.I->context(), "minimizer is complete"); vp_check(m.is_constrained == (held == 0), "bounds on a free block"); vp_check(m.max_num_iterations == o.max_num_iterations, "iterations"); vp_check_eq(m.function_tolerance, o.function_tolerance, "tolerance"); vp_check(!m.inner_iteration_minimizer, "no inner iterations"); int extra = o.update_state_every_iteration ? 1 : 0; vp_check((int)m.callbacks.size() == 2 + extra && m.callbacks[extra] == &c && m.callbacks[extra + 1] == &c2, "callbacks in order"); vp_check((p->state_updating_callback != nullptr) == (extra == 1) && (!extra || m.callbacks[0] == p->state_updating_callback.get()) && !p->logging_callback, "the state is updated first");
  int n = p->reduced_program->NumParameters(), i = 0; vp_check(p->reduced_parameters.size() == n && n == p->evaluator->NumParameters() && m.jacobian->num_cols() == p->evaluator->NumEffectiveParameters() && m.jacobian->num_rows() == p->evaluator->NumResiduals(), "sizes agree"); for (auto* b : p->reduced_program->parameter_blocks()) for (int j = 0; j < b->Size(); ++j) vp_check_eq(p->reduced_parameters[i++], b->user_state()[j], "the start"); double c0 = -1; Vector res(p->evaluator->NumResiduals()); vp_check(p->evaluator->Evaluate(p->reduced_parameters.data(), &c0, res.data(), nullptr, m.jacobian.get()), "evaluates"); vp_check(std::abs(c0 + p->fixed_cost - w.cost(w.start)) <= 1e-9, "cost and fixed cost"); vp_check((int)p->removed_parameter_blocks.size() == 4 - freeBlocks(held), "constant blocks are removed"); }
// The trust region strategy: a scalar problem 26 x = ...
// @run strategy jobs=8
extern "C" void strategy() { World w(true); w.hold(14); w.o.linear_solver_type = DENSE_NORMAL_CHOLESKY; double r = w.o.initial_trust_region_radius = vp_real_in("radius", 0.5, 8), m = w.o.max_trust_region_radius = vp_real_in("max", 8, 40), lo = w.o.min_lm_diagonal = vp_real_in("lo", 0.5, 50), hi = w.o.max_lm_diagonal = vp_real_in("hi", 0.75, 60); vp_assume(lo <= hi); auto p = prepared(w); auto& s = *p->minimizer_options.trust_region_strategy; vp_check_eq(s.Radius(), r, "initial radius"); double c; Vector res(p->evaluator->NumResiduals()), x(1); p->evaluator->Evaluate(p->reduced_parameters.data(), &c, res.data(), nullptr, p->minimizer_options.jacobian.get()); TrustRegionStrategy::PerSolveOptions q; q.eta = 0.1; auto sum = s.ComputeStep(q, p->minimizer_options.jacobian.get(), res.data(), x.data()); vp_check(sum.termination_type != LinearSolverTerminationType::FAILURE && sum.termination_type != LinearSolverTerminationType::FATAL_ERROR, "a step"); double a = w.start[0], b0 = w.start[1], b1 = w.start[2]; double g = 3 * (3 * a + 4 * b0 - w.off) + 4 * (4 * a + 3 * b1 - 1) + (a - 0.5); double d = 26 < lo ? lo : 26 > hi ? hi : 26; vp_check_eq((26 * r + d) * x[0], -g * r, "the damped step"); s.StepAccepted(1.0); vp_check_eq(s.Radius(), 3 * r < m ? 3 * r : m, "radius grows up to its maximum"); s.StepRejected(0); vp_check_eq(s.Radius() * 2, 3 * r < m ? 3 * r : m, "and shrinks"); }
// Eigen's root finder splits exponents off
extern "C" double frexp(double x, int* e) noexcept { *e = 0; if (x == 0 || !std::isfinite(x)) return x; while (std::abs(x) >= 1) { x *= 0.5; ++*e; } while (std::abs(x) < 0.5) { x *= 2; --*e; } return x; }
// @run dogleg ieee jobs=8
extern "C" void dogleg() { World w(false); int sub = vp_choose("subspace", 2); w.hold(vp_choose("held", 15)); w.o.linear_solver_type = DENSE_QR; w.o.trust_region_strategy_type = DOGLEG; w.o.dogleg_type = sub ? SUBSPACE_DOGLEG : TRADITIONAL_DOGLEG; w.o.initial_trust_region_radius = vp_choose("small", 2) ? 0.5 : 100; w.o.min_lm_diagonal = 0.25; w.o.max_lm_diagonal = 20; auto p = prepared(w); TrustRegionStrategy::Options t; t.trust_region_strategy_type = DOGLEG; t.dogleg_type = w.o.dogleg_type; t.linear_solver = p->linear_solver.get(); t.initial_radius = w.o.initial_trust_region_radius; t.max_radius = w.o.max_trust_region_radius; t.min_lm_diagonal = 0.25; t.max_lm_diagonal = 20; t.context = w.I->context(); auto mine = TrustRegionStrategy::Create(t); auto& s = *p->minimizer_options.trust_region_strategy; double c; Vector res(p->evaluator->NumResiduals()); p->evaluator->Evaluate(p->reduced_parameters.data(), &c, res.data(), nullptr, p->minimizer_options.jacobian.get()); int n = p->evaluator->NumEffectiveParameters(); Vector x = Vector::Zero(n), y = Vector::Zero(n); TrustRegionStrategy::PerSolveOptions q; s.ComputeStep(q, p->minimizer_options.jacobian.get(), res.data(), x.data()); mine->ComputeStep(q, p->minimizer_options.jacobian.get(), res.data(), y.data()); for (int i = 0; i < n; ++i) vp_check(x[i] == y[i], "the dogleg asked for"); }
// @run line jobs=8
extern "C" void line() { World w(false); int why = vp_choose("why", 3); w.o.minimizer_type = LINE_SEARCH; w.o.max_lbfgs_rank = vp_int("rank", 1, 50); w.o.line_search_sufficient_function_decrease = vp_real_in("decrease", 0, 1); int held = vp_choose("held", 15); w.hold(held); Call c; w.o.callbacks = {&c}; w.o.update_state_every_iteration = vp_choose("update", 2); int b = vp_choose("block", 4); if (why == 1) w.P.SetParameterLowerBound(w.v[b], 0, -50); if (why == 2) w.v[b][SZ[b] - 1] = vp_choose("bad", 2) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN(); auto p = prepared(w, why == 0 || (why == 1 && (held >> b & 1))); if (p->minimizer_options.evaluator == nullptr) return; auto& m = p->minimizer_options; vp_check(m.evaluator == p->evaluator && m.context == w.I->context() && m.max_lbfgs_rank == w.o.max_lbfgs_rank, "minimizer is complete"); vp_check_eq(m.line_search_sufficient_function_decrease, w.o.line_search_sufficient_function_decrease, "line search options"); vp_check(p->linear_solver == nullptr && !m.trust_region_strategy && !m.is_constrained, "no trust region"); int extra = w.o.update_state_every_iteration; vp_check((int)m.callbacks.size() == 1 + extra && m.callbacks[extra] == &c, "callbacks in order"); double c0 = -1; vp_check(p->evaluator->Evaluate(p->reduced_parameters.data(), &c0, nullptr, nullptr, nullptr), "evaluates"); vp_check(std::abs(c0 + p->fixed_cost - w.cost(w.start)) <= 1e-9, "cost and fixed cost"); }
// Orderings that do not fit the problem are refused by the solvers that use them, and ignored by the others.
// @run misfits ieee jobs=8
extern "C" void misfits() { World w(false); static const int Q[] = {0, 1, 2, 3, 4, 5, 7, 8, 10, 13}; int k = Q[vp_choose("kind", 10)], fault = vp_choose("fault", 8), g[4] = {0, 1, 0, 3}; double other; kind(w, k); int held = vp_choose("held", 2) ? 2 : 0; w.hold(held); if (fault == 1) g[3] = -1; if (fault == 2) g[1] = -1; if (fault == 6) g[1] = 0; auto o = ordering(w, g); if (fault == 0) o->Clear(); if (fault == 3) o->AddElementToGroup(&other, 3); if (fault == 4) { o->Remove(w.v[3]); o->AddElementToGroup(&other, 3); } if (fault == 5) { o->Clear(); if (held) o->AddElementToGroup(w.v[1], 0); } if (fault == 7) { o->Remove(w.v[0]); o->AddElementToGroup(&other, 0); } w.o.linear_solver_ordering = o; int n = o->NumElements(); Solve(w.o, &w.P, &w.S); double q[5]; w.now(q);
  bool uses = schur(T[k]) || k == 2 || k == 8, fits = fault == 2 ? held == 2 : fault == 6 ? !schur(T[k]) || held == 2 : false; if (uses && (schur(T[k]) || fault != 4) && (schur(T[k]) || fault != 7)) vp_check((w.S.termination_type == FAILURE) == !fits, "refused exactly when the ordering does not fit"); else if (!uses) vp_check(w.S.IsSolutionUsable(), "orderings that are not used do not matter"); if (w.S.termination_type == FAILURE) { vp_check(!w.S.message.empty() && w.S.iterations.empty(), "with a message"); for (int i = 0; i < 5; ++i) vp_check(q[i] == w.start[i], "untouched"); } double c = -1; vp_check(w.P.Evaluate(Problem::EvaluateOptions(), &c, nullptr, nullptr, nullptr) && std::abs(c - w.cost(q)) <= 1e-9, "the problem can be used again"); vp_check(o->NumElements() == n, "the caller's ordering is left alone"); }
// The same for inner iterations.
// @run inner ieee jobs=8
extern "C" void inner() { World w(false); int fault = vp_choose("fault", 6), held = vp_choose("held", 2) ? 2 : 0, g[4] = {0, 1, 0, 3}; double other; kind(w, vp_choose("schur", 2) ? 5 : 1); w.hold(held); if (fault == 1) g[3] = -1; if (fault == 2) g[1] = -1; if (fault == 3) g[3] = 0; auto o = ordering(w, g); if (fault == 0) o->Clear(); if (fault == 4) o->AddElementToGroup(&other, vp_choose("late", 2) ? 5 : 0); w.o.use_inner_iterations = true; w.o.inner_iteration_ordering = o; int n = o->NumElements(); Solve(w.o, &w.P, &w.S); double q[5]; w.now(q); bool fits = fault != 3 && fault != 4; vp_check((w.S.termination_type == FAILURE) == !fits, "refused exactly when the ordering does not fit"); if (!fits) { vp_check(!w.S.message.empty() && w.S.iterations.empty(), "with a message"); for (int i = 0; i < 5; ++i) vp_check(q[i] == w.start[i], "untouched"); } else { vp_check(w.S.final_cost <= w.S.initial_cost && std::abs(w.S.final_cost - w.cost(q)) <= 1e-9, "solved"); vp_check(w.S.inner_iterations_used == (fault != 0), "inner iterations"); } vp_check(o->NumElements() == n, "the caller's ordering is left alone"); }
// Options at the ends of what is accepted: Solve must return.
// @run limits ieee jobs=8
extern "C" void limits() { World w(false); const double V[] = {0, std::numeric_limits<double>::denorm_min(), 1e-300, 1, 1e300, std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity()}; int mode = vp_choose("mode", 6); auto& o = w.o; o.max_num_iterations = 3; static const int Q[] = {0, 10, 17}; kind(w, mode < 3 ? Q[mode] : mode == 5 ? 5 : 1); if (mode == 5) { w.P.SetParameterUpperBound(w.v[0], 0, 0.25); w.P.SetParameterLowerBound(w.v[1], 1, -1); o.use_inner_iterations = true; o.use_nonmonotonic_steps = true; } if (mode == 3 || mode == 4) { o.minimizer_type = LINE_SEARCH; o.line_search_direction_type = mode == 3 ? LBFGS : NONLINEAR_CONJUGATE_GRADIENT; o.line_search_type = mode == 3 ? WOLFE : ARMIJO; }
  int f = vp_choose("option", 25); double v = f < 17 ? V[vp_choose("value", 7)] : 0; double* D[] = {&o.initial_trust_region_radius, &o.max_trust_region_radius, &o.min_trust_region_radius, &o.min_relative_decrease, &o.min_lm_diagonal, &o.max_lm_diagonal, &o.eta, &o.function_tolerance, &o.gradient_tolerance, &o.parameter_tolerance, &o.inner_iteration_tolerance, &o.max_solver_time_in_seconds, &o.min_line_search_step_size, &o.line_search_sufficient_function_decrease, &o.max_line_search_step_contraction, &o.line_search_sufficient_curvature_decrease, &o.max_line_search_step_expansion}; int* N[] = {&o.max_num_iterations, &o.max_num_consecutive_invalid_steps, &o.max_lbfgs_rank, &o.max_num_line_search_step_size_iterations, &o.max_num_line_search_direction_restarts, &o.max_consecutive_nonmonotonic_steps, &o.min_linear_solver_iterations, &o.max_linear_solver_iterations};
  if (f < 17) *D[f] = v; else *N[f - 17] = vp_choose("count", 3) - 1; if (f == 0) { if (v > o.max_trust_region_radius) o.max_trust_region_radius = v; if (v < o.min_trust_region_radius) o.min_trust_region_radius = v; } if (f == 1) { if (v < o.initial_trust_region_radius) o.initial_trust_region_radius = v; if (v < o.min_trust_region_radius) o.min_trust_region_radius = v; } if (f == 2) { if (v > o.initial_trust_region_radius) o.initial_trust_region_radius = v; if (v > o.max_trust_region_radius) o.max_trust_region_radius = v; } if (f == 4 && v > o.max_lm_diagonal) o.max_lm_diagonal = v; if (f == 5 && v < o.min_lm_diagonal) o.min_lm_diagonal = v; if (f == 22 && o.min_linear_solver_iterations > o.max_linear_solver_iterations) o.max_linear_solver_iterations = o.min_linear_solver_iterations; if (f == 23 && o.max_linear_solver_iterations < o.min_linear_solver_iterations) o.min_linear_solver_iterations = o.max_linear_solver_iterations;
  vp_note("v", v); std::string e; bool ok = o.IsValid(&e); Solve(o, &w.P, &w.S); double q[5]; w.now(q); if (!ok) { vp_check(w.S.termination_type == FAILURE, "refused"); for (int i = 0; i < 5; ++i) vp_check(q[i] == w.start[i], "untouched"); return; } vp_note("final", w.S.final_cost); vp_note("initial", w.S.initial_cost); if (w.S.IsSolutionUsable()) { vp_check(w.S.final_cost <= w.S.initial_cost * (1 + 1e-12), "never worse"); vp_check(std::abs(w.S.final_cost - w.cost(q)) <= 1e-9, "final cost"); } else for (int i = 0; i < 5; ++i) vp_check(q[i] == w.start[i], "failures restore the start"); }
// More threads than there are is no error.
// @run threads nonative
extern "C" void threads() { Solver::Options o; int n = o.num_threads = vp_int("threads", 1, 1 << 20), m = ThreadPool::MaxNumThreadsAvailable(); vp_check(m >= 1, "there is a thread"); ChangeNumThreadsIfNeeded(&o); vp_check((n <= m) & (o.num_threads == n) | (n > m) & (o.num_threads == m), "as many threads as asked for, up to the maximum"); }
// Static block sizes are reported exactly when every row that matters has them.
static void detect(int nrows) { CompressedRowBlockStructure bs; int pos = 0; for (int c = 0; c < 4; ++c) { int s = vp_int("column", 1, 9); bs.cols.emplace_back(s, pos); pos += s; } int ne = 1 + vp_choose("eliminated", 2), erows = 1 + vp_choose("rows", nrows); pos = 0; for (int r = 0; r < nrows; ++r) { bs.rows.emplace_back(); auto& row = bs.rows.back(); int s = vp_int("row", 1, 9); row.block = Block(s, pos); pos += s; int mask = vp_choose("cells", 1 << (4 - ne)); if (r < erows) row.cells.emplace_back(vp_choose("e", ne), 0); else if (!mask) mask = 1; for (int f = ne; f < 4; ++f) if (mask >> (f - ne) & 1) row.cells.emplace_back(f, 0); }
  int R = -7, E = -7, F = -7; DetectStructure(bs, ne, &R, &E, &F); int r0 = bs.rows[0].block.size, e0 = bs.cols[bs.rows[0].cells[0].block_id].size, f0 = 0, rs = 1, es = 1, fs = 1; for (int r = 0; r < erows; ++r) { auto& row = bs.rows[r]; rs &= row.block.size == r0; es &= bs.cols[row.cells[0].block_id].size == e0; for (size_t c = 1; c < row.cells.size(); ++c) { int s = bs.cols[row.cells[c].block_id].size; if (f0 == 0) f0 = s; fs &= s == f0; } }
  vp_check((rs == 1) & (R == r0) | (rs == 0) & (R == Eigen::Dynamic), "row block size"); vp_check((es == 1) & (E == e0) | (es == 0) & (E == Eigen::Dynamic), "eliminated block size"); vp_check((fs == 1) & (F == f0) | (fs == 0) & (F == Eigen::Dynamic), "other block size"); }
// @run structure jobs=8
extern "C" void structure() { detect(2); }
// @run structure3 jobs=8 tier=thorough time=800
extern "C" void structure3() { detect(3); }
