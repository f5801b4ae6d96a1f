// Solve as a whole: what it leaves in the user's memory, the problem and the summary, however it ends.
#include "vp.h"
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "ceres/cost_function.h"
#include "ceres/evaluation_callback.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "ceres/iteration_callback.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/ordered_groups.h"
#include "ceres/problem.h"
#include "ceres/solver.h"
// @bound problems of 3 blocks of sizes 1 and 2 with linear residuals of fixed slopes; one arbitrary offset (thorough: and one arbitrary start); up to 2 iterations of either minimizer; every evaluation that may fail, every callback answer, constant blocks, manifolds and bounds
using namespace ceres;
static double ab(double v) { return v < 0 ? -v : v; }
static void near(double a, double b, const char* id) { vp_check(ab(a - b) <= 1e-6, id); }
static std::vector<std::vector<double>>* seen = nullptr; static int calls = 0, failAt = -1, nanAt = -1; static double* watch[3]; static int watchn[3]; static bool mustPrepare = false, prepared = false; static std::vector<double> preparedState;
struct Lin : CostFunction { std::vector<std::vector<double>> A; std::vector<double> b; std::vector<int> blocks;
  Lin(std::vector<std::vector<double>> A_, std::vector<double> b_) : A(A_), b(b_) { set_num_residuals(b.size()); for (auto& a : A) mutable_parameter_block_sizes()->push_back(a.size() / b.size()); }
  bool Evaluate(double const* const* p, double* r, double** J) const override { int c = calls++; if (mustPrepare) { vp_check(prepared, "the evaluation callback ran first"); for (size_t k = 0; k < A.size(); ++k) for (int j = 0; j < parameter_block_sizes()[k]; ++j) vp_check_eq(p[k][j], watch[blocks[k]][j], "the user's memory holds the point"); } if (c == failAt) return false; for (size_t i = 0; i < b.size(); ++i) { r[i] = -b[i]; for (size_t k = 0; k < A.size(); ++k) { size_t n = A[k].size() / b.size(); for (size_t j = 0; j < n; ++j) r[i] += A[k][i * n + j] * p[k][j]; } } if (J) for (size_t k = 0; k < A.size(); ++k) if (J[k]) for (size_t j = 0; j < A[k].size(); ++j) J[k][j] = A[k][j]; if (c == nanAt) r[0] = std::numeric_limits<double>::quiet_NaN(); return true; } };
struct World { double x[1], y[2], z[1], x0[1], y0[2], z0[1], b1[2], b2[2], b3[1]; Problem P; Solver::Options o; Solver::Summary S; bool useZ = true; ResidualBlockId r1, r2, r3;
  // r1 = 2 x + y0 - b, 0 x + y1 - b ; r2 = 3 z - y1 ... ; r3 = x - b3
  explicit World(int vars = 1, const Problem::Options& po = Problem::Options()) : P(po) { x0[0] = x[0] = vars > 1 ? vp_real_in("x", -10, 10) : 0.25; for (int i = 0; i < 2; ++i) { y0[i] = y[i] = vars > 3 ? vp_real_in("y", -10, 10) : 1.5 - i; b1[i] = i ? -1 : vp_real_in("b", -10, 10); b2[i] = i ? 1 : 2; } z0[0] = z[0] = vars > 2 ? vp_real_in("z", -10, 10) : -0.5; b3[0] = 0.5; watch[0] = x; watch[1] = y; watch[2] = z; watchn[0] = watchn[2] = 1; watchn[1] = 2;
    auto* f1 = new Lin({{2, 1}, {1, 0, 0, 1}}, {b1[0], b1[1]}); f1->blocks = {0, 1}; auto* f2 = new Lin({{3, 1}, {0, -1, 1, 0}}, {b2[0], b2[1]}); f2->blocks = {2, 1}; auto* f3 = new Lin({{1}}, {b3[0]}); f3->blocks = {0}; r1 = P.AddResidualBlock(f1, nullptr, x, y); r2 = P.AddResidualBlock(f2, nullptr, z, y); r3 = P.AddResidualBlock(f3, nullptr, x);
    o.linear_solver_type = DENSE_NORMAL_CHOLESKY; o.jacobi_scaling = false; o.logging_type = SILENT; o.max_num_iterations = 1; o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0; o.initial_trust_region_radius = 4; o.min_lm_diagonal = o.max_lm_diagonal = 1; o.line_search_direction_type = STEEPEST_DESCENT; o.line_search_type = ARMIJO; o.line_search_interpolation_type = BISECTION; o.max_num_line_search_step_size_iterations = 2; o.line_search_sufficient_function_decrease = 1e-4; }
  double cost(const double* a, const double* b, const double* c) const { double u = 2 * a[0] + b[0] - b1[0], v = a[0] + b[1] - b1[1], w = 3 * c[0] - b[1] - b2[0], t = c[0] + b[0] - b2[1], s = a[0] - b3[0]; return 0.5 * (u * u + v * v + w * w + t * t + s * s); }
  double costNow() const { return cost(x, y, z); } double costStart() const { return cost(x0, y0, z0); }
  void untouched(const char* id) { vp_check_eq(x[0], x0[0], id); for (int i = 0; i < 2; ++i) vp_check_eq(y[i], y0[i], id); vp_check_eq(z[0], z0[0], id); }
  // The problem still is what it was: order, sizes, cost at the user's memory.
  void intact() { mustPrepare = false; failAt = nanAt = -1; std::vector<double*> pb; P.GetParameterBlocks(&pb); vp_check(pb.size() == 3 && pb[0] == x && pb[1] == y && pb[2] == z, "order of the blocks"); std::vector<ResidualBlockId> rb; P.GetResidualBlocks(&rb); vp_check(rb.size() == 3 && rb[0] == r1 && rb[1] == r2 && rb[2] == r3, "order of the residuals"); double c = -1, g[4] = {9, 9, 9, 9}; std::vector<double> gr; vp_check(P.Evaluate(Problem::EvaluateOptions(), &c, nullptr, nullptr, nullptr), "still evaluates"); vp_check_eq(c, costNow(), "cost at the user's values"); } };
static const double nan_ = std::numeric_limits<double>::quiet_NaN(), inf_ = std::numeric_limits<double>::infinity();
// @run refused jobs=8
extern "C" void refused() { World w; int why = vp_choose("why", 7); w.o.minimizer_type = vp_choose("minimizer", 2) ? TRUST_REGION : LINE_SEARCH; bool tr = w.o.minimizer_type == TRUST_REGION; double bad = vp_choose("bad", 2) ? nan_ : inf_;
  if (why == 0) w.o.max_num_iterations = -1; if (why == 1) w.y[1] = w.y0[1] = bad; if (why == 2) { if (!tr) w.P.SetParameterLowerBound(w.y, 1, -20); else { w.P.SetParameterLowerBound(w.y, 1, 1); w.P.SetParameterUpperBound(w.y, 1, 0.75); } } if (why == 3) { if (!tr) vp_end(); w.P.SetParameterLowerBound(w.x, 0, 7); w.P.SetParameterUpperBound(w.x, 0, 6.5); } if (why == 4) failAt = vp_choose("call", 3); if (why == 5) nanAt = vp_choose("call", 3); if (why == 6) { if (!tr) vp_end(); w.o.linear_solver_type = SPARSE_NORMAL_CHOLESKY; w.o.sparse_linear_algebra_library_type = SUITE_SPARSE; }
  w.o.update_state_every_iteration = vp_choose("update", 2); Solve(w.o, &w.P, &w.S); vp_check(w.S.termination_type == FAILURE && !w.S.IsSolutionUsable(), "failure"); vp_check(!w.S.message.empty(), "with a message"); vp_check(w.S.iterations.empty(), "no iterations"); if (why == 1) { vp_check(w.x[0] == w.x0[0] && w.y[0] == w.y0[0] && w.z[0] == w.z0[0] && !std::isfinite(w.y[1]), "untouched"); return; } w.untouched("untouched"); w.intact(); }
// @run refusedConstant
extern "C" void refusedConstant() { World w; int tr = vp_choose("minimizer", 2); w.o.minimizer_type = tr ? TRUST_REGION : LINE_SEARCH; if (!tr) { w.P.SetParameterBlockConstant(w.y); w.y[1] = nan_; Solve(w.o, &w.P, &w.S); vp_check(w.S.termination_type == FAILURE, "constant blocks must be finite too"); return; } w.P.SetParameterLowerBound(w.z, 0, 11); w.P.SetParameterBlockConstant(w.z); Solve(w.o, &w.P, &w.S); vp_check(w.S.termination_type == FAILURE, "infeasible constant"); w.untouched("untouched"); w.intact(); }
struct Call : IterationCallback { World* w; int at = -1, answer = 0; bool update = false; int n = 0; bool operated = false; double vx = 0, vc = 0; CallbackReturnType operator()(const IterationSummary& s) override { vp_check(s.iteration == n, "called once per iteration"); if (update) vp_check_eq(s.cost, w->costNow(), "current state visible"); else w->untouched("state hidden"); if (n++ == at) return answer ? SOLVER_TERMINATE_SUCCESSFULLY : SOLVER_ABORT; return SOLVER_CONTINUE; } };
static void finished(World& w) { auto& S = w.S; vp_check_eq(S.initial_cost, w.costStart(), "initial cost"); if (S.IsSolutionUsable()) { vp_check_eq(S.final_cost, w.costNow(), "final cost is that of the result"); vp_check(S.final_cost <= S.initial_cost, "never worse"); } else w.untouched("failures restore the start"); vp_check(S.IsSolutionUsable() == (S.termination_type == CONVERGENCE || S.termination_type == NO_CONVERGENCE || S.termination_type == USER_SUCCESS), "usable"); w.intact(); }
// @run stops jobs=8
extern "C" void stops() { World w; w.o.minimizer_type = vp_choose("minimizer", 2) ? TRUST_REGION : LINE_SEARCH; Call c; c.w = &w; c.at = vp_choose("at", 3) - 1; c.answer = vp_choose("answer", 2); c.update = w.o.update_state_every_iteration = vp_choose("update", 2); w.o.callbacks.push_back(&c); if (w.o.minimizer_type == LINE_SEARCH) for (auto* p : {w.x, w.z}) w.P.SetParameterBlockConstant(p); Solve(w.o, &w.P, &w.S);
  if (w.S.termination_type == FAILURE) vp_check(w.o.minimizer_type == LINE_SEARCH, "only a line search may find no step"); else if (c.n == c.at + 1 && c.at >= 0) vp_check(w.S.termination_type == (c.answer ? USER_SUCCESS : USER_FAILURE), "stopped by the user"); else vp_check(w.S.termination_type == NO_CONVERGENCE || w.S.termination_type == CONVERGENCE, "ran out"); finished(w); }
// @run stops2 jobs=8 tier=thorough
extern "C" void stops2() { World w(2); w.o.minimizer_type = vp_choose("minimizer", 2) ? TRUST_REGION : LINE_SEARCH; Call c; c.w = &w; c.update = w.o.update_state_every_iteration = vp_choose("update", 2); w.o.callbacks.push_back(&c); Solve(w.o, &w.P, &w.S); finished(w); }
// @run fails jobs=8
extern "C" void fails() { World w; w.o.minimizer_type = TRUST_REGION; failAt = 3 + vp_choose("call", 6); w.o.max_num_iterations = 2; w.o.update_state_every_iteration = vp_choose("update", 2); Solve(w.o, &w.P, &w.S); finished(w); }
// @run constant jobs=8
extern "C" void constant() { World w; int mask = vp_choose("mask", 8), sub = vp_choose("subset", 2); bool cx = mask & 1, cy = mask & 2, cz = mask & 4; if (cx) w.P.SetParameterBlockConstant(w.x); if (cy) w.P.SetParameterBlockConstant(w.y); if (cz) w.P.SetParameterBlockConstant(w.z); if (sub) w.P.SetManifold(w.y, new SubsetManifold(2, {1})); w.o.minimizer_type = TRUST_REGION; Solve(w.o, &w.P, &w.S); auto& S = w.S; finished(w);
  if (cx) vp_check_eq(w.x[0], w.x0[0], "constant block"); if (cy) vp_check_eq(w.y[0], w.y0[0], "constant block"); if (cy || sub) vp_check_eq(w.y[1], w.y0[1], "constant coordinate"); if (cz) vp_check_eq(w.z[0], w.z0[0], "constant block");
  double u = 2 * w.x0[0] + w.y0[0] - w.b1[0], v = w.x0[0] + w.y0[1] - w.b1[1], q = 3 * w.z0[0] - w.y0[1] - w.b2[0], t = w.z0[0] + w.y0[0] - w.b2[1], s = w.x0[0] - w.b3[0]; double fixed = (cx && cy ? u * u + v * v : 0) + (cz && cy ? q * q + t * t : 0) + (cx ? s * s : 0); vp_check_eq(S.fixed_cost, 0.5 * fixed, "fixed cost");
  vp_check(S.num_parameter_blocks == 3 && S.num_parameters == 4 && S.num_effective_parameters == 4 - sub && S.num_residual_blocks == 3 && S.num_residuals == 5, "size of the problem"); vp_check(S.num_parameter_blocks_reduced == !cx + !cy + !cz && S.num_parameters_reduced == !cx + 2 * !cy + !cz && S.num_effective_parameters_reduced == !cx + (2 - sub) * !cy + !cz, "reduced size"); vp_check(S.num_residual_blocks_reduced == 3 - (cx && cy) - (cz && cy) - cx && S.num_residuals_reduced == 5 - 2 * (cx && cy) - 2 * (cz && cy) - cx, "reduced residuals"); if (mask == 7) { vp_check(S.termination_type == CONVERGENCE && S.iterations.empty(), "nothing to do"); vp_check_eq(S.final_cost, w.costStart(), "cost without variables"); } }
// @run unused
extern "C" void unused() { World w; double q[2] = {5, 6}; w.P.AddParameterBlock(q, 2); w.o.minimizer_type = TRUST_REGION; Solve(w.o, &w.P, &w.S); vp_check(q[0] == 5 && q[1] == 6, "unused block untouched"); vp_check(w.S.num_parameter_blocks == 4 && w.S.num_parameter_blocks_reduced == 3, "unused block removed"); vp_check_eq(w.S.final_cost, w.costNow(), "final cost"); }
struct Prep : EvaluationCallback { World* w; void PrepareForEvaluation(bool, bool) override { prepared = true; } };
// @run prepares
extern "C" void prepares() { Prep cb; Problem::Options po; po.evaluation_callback = &cb; World w(1, po); cb.w = &w; mustPrepare = true; prepared = false; w.o.minimizer_type = TRUST_REGION; w.o.update_state_every_iteration = vp_choose("update", 2); failAt = vp_choose("fail", 2) ? 3 + vp_choose("call", 2) : -1; Solve(w.o, &w.P, &w.S); finished(w); }
// One Levenberg-Marquardt step from the solution of (A'A + D^2) d = -A'r, whatever exact solver is asked for.
static void step(World& w) { const double J[5][4] = {{2, 1, 0, 0}, {1, 0, 1, 0}, {0, 0, -1, 3}, {0, 1, 0, 1}, {1, 0, 0, 0}}; double X0[4] = {w.x0[0], w.y0[0], w.y0[1], w.z0[0]}, X[4] = {w.x[0], w.y[0], w.y[1], w.z[0]}, b[5] = {w.b1[0], w.b1[1], w.b2[0], w.b2[1], w.b3[0]}; for (int i = 0; i < 4; ++i) { double e = 0.25 * (X[i] - X0[i]); for (int r = 0; r < 5; ++r) { double m = -b[r]; for (int k = 0; k < 4; ++k) m += J[r][k] * X[k]; e += J[r][i] * m; } vp_check_eq(e, 0, "the damped normal equations"); } }
// @run solvers jobs=8
extern "C" void solvers() { World w; vp_assume(w.b1[0] >= 6); static const LinearSolverType T[] = {DENSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_NORMAL_CHOLESKY, SPARSE_SCHUR}; int k = vp_choose("solver", 4), ord = vp_choose("ordering", 4); w.o.linear_solver_type = T[k]; w.o.minimizer_type = TRUST_REGION; w.o.dynamic_sparsity = k == 2 && vp_choose("dynamic", 2); w.o.num_threads = 1; if (ord) { auto* g = new ParameterBlockOrdering; g->AddElementToGroup(w.x, ord == 1 ? 0 : 1); g->AddElementToGroup(w.z, ord == 1 ? 0 : ord == 2 ? 1 : 2); g->AddElementToGroup(w.y, ord == 1 ? 1 : 0); w.o.linear_solver_ordering.reset(g); } Solve(w.o, &w.P, &w.S); vp_check(w.S.linear_solver_type_given == T[k], "solver as given"); finished(w); if (w.S.num_successful_steps == 2 || w.S.num_successful_steps == 1) step(w); else vp_check(w.S.termination_type == CONVERGENCE, "no step only at the solution"); }
struct Quad : FirstOrderFunction { double a, b; int n = 0, bad = -1; mutable int c = 0; bool Evaluate(const double* p, double* f, double* g) const override { if (c++ == bad) return false; *f = 0.5 * (2 * p[0] - a) * (2 * p[0] - a) + 0.5 * (p[1] - b) * (p[1] - b); if (g) { g[0] = 2 * (2 * p[0] - a); g[1] = p[1] - b; } return true; } int NumParameters() const override { return 2; } };
struct GCall : IterationCallback { const double *p, *p0; Quad* q; bool update; int at = -1, answer = 0, n = 0; CallbackReturnType operator()(const IterationSummary& s) override { if (update) { double f = 0.5 * (2 * p[0] - q->a) * (2 * p[0] - q->a) + 0.5 * (p[1] - q->b) * (p[1] - q->b); vp_check_eq(f, s.cost, "current state visible"); } else for (int i = 0; i < 2; ++i) vp_check_eq(p[i], p0[i], "state hidden"); if (n++ == at) return answer ? SOLVER_TERMINATE_SUCCESSFULLY : SOLVER_ABORT; return SOLVER_CONTINUE; } };
// @run gradient jobs=8
extern "C" void gradient() { auto* q = new Quad; q->a = vp_real_in("a", -4, 4); q->b = 1; GradientProblem P{std::unique_ptr<FirstOrderFunction>(q)}; GradientProblemSolver::Options o; o.line_search_direction_type = STEEPEST_DESCENT; o.line_search_type = ARMIJO; o.line_search_interpolation_type = BISECTION; o.max_num_line_search_step_size_iterations = 2; o.max_num_iterations = 1; o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0; o.logging_type = SILENT; int why = vp_choose("why", 4); double p[2] = {vp_real_in("x", -4, 4), 3}, p0[2] = {p[0], p[1]}; GCall c; c.p = p; c.p0 = p0; c.q = q; c.update = o.update_state_every_iteration = vp_choose("update", 2); o.callbacks.push_back(&c); if (why == 1) q->bad = vp_choose("call", 4); if (why == 2) { c.at = vp_choose("at", 2); c.answer = vp_choose("answer", 2); } if (why == 3) o.max_num_iterations = -1; GradientProblemSolver::Summary S; GradientProblemSolver solver; solver.Solve(o, P, p, &S); auto f = [&](const double* v) { return 0.5 * (2 * v[0] - q->a) * (2 * v[0] - q->a) + 0.5 * (v[1] - q->b) * (v[1] - q->b); };
  vp_check(S.num_parameters == 2 && S.num_tangent_parameters == 2, "sizes"); if (why == 3) { vp_check(S.termination_type == FAILURE && c.n == 0 && q->c == 0, "invalid options"); for (int i = 0; i < 2; ++i) vp_check_eq(p[i], p0[i], "untouched"); return; } if (S.IsSolutionUsable()) { vp_check_eq(S.initial_cost, f(p0), "initial cost"); vp_check_eq(S.final_cost, f(p), "final cost"); vp_check(S.final_cost <= S.initial_cost, "never worse"); } else if (!c.update) for (int i = 0; i < 2; ++i) vp_check_eq(p[i], p0[i], "failures leave the start"); }
// A curved residual, so that steps may be rejected although they lower the cost.
struct Curve : CostFunction { double b; explicit Curve(double b) : b(b) { set_num_residuals(1); mutable_parameter_block_sizes()->push_back(1); } bool Evaluate(double const* const* p, double* r, double** J) const override { double x = p[0][0]; r[0] = x * x - b; if (J && J[0]) J[0][0] = 2 * x; return true; } };
// @run rejected jobs=8
extern "C" void rejected() { double x[1] = {1}, b = vp_real_in("b", -3, 60); Problem P; P.AddResidualBlock(new Curve(b), nullptr, x); Solver::Options o; o.linear_solver_type = DENSE_QR; o.jacobi_scaling = false; o.logging_type = SILENT; o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0; o.initial_trust_region_radius = 4; o.min_lm_diagonal = o.max_lm_diagonal = 1; static const double q[] = {1e-3, 0.25, 0.75}; o.min_relative_decrease = q[vp_choose("quality", 3)]; o.max_num_iterations = 1; o.use_nonmonotonic_steps = vp_choose("nonmonotonic", 2); Solver::Summary S; Solve(o, &P, &S); double r = x[0] * x[0] - b, r0 = 1 - b; vp_check_eq(S.initial_cost, 0.5 * r0 * r0, "initial cost"); if (S.IsSolutionUsable()) { vp_check(ab(S.final_cost - 0.5 * r * r) <= 1e-6, "final cost is that of the result"); vp_check(S.final_cost <= S.initial_cost, "never worse"); } else vp_check(x[0] == 1, "failures restore the start"); if (S.num_successful_steps == 1) vp_check(x[0] == 1, "nothing was accepted"); }
