// Gradient problems: the minimizer gets exactly the problem and options of the user, and the user exactly its outcome.
#include "vp.h"
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include "ceres/evaluator.h"
#include "ceres/first_order_function.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "ceres/manifold.h"
#include "ceres/minimizer.h"
#include "ceres/sparse_matrix.h"
#include "ceres/types.h"
// @bound functions of 1 to 3 parameters, manifolds of every smaller tangent size; every valid option value; minimizers that make up to 2 (thorough 4) iterations of any kind with any costs and end in any way
using namespace ceres; using namespace ceres::internal;
// The minimizer is the harness: what it is given is checked, what it does is chosen.
struct Script { virtual ~Script() = default; virtual void run(const Minimizer::Options&, double*, Solver::Summary*) = 0; int runs = 0; };
static Script* script; static MinimizerType made;
struct Scripted : Minimizer { void Minimize(const Options& o, double* x, Solver::Summary* s) override { ++script->runs; script->run(o, x, s); } };
namespace ceres::internal { std::unique_ptr<Minimizer> Minimizer::Create(MinimizerType t) { made = t; return std::make_unique<Scripted>(); } Minimizer::~Minimizer() = default; bool Minimizer::RunCallbacks(const Options&, const IterationSummary&, Solver::Summary*) { return true; } }
static int b(const char* n) { return vp_int(n, 0, 1); }
template <class T> static T pick(const char* n, int count) { return static_cast<T>(vp_int(n, 0, count - 1)); }
// A function whose values are made up anew for every call, so that nothing can be confused.
struct Fn : FirstOrderFunction { int n; mutable int calls = 0; int fail = -1; mutable double x[3], f, g[3]; mutable bool wanted; explicit Fn(int n) : n(n) {} int NumParameters() const override { return n; }
  bool Evaluate(const double* p, double* cost, double* grad) const override { for (int i = 0; i < n; ++i) x[i] = p[i]; wanted = grad != nullptr; f = vp_real("f"); *cost = f; for (int i = 0; i < n; ++i) { g[i] = vp_real("g"); if (grad) grad[i] = g[i]; } return calls++ != fail; } };
// Plus(x, d) = x + B(x) d with B the chosen matrix; it may fail.
struct Lin : Manifold { int n, m; double B[3][3]; int fail = 0; mutable int plusses = 0; Lin(int n, int m) : n(n), m(m) { for (auto& r : B) for (double& v : r) v = vp_real("B"); } int AmbientSize() const override { return n; } int TangentSize() const override { return m; }
  bool Plus(const double* x, const double* d, double* y) const override { ++plusses; for (int i = 0; i < n; ++i) { double s = x[i]; for (int j = 0; j < m; ++j) s += B[i][j] * d[j]; y[i] = s; } return fail != 1; }
  bool PlusJacobian(const double*, double* J) const override { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) J[i * m + j] = B[i][j]; return fail != 2; }
  bool Minus(const double*, const double*, double*) const override { return false; } bool MinusJacobian(const double*, double*) const override { return false; } };
// Every option arrives as it was given.
struct Compare : Script { const GradientProblemSolver::Options* o; int extra; void run(const Minimizer::Options& m, double*, Solver::Summary* s) override {
#define DS(X) X(max_solver_time_in_seconds, 0, 1e6) X(gradient_tolerance, 0, 1) X(parameter_tolerance, 0, 1) X(function_tolerance, 0, 1) X(min_line_search_step_size, 1e-9, 1) X(line_search_sufficient_function_decrease, 1e-6, 0.3) X(max_line_search_step_contraction, 1e-3, 0.3) X(min_line_search_step_contraction, 0.4, 1) X(line_search_sufficient_curvature_decrease, 0.4, 0.9) X(max_line_search_step_expansion, 2, 50)
#define IS(X) X(max_num_iterations, 0, 1000) X(max_lbfgs_rank, 1, 1000) X(max_num_line_search_step_size_iterations, 1, 1000) X(max_num_line_search_direction_restarts, 0, 1000)
#define EQD(f, lo, hi) vp_check_eq(m.f, o->f, #f);
#define EQI(f, lo, hi) vp_check(m.f == o->f, #f);
  DS(EQD) IS(EQI) vp_check(m.use_approximate_eigenvalue_bfgs_scaling == o->use_approximate_eigenvalue_bfgs_scaling, "scaling"); vp_check(m.line_search_direction_type == o->line_search_direction_type, "direction"); vp_check(m.line_search_type == o->line_search_type, "type"); vp_check(m.line_search_interpolation_type == o->line_search_interpolation_type, "interpolation"); vp_check(m.nonlinear_conjugate_gradient_type == o->nonlinear_conjugate_gradient_type, "conjugate gradients");
  vp_check(m.is_silent == (o->logging_type == SILENT), "logging"); vp_check(!m.is_constrained, "no bounds"); vp_check(m.callbacks.size() == o->callbacks.size() + extra, "callbacks"); for (size_t i = 0; i < o->callbacks.size(); ++i) vp_check(m.callbacks[i + extra] == o->callbacks[i], "callbacks of the user, in order, last"); vp_check(m.evaluator != nullptr && !m.jacobian && !m.inner_iteration_minimizer, "an evaluator and nothing else"); s->termination_type = CONVERGENCE; s->message = "fine"; s->initial_cost = 1; } };
struct Quiet : IterationCallback { CallbackReturnType operator()(const IterationSummary&) override { return SOLVER_CONTINUE; } };
// @run options jobs=8
extern "C" void options() { GradientProblemSolver::Options o;
#define SETD(f, lo, hi) o.f = vp_real_in(#f, lo, hi);
#define SETI(f, lo, hi) o.f = vp_int(#f, lo, hi);
  DS(SETD) IS(SETI) o.use_approximate_eigenvalue_bfgs_scaling = b("scaling"); o.line_search_direction_type = static_cast<LineSearchDirectionType>(vp_choose("direction", 4)); o.line_search_type = o.line_search_direction_type == LBFGS || o.line_search_direction_type == BFGS ? WOLFE : static_cast<LineSearchType>(vp_choose("type", 2)); o.line_search_interpolation_type = pick<LineSearchInterpolationType>("interpolation", 3); o.nonlinear_conjugate_gradient_type = pick<NonlinearConjugateGradientType>("cg", 3); o.logging_type = vp_choose("silent", 2) ? SILENT : PER_MINIMIZER_ITERATION; o.update_state_every_iteration = vp_choose("update", 2); Quiet c[2]; int n = vp_choose("callbacks", 3); for (int i = 0; i < n; ++i) o.callbacks.push_back(&c[i]);
  GradientProblem P(std::make_unique<Fn>(2)); Compare s; s.o = &o; s.extra = (o.logging_type != SILENT) + o.update_state_every_iteration; script = &s; double x[2] = {vp_real("x"), vp_real("x")}, x0[2] = {x[0], x[1]}; GradientProblemSolver::Summary S; GradientProblemSolver solver; solver.Solve(o, P, x, &S); vp_check(s.runs == 1 && made == LINE_SEARCH, "one run of a line search"); vp_check(o.callbacks.size() == (size_t)n, "options of the user untouched");
  vp_check(S.line_search_direction_type == o.line_search_direction_type && S.line_search_type == o.line_search_type && S.line_search_interpolation_type == o.line_search_interpolation_type && S.nonlinear_conjugate_gradient_type == o.nonlinear_conjugate_gradient_type && S.max_lbfgs_rank == o.max_lbfgs_rank, "choices reported"); vp_check(S.termination_type == CONVERGENCE && S.message == "fine", "outcome"); for (int i = 0; i < 2; ++i) vp_check_eq(x[i], x0[i], "no step, no change"); }
// The evaluator is the problem: cost, gradient in the tangent space, Plus, failures and counts.
struct Probe : Script { const Fn* f; const Lin* l; int n, m, kind[3]; double x0[3]; void run(const Minimizer::Options& o, double* x, Solver::Summary* s) override { auto& e = *o.evaluator; for (int i = 0; i < n; ++i) vp_check_eq(x[i], x0[i], "starts at the parameters of the user"); vp_check(e.NumParameters() == n && e.NumEffectiveParameters() == m && e.NumResiduals() == 1, "sizes");
    for (int k = 0; k < 3; ++k) { double y[3], c = -7, g[5] = {9, 9, 9, 9, 9}, z[4] = {9, 9, 9, 9}; for (int i = 0; i < n; ++i) y[i] = vp_real("y"); Evaluator::EvaluateOptions eo; if (kind[k] < 2) { int before = f->calls; bool ok = e.Evaluate(eo, y, &c, nullptr, kind[k] ? g + 1 : nullptr, nullptr); vp_check(f->calls == before + 1, "one call"); vp_check(f->wanted == (kind[k] == 1), "gradient only when asked for"); for (int i = 0; i < n; ++i) vp_check_eq(f->x[i], y[i], "at the point asked for"); bool want = f->fail != before && !(kind[k] && l && l->fail == 2); vp_check(ok == want, "failures are passed on"); if (ok) { vp_check_eq(c, f->f, "cost"); for (int j = 0; kind[k] && j < m; ++j) { double t = l ? 0 : f->g[j]; for (int i = 0; l && i < n; ++i) t += f->g[i] * l->B[i][j]; vp_check_eq(g[1 + j], t, "gradient in the tangent space"); } } vp_check(g[0] == 9 && g[1 + m] == 9, "only the gradient is written"); }
      else { double d[3]; for (int j = 0; j < m; ++j) d[j] = vp_real("d"); bool ok = e.Plus(y, d, z); vp_check(ok == !(l && l->fail == 1), "failures of Plus are passed on"); for (int i = 0; ok && i < n; ++i) { double t = y[i]; for (int j = 0; j < m; ++j) t += l ? l->B[i][j] * d[j] : i == j ? d[j] : 0; vp_check_eq(z[i], t, "Plus"); } vp_check(z[n] == 9, "only the result is written"); } }
    s->termination_type = NO_CONVERGENCE; s->initial_cost = 3; } };
// @run evaluates jobs=8
extern "C" void evaluates() { int n = 1 + vp_choose("parameters", 3), m = vp_choose("manifold", n + 1); auto* f = new Fn(n); Lin* l = nullptr; std::unique_ptr<GradientProblem> P; if (m == 0) { m = n; P = std::make_unique<GradientProblem>(std::unique_ptr<FirstOrderFunction>(f)); } else { l = new Lin(n, m); l->fail = vp_choose("manifold fails", 3); P = std::make_unique<GradientProblem>(std::unique_ptr<FirstOrderFunction>(f), std::unique_ptr<Manifold>(l)); } vp_check(P->NumParameters() == n && P->NumTangentParameters() == m, "sizes of the problem"); Probe s; s.f = f; s.l = l; s.n = n; s.m = m; for (int& k : s.kind) k = vp_choose("call", 3); f->fail = vp_choose("function fails", 4) - 1; double x[4] = {vp_real("x"), vp_real("x"), vp_real("x"), 5}; for (int i = 0; i < n; ++i) s.x0[i] = x[i]; script = &s; GradientProblemSolver::Options o; o.logging_type = SILENT; GradientProblemSolver::Summary S; ceres::Solve(o, *P, x, &S); int plain = 0, grad = 0; for (int k : s.kind) { plain += k == 0; grad += k == 1; }
  vp_check(S.num_cost_evaluations == plain && S.num_gradient_evaluations == grad, "evaluations counted"); vp_check(S.num_parameters == n && S.num_tangent_parameters == m, "sizes reported"); vp_check_eq(S.initial_cost, 3, "initial cost"); vp_check_eq(S.final_cost, 3, "no step, no change of cost"); vp_check(S.iterations.empty() && S.termination_type == NO_CONVERGENCE, "outcome"); for (int i = 0; i < n; ++i) vp_check_eq(x[i], s.x0[i], "parameters unchanged"); vp_check(x[3] == 5, "nothing else is written"); }
// Whatever the minimizer does, the user sees it and nothing else.
static const int N = 2;
struct Watch : IterationCallback { const double* user; const double* expect; int seen = 0; const IterationSummary* now = nullptr; CallbackReturnType operator()(const IterationSummary& s) override { ++seen; vp_check(&s == now, "the record of this iteration"); for (int i = 0; i < N; ++i) vp_check_eq(user[i], expect[i], "parameters as the user should see them"); return SOLVER_CONTINUE; } };
struct Act : Script { int steps; bool update; Watch* w[2]; double visible[N], last[N], first[N], lowest, initial; TerminationType end; std::vector<double> costs; void run(const Minimizer::Options& o, double* x, Solver::Summary* s) override { for (int i = 0; i < N; ++i) { vp_check_eq(x[i], first[i], "the start"); visible[i] = first[i]; } s->initial_cost = lowest = initial = vp_real("initial"); for (int k = 0; k < steps; ++k) { IterationSummary it; it.iteration = k; it.step_is_successful = vp_choose("accepted", 2); it.cost = vp_real("cost"); costs.push_back(it.cost); if (it.step_is_successful) { for (int i = 0; i < N; ++i) x[i] = vp_real("step"); if (it.cost < lowest) lowest = it.cost; } if (update && it.step_is_successful) for (int i = 0; i < N; ++i) visible[i] = x[i]; s->iterations.push_back(it); for (auto* c : w) c->now = &it; for (auto* c : o.callbacks) vp_check((*c)(it) == SOLVER_CONTINUE, "go on"); }
    for (int i = 0; i < N; ++i) last[i] = x[i]; s->termination_type = end; s->message = "because"; s->line_search_polynomial_minimization_time_in_seconds = 0.25; } };
static void outcome(int most) { static const TerminationType T[] = {CONVERGENCE, NO_CONVERGENCE, FAILURE, USER_SUCCESS, USER_FAILURE}; Act a; a.steps = vp_choose("steps", most + 1); a.end = T[vp_choose("end", 5)]; double x[N + 2] = {3}; for (int i = 0; i < N; ++i) a.first[i] = x[1 + i] = vp_real("x"); x[N + 1] = 4; GradientProblemSolver::Options o; o.logging_type = SILENT; a.update = o.update_state_every_iteration = vp_choose("update", 2); Watch w[2]; for (int i = 0; i < 2; ++i) { w[i].user = x + 1; w[i].expect = a.visible; a.w[i] = &w[i]; o.callbacks.push_back(&w[i]); } script = &a; GradientProblem P(std::make_unique<Fn>(N)); GradientProblemSolver::Summary S; S.message = "old"; S.iterations.resize(3); S.final_cost = 77; GradientProblemSolver solver; solver.Solve(o, P, x + 1, &S);
  vp_check(S.termination_type == a.end && S.message == "because", "how it ended"); vp_check_eq(S.initial_cost, a.initial, "initial cost"); vp_check((int)S.iterations.size() == a.steps && w[0].seen == a.steps && w[1].seen == a.steps, "one record and call per iteration"); for (int k = 0; k < a.steps; ++k) { vp_check(S.iterations[k].iteration == k, "order of the records"); vp_check_eq(S.iterations[k].cost, a.costs[k], "record"); } bool usable = a.end == CONVERGENCE || a.end == NO_CONVERGENCE || a.end == USER_SUCCESS; vp_check(S.IsSolutionUsable() == usable, "usable"); for (int i = 0; i < N; ++i) vp_check_eq(x[1 + i], usable ? a.last[i] : a.visible[i], "parameters at the end"); if (usable) vp_check_eq(S.final_cost, a.lowest, "final cost"); vp_check(x[0] == 3 && x[N + 1] == 4, "nothing else is written"); vp_check_eq(S.line_search_polynomial_minimization_time_in_seconds, 0.25, "time"); }
// @run outcomes jobs=8
extern "C" void outcomes() { outcome(2); }
// @run outcomes4 jobs=8 tier=thorough
extern "C" void outcomes4() { outcome(4); }
// A solver that has been used leaves nothing behind for the next problem, and refused options never reach the minimizer.
// @run refused jobs=8
extern "C" void refused() { GradientProblemSolver::Options o; o.logging_type = SILENT; o.update_state_every_iteration = vp_choose("update", 2); switch (vp_choose("bad", 9)) { case 0: o.max_num_iterations = -1; break; case 1: o.max_lbfgs_rank = 0; break; case 2: o.function_tolerance = -1; break; case 3: o.line_search_type = ARMIJO; break; case 4: o.max_num_line_search_step_size_iterations = 0; break; case 5: o.min_line_search_step_size = 0; break; case 6: o.max_line_search_step_expansion = 1; break; case 7: o.max_solver_time_in_seconds = -1; break; case 8: o.line_search_sufficient_curvature_decrease = 1; break; }
  auto* f = new Fn(2); GradientProblem P{std::unique_ptr<FirstOrderFunction>(f)}; Compare s; s.o = &o; script = &s; Quiet c; o.callbacks.push_back(&c); double x[2] = {vp_real("x"), vp_real("x")}, x0[2] = {x[0], x[1]}; GradientProblemSolver::Summary S; S.termination_type = CONVERGENCE; S.iterations.resize(2); GradientProblemSolver solver; solver.Solve(o, P, x, &S); vp_check(s.runs == 0 && f->calls == 0, "nothing runs"); vp_check(S.termination_type == FAILURE && !S.IsSolutionUsable() && !S.message.empty() && S.iterations.empty(), "a failure with a reason"); for (int i = 0; i < 2; ++i) vp_check_eq(x[i], x0[i], "parameters untouched"); }
