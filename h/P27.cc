// The line search minimizer: what it accepts, reports and returns, for arbitrary evaluators and failures.
#include "vp.h"
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "ceres/evaluator.h"
#include "ceres/line_search_minimizer.h"
#include "ceres/minimizer.h"
#include "ceres/solver.h"
// @bound 2 or 3 iterations (thorough: 4) with up to 2 trials per line search over 1 or 2 tangent parameters; arbitrary start, costs, tolerances and clock readings, gradients from a fixed set (arbitrary in the first iteration), every failing call and every callback answer; directions and the line search itself are decided by P26 and P24
using namespace ceres; using namespace ceres::internal;
static double clockv = 0, firstRead = -1, lastRead = -1; static int clockmode = 0;
extern "C" double vp_clock_now() { if (clockmode) clockv += vp_real_in("dt", 0, 10); if (firstRead < 0) firstRead = clockv; lastRead = clockv; return clockv; }
static int N = 1, E = 1; static bool symg = false, wolfe = false; static int failing = 0, maxFail = 1, nfail = 0;
static bool fails(const char* n) { if (!failing || nfail >= maxFail) return false; bool f = vp_choose(n, 2); nfail += f; return f; }
struct Event { int kind; std::vector<double> x, d, out, g; double cost; bool ok, fresh, grad; }; // kind 0 Plus, 1 Evaluate
static std::vector<Event> ev; static const double G[2][2] = {{-4, 2}, {0.25, 1}};
static std::vector<double> plus(const std::vector<double>& x, const std::vector<double>& d) { std::vector<double> o(N); for (int i = 0; i < N; ++i) o[i] = x[i] + (i < E ? d[i] : 2 * d[0]); return o; }
struct Ev : Evaluator {
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  bool Evaluate(const EvaluateOptions& o, const double* x, double* cost, double* r, double* g, SparseMatrix* J) override { vp_check(cost && !r && !J && o.apply_loss_function, "requests"); Event e; e.kind = 1; e.x.assign(x, x + N); e.fresh = o.new_evaluation_point; e.grad = g != nullptr; e.ok = !fails("evaluation fails"); e.cost = -1; if (!e.fresh) for (size_t i = ev.size(); i-- > 0 && e.cost < 0;) if (ev[i].kind == 1) e.cost = ev[i].cost; if (e.cost < 0) e.cost = vp_real_in("cost", 0, 1e6); if (e.ok) { *cost = e.cost; if (g) { int k = ev.empty() && symg ? 2 : vp_choose("gradient", 2); for (int i = 0; i < E; ++i) e.g.push_back(g[i] = k == 2 ? (vp_choose("sign", 2) ? vp_real_in("g", -100, -0.01) : vp_real_in("g", 0.01, 100)) : G[k][i]); } } ev.push_back(e); return e.ok; }
  bool Plus(const double* x, const double* d, double* o) const override { Event e; e.kind = 0; e.x.assign(x, x + N); e.d.assign(d, d + E); e.ok = !fails("Plus fails"); if (e.ok) { e.out = plus(e.x, e.d); for (int i = 0; i < N; ++i) o[i] = e.out[i]; } ev.push_back(e); return e.ok; }
  int NumParameters() const override { return N; } int NumEffectiveParameters() const override { return E; } int NumResiduals() const override { return 1; }
};
struct Call : IterationCallback { std::vector<IterationSummary> seen; int answer = -1, at = -1; double* user = nullptr; std::vector<std::vector<double>> state; CallbackReturnType operator()(const IterationSummary& s) override { seen.push_back(s); state.emplace_back(user, user + N); if ((int)seen.size() - 1 == at) return answer == 0 ? SOLVER_ABORT : SOLVER_TERMINATE_SUCCESSFULLY; return SOLVER_CONTINUE; } };
struct World { Minimizer::Options o; Solver::Summary S; Call cb, cb2; std::vector<double> x, x0; double fixed = 0;
  World() { o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0; o.is_silent = true; o.max_solver_time_in_seconds = 1e9; o.line_search_direction_type = STEEPEST_DESCENT; o.line_search_type = ARMIJO; o.line_search_interpolation_type = BISECTION; o.min_line_search_step_size = 1e-9; o.line_search_sufficient_function_decrease = 0.25; o.max_line_search_step_contraction = 0.125; o.min_line_search_step_contraction = 0.75; o.max_num_line_search_step_size_iterations = 2; o.line_search_sufficient_curvature_decrease = 0.5; o.max_line_search_step_expansion = 4; o.max_num_line_search_direction_restarts = 1; o.max_lbfgs_rank = 3; }
  void run(int maxit) { o.max_num_iterations = maxit; o.evaluator = std::make_shared<Ev>(); for (int i = 0; i < N; ++i) x.push_back(vp_real_in("x", -100, 100)); x0 = x; cb.user = cb2.user = x.data(); o.callbacks = {&cb, &cb2}; S.fixed_cost = fixed; LineSearchMinimizer M; M.Minimize(o, x.data(), &S); } };
static double ab(double v) { return v < 0 ? -v : v; }
static void same(const std::vector<double>& a, const std::vector<double>& b, const char* id) { for (int i = 0; i < N; ++i) vp_check_eq(a[i], b[i], id); }
static double norm2(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (int i = 0; i < N; ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static double maxn(const std::vector<double>& a, const std::vector<double>& b) { double m = 0; for (int i = 0; i < N; ++i) if (ab(a[i] - b[i]) > m) m = ab(a[i] - b[i]); return m; }
static void verify(World& w) {
  auto& S = w.S; auto& o = w.o; auto& it = S.iterations; size_t p = 0; int type = S.termination_type; std::vector<double> cur = w.x0; auto next = [&](int kind, const char* id) -> Event& { static Event none; none.ok = false; none.x = none.d = none.out = none.g = std::vector<double>(2, 0.0); if (p >= ev.size() || ev[p].kind != kind) { vp_check(0, id); vp_end(); } return ev[p++]; };
  auto end = [&](size_t records) { vp_check(p == ev.size(), "nothing is called afterwards"); vp_check(it.size() == records, "one record per iteration"); vp_check(S.num_successful_steps == (int)(records ? records - 1 : 0) && S.num_unsuccessful_steps == 0, "step counts"); same(w.x, cur, "the last accepted point is returned"); };
  auto failed = [&](size_t records) { vp_check(type == FAILURE, "failure reported"); end(records); };
  Event& e0 = next(1, "evaluates"); same(e0.x, cur, "at the start"); vp_check(e0.fresh && e0.grad, "with the gradient"); if (!e0.ok) return failed(0); std::vector<double> g = e0.g; double cost = e0.cost; Event* pg = &next(0, "projected gradient"); auto along = [&](Event& e) { same(e.x, cur, "projected gradient at the point"); for (int i = 0; i < E; ++i) vp_check_eq(e.d[i], -g[i], "along the negative gradient"); }; along(*pg); if (!pg->ok) return failed(0); double gm = maxn(cur, pg->out); vp_check_eq(S.initial_cost, cost + w.fixed, "initial cost");
  if (gm <= o.gradient_tolerance) { vp_check(type == CONVERGENCE, "converged at the start"); return end(0); }
  auto record = [&](size_t k) { if (it.size() <= k) { vp_check(0, "one record per iteration"); vp_end(); } auto& I = it[k]; vp_check(I.iteration == (int)k && I.step_is_successful == (k > 0) && I.step_is_valid == (k > 0), "flags"); vp_check_eq(I.cost, cost + w.fixed, "cost of the record"); vp_check_eq(I.gradient_max_norm, gm, "gradient max norm"); if (N == 1) vp_check_eq(I.gradient_norm, gm, "gradient norm"); else vp_check_eq(I.gradient_norm * I.gradient_norm, norm2(cur, pg->out), "gradient norm"); }; record(0); double pcost = 0, dd = 0;
  for (size_t k = 0;; ++k) {
    vp_check(w.cb.seen.size() > k && w.cb.seen[k].iteration == (int)k, "callback per iteration"); vp_check_eq(w.cb.seen[k].cost, it[k].cost, "callback sees the record"); same(w.cb.state[k], cur, "current point visible"); bool stop = w.cb.at == (int)k; vp_check(w.cb2.seen.size() > k || (stop && w.cb2.seen.size() == k), "both callbacks"); if (stop) { vp_check(w.cb2.seen.size() == k, "later callbacks are skipped"); vp_check(type == (w.cb.answer == 0 ? USER_FAILURE : USER_SUCCESS), "user stopped"); return end(k + 1); }
    if ((int)k >= o.max_num_iterations) { vp_check(type == NO_CONVERGENCE, "iteration budget"); return end(k + 1); }
    if (p == ev.size()) { if (clockmode) { vp_check(type == NO_CONVERGENCE && lastRead - firstRead + S.preprocessor_time_in_seconds >= o.max_solver_time_in_seconds, "time budget"); return end(k + 1); } vp_check(0, "goes on"); return; } if (clockmode) vp_check(it[k].cumulative_time_in_seconds < o.max_solver_time_in_seconds, "continues only within the time limit");
    double ndd = 0; for (int i = 0; i < E; ++i) ndd -= g[i] * g[i]; double step = k == 0 ? 1 / gm : 2 * (cost - pcost) / ndd; if (!(step < 1)) step = 1; dd = ndd;
    // line search by halving
    int trial = 0; Event *t = nullptr, *v = nullptr; double s = step; for (;; s /= 2) { ++trial; t = &next(0, "trial"); same(t->x, cur, "trial from the point"); for (int i = 0; i < E; ++i) vp_check_eq(t->d[i], -s * g[i], "along the search direction"); v = nullptr; if (t->ok) { v = &next(1, "trial evaluated"); same(v->x, t->out, "at the trial"); vp_check(v->fresh && v->grad == wolfe, "a new point"); } if (v && v->ok && !(v->cost > cost + 0.25 * dd * s)) break; if (trial >= o.max_num_line_search_step_size_iterations || wolfe) return failed(k + 1); }
    Event* d = v; if (!wolfe) { d = &next(1, "derivatives at the step"); same(d->x, t->out, "at the step"); vp_check(!d->fresh && d->grad, "not a new point"); if (!d->ok) return failed(k + 1); } std::vector<double> prev = cur; g = d->g; std::vector<double> moved = t->out; Event& q = next(0, "projected gradient"); same(q.x, moved, "at the new point"); for (int i = 0; i < E; ++i) vp_check_eq(q.d[i], -g[i], "along the negative gradient"); if (!q.ok) return failed(k + 1); pg = &q; cur = moved; pcost = cost; cost = v->cost; gm = maxn(cur, pg->out); record(k + 1); auto& I = it[k + 1]; vp_check_eq(I.cost_change, pcost - cost, "cost change"); vp_check(cost <= pcost, "cost never increases"); vp_check_eq(I.step_size, s, "step size"); vp_check_eq(I.step_norm * I.step_norm, norm2(cur, prev), "step norm"); vp_check(I.line_search_iterations == trial - (wolfe ? 0 : 1) && I.line_search_function_evaluations == trial && I.line_search_gradient_evaluations == (wolfe ? trial : 0), "line search counts");
    double xn = std::sqrt(norm2(prev, std::vector<double>(N, 0.0))), b = o.parameter_tolerance * (xn + o.parameter_tolerance); bool ptol = norm2(cur, prev) <= b * b, gtol = gm <= o.gradient_tolerance, ftol = ab(pcost - cost) <= o.function_tolerance * ab(pcost); if (ptol || gtol || ftol) { vp_check(type == CONVERGENCE, "converged"); vp_check(w.cb.seen.size() == k + 2, "callback for the last iteration"); return end(k + 2); }
    if (type == CONVERGENCE && it.size() == k + 2 && p == ev.size()) { vp_check(0, "converged without reason"); return; } } }
// @run loop jobs=8
extern "C" void loop() { World w; w.fixed = vp_real_in("fixed", 0, 100); w.run(3); verify(w); }
// @run faults jobs=8
extern "C" void faults() { World w; failing = 1; maxFail = 2; w.run(2); verify(w); }
// @run shapes jobs=8
extern "C" void shapes() { World w; N = 2; E = 1 + vp_choose("tangent", 2); w.run(2); verify(w); }
// @run first jobs=8
extern "C" void first() { World w; symg = true; w.o.gradient_tolerance = vp_choose("tolerance", 2) ? vp_real_in("gtol", 0.01, 10) : 0; w.run(1); verify(w); }
// @run tolerances jobs=8
extern "C" void tolerances() { World w; int k = vp_choose("which", 3); if (k == 0) w.o.function_tolerance = vp_real_in("ftol", 0.001, 0.5); if (k == 1) w.o.parameter_tolerance = 0.125; if (k == 2) w.o.gradient_tolerance = 1; w.run(2); verify(w); }
// @run callbacks jobs=8
extern "C" void callbacks() { World w; w.cb.at = vp_choose("at", 3); w.cb.answer = vp_choose("answer", 2); w.run(2); verify(w); }
// @run clock1 jobs=8
extern "C" void clock1() { World w; clockmode = 1; w.S.preprocessor_time_in_seconds = 1; w.o.max_solver_time_in_seconds = 20; w.run(2); verify(w); }
// @run wolfestep jobs=8
extern "C" void wolfestep() { World w; wolfe = true; w.o.line_search_type = WOLFE; w.o.max_num_line_search_step_size_iterations = 1; w.run(2); if (w.S.termination_type == CONVERGENCE) for (auto& I : w.S.iterations) if (I.iteration > 0 && I.step_size == 0) vp_end(); verify(w); }
// @run badoptions
extern "C" void badoptions() { World w; w.o.line_search_type = static_cast<LineSearchType>(9); w.run(2); vp_check(w.S.termination_type == FAILURE && w.cb.seen.empty(), "unknown line search"); for (int i = 0; i < N; ++i) vp_check_eq(w.x[i], w.x0[i], "untouched"); }
// @run deep jobs=8 tier=thorough time=600
extern "C" void deep() { World w; failing = 1; w.run(4); verify(w); }
