// A trust region loop whose evaluator and strategy answer arbitrarily, and the replay that decides what the loop must have done.
#pragma once
#include "vp.h"
#include <cmath>
#include <limits>
#include <memory>
#include <vector>
#include "ceres/dense_sparse_matrix.h"
#include "ceres/evaluator.h"
#include "ceres/minimizer.h"
#include "ceres/solver.h"
#include "ceres/trust_region_minimizer.h"
#include "ceres/trust_region_step_evaluator.h"
#include "ceres/trust_region_strategy.h"
using namespace ceres; using namespace ceres::internal;
static double clockv = 0; static int clockmode = 0; static double firstRead = -1, lastRead = -1;
extern "C" double vp_clock_now() { if (!clockmode) return 0; clockv += vp_real_in("dt", 0, 10); if (firstRead < 0) firstRead = clockv; lastRead = clockv; return clockv; }
static int N = 1, E = 1, R = 1; static bool box = false, simple = true;
struct Full { std::vector<double> x, r, g, J; double cost; bool ok, fresh; };
struct Cand { std::vector<double> x; double cost; bool ok; };
struct Step { std::vector<double> s; int term; double radius; };
struct Note { int kind; double q; };
static std::vector<Full> fulls; static std::vector<Cand> cands; static std::vector<Step> steps; static std::vector<Note> notes;
static std::vector<std::vector<double>> plusx, plusd; static std::vector<int> plusok;
static int failPlus = 0, failEval = 0, failStep = 0, maxFail = 1, nfail = 0;
static bool fails(int on, const char* n) { if (!on || nfail >= maxFail) return false; bool f = vp_choose(n, 2); nfail += f; return f; }
static bool innerRan = false; static double lastCost = 0;  // inner iterations ran since the last evaluation; cost of the last candidate that could be evaluated
static double gl = 100, xlo = -100, xhi = 100;
static const double Jc[4] = {3, 8, 4, 6};
static double clamp(double v) { return box ? (v < 0 ? 0 : v > 10 ? 10 : v) : v; }
struct Ev : Evaluator {
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  bool Evaluate(const EvaluateOptions& o, const double* x, double* cost, double* r, double* g, SparseMatrix* J) override {
    vp_check(cost && (r != nullptr) == (g != nullptr) && (r != nullptr) == (J != nullptr) && o.apply_loss_function, "requests"); if (!r) { Cand c; c.x.assign(x, x + N); c.ok = !fails(failEval, "evaluation fails"); c.cost = c.ok ? vp_real_in("cost", 0, 1e6) : -1; if (c.ok) { if (innerRan) vp_assume(c.cost <= lastCost); *cost = lastCost = c.cost; } innerRan = false; vp_check(o.new_evaluation_point, "a candidate is a new point"); cands.push_back(c); return c.ok; }
    Full f; f.x.assign(x, x + N); f.fresh = o.new_evaluation_point; f.ok = !fails(failEval, "Jacobian fails"); f.cost = fulls.empty() ? vp_real_in("cost", 0, 1e6) : lastCost; if (f.ok) { *cost = f.cost; for (int i = 0; i < R; ++i) f.r.push_back(r[i] = vp_real_in("r", -300, 300)); for (int i = 0; i < E; ++i) f.g.push_back(g[i] = vp_real_in("g", -gl, gl)); for (int i = 0; i < R * E; ++i) f.J.push_back(J->mutable_values()[i] = simple ? Jc[i] * (1 + fulls.size()) : vp_real_in("J", -10, 10)); } fulls.push_back(f); return f.ok;
  }
  bool Plus(const double* x, const double* d, double* o) const override { plusx.emplace_back(x, x + N); plusd.emplace_back(d, d + E); bool ok = !fails(failPlus, "Plus fails"); plusok.push_back(ok); if (!ok) return false; for (int i = 0; i < N; ++i) o[i] = clamp(x[i] + (i < E ? d[i] : 2 * d[0])); return true; }
  int NumParameters() const override { return N; } int NumEffectiveParameters() const override { return E; } int NumResiduals() const override { return R; }
};
struct Str : TrustRegionStrategy {
  double radius = vp_real_in("radius", 1, 10); int calls = 0; SparseMatrix* seen = nullptr; bool good = false;
  Summary ComputeStep(const PerSolveOptions& o, SparseMatrix* J, const double* r, double* step) override { Summary s; Step t; t.term = 0; if (fails(failStep, "step fails")) t.term = 1 + vp_choose("how", 2); for (int i = 0; i < R; ++i) vp_check_eq(r[i], fulls.back().r[i], "residuals of the current point"); seen = J; for (int i = 0; i < E; ++i) t.s.push_back(step[i] = simple ? -1.0 - (double)steps.size() : vp_real_in("step", -10, 10)); t.radius = radius; s.termination_type = t.term == 0 ? LinearSolverTerminationType::SUCCESS : t.term == 1 ? LinearSolverTerminationType::FAILURE : LinearSolverTerminationType::FATAL_ERROR; if (t.term == 0 && vp_choose("iterative", 1)) s.termination_type = LinearSolverTerminationType::NO_CONVERGENCE; s.num_iterations = 17; vp_check(o.eta == 0.125, "forcing term"); steps.push_back(t); return s; }
  void change() { radius = vp_real_in("radius", 0.5, 10); }
  void StepAccepted(double q) override { notes.push_back({0, q}); change(); } void StepRejected(double q) override { notes.push_back({1, q}); change(); } void StepIsInvalid() override { notes.push_back({2, 0}); change(); } double Radius() const override { return radius; }
};
struct Call : IterationCallback { std::vector<IterationSummary> seen; int answer = -1, at = -1; double* user = nullptr; std::vector<std::vector<double>> state; CallbackReturnType operator()(const IterationSummary& s) override { seen.push_back(s); state.emplace_back(user, user + N); if ((int)seen.size() - 1 == at) return answer == 0 ? SOLVER_ABORT : SOLVER_TERMINATE_SUCCESSFULLY; return SOLVER_CONTINUE; } };
struct World { Minimizer::Options o; Solver::Summary S; std::shared_ptr<Str> strategy; Call cb, cb2; std::vector<double> x, x0, goal; double fixed = 0;  // goal: where inner iterations go
  World() { S.num_line_search_steps = 0; o.eta = 0.125; o.function_tolerance = 0; o.gradient_tolerance = 0; o.parameter_tolerance = 0; o.min_trust_region_radius = 0; o.jacobi_scaling = false; o.min_relative_decrease = 0.25; o.is_silent = true; o.max_solver_time_in_seconds = 1e9; o.max_num_consecutive_invalid_steps = 5; }
  void run(int maxit) { o.max_num_iterations = maxit; strategy = std::make_shared<Str>(); o.trust_region_strategy = strategy; o.evaluator = std::make_shared<Ev>(); o.jacobian = std::make_shared<DenseSparseMatrix>(R, E); for (int i = 0; i < N; ++i) x.push_back(goal.empty() ? vp_real_in("x", xlo, xhi) : 3.0 - i); x0 = x; cb.user = cb2.user = x.data(); o.callbacks = {&cb, &cb2}; S.fixed_cost = fixed; TrustRegionMinimizer M; M.Minimize(o, x.data(), &S); } };
static double norm2(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (int i = 0; i < N; ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static double ab(double v) { return v < 0 ? -v : v; }
// nonmonotone reference of Conn, Gould and Toint, algorithm 10.1.2, in terms of the history of accepted costs
struct Hist { std::vector<double> cost, model; int M; int best = 0, cand = 0, ref = 0, lag = 0;
  double since(int i) const { double s = 0; for (size_t k = i + 1; k < cost.size(); ++k) s += model[k]; return s; }
  double quality(double c, double m) const { double a = (cost.back() - c) / m, b = (cost[ref] - c) / (since(ref) + m); return a > b ? a : b; }
  void accept(double c, double m) { cost.push_back(c); model.push_back(m); int k = cost.size() - 1; if (c < cost[best]) { best = cand = k; lag = 0; } else { ++lag; if (c > cost[cand]) cand = k; } if (lag == M) ref = cand; } };
// replays the recorded calls against what every iteration must have done
static void verify(World& w, bool norms) {
  auto& S = w.S; auto& o = w.o; auto& it = S.iterations; size_t nf = 0, nc = 0, np = 0, ns = 0, nn = 0; auto same = [&](const std::vector<double>& a, const std::vector<double>& b, const char* id) { for (int i = 0; i < N; ++i) vp_check_eq(a[i], b[i], id); }; auto plus = [&](const std::vector<double>& x, const std::vector<double>& d) { std::vector<double> o(N); for (int i = 0; i < N; ++i) o[i] = clamp(x[i] + (i < E ? d[i] : 2 * d[0])); return o; }; auto failed = [&] { vp_check(S.termination_type == FAILURE, "failure reported"); };
  std::vector<double> cur = w.x0; if (o.is_constrained) { vp_check(plusok.size() > np, "projected"); for (double v : plusd[np]) vp_check(v == 0, "projection step"); if (!plusok[np++]) { failed(); vp_check(it.empty() && fulls.empty(), "nothing else happens"); same(w.x, w.x0, "user state untouched"); return; } cur = plus(w.x0, std::vector<double>(E, 0.0)); }
  vp_check(fulls.size() > nf, "evaluated"); Full f = fulls[nf++]; same(f.x, cur, "evaluated at the start"); vp_check(f.fresh, "a new point"); if (!f.ok) { failed(); vp_check(it.empty(), "no iteration"); same(w.x, w.x0, "user state untouched"); return; }
  std::vector<double> pg; auto gradientStep = [&](Full& f) { vp_check(plusok.size() > np, "projected gradient"); for (int i = 0; i < E; ++i) vp_check_eq(plusd[np][i], -f.g[i], "along the negative gradient"); same(plusx[np], f.x, "from the current point"); std::vector<double> d = f.g; for (double& v : d) v = -v; pg = plus(f.x, d); return plusok[np++] != 0; };
  if (!gradientStep(f)) { failed(); vp_check(it.empty(), "no iteration"); same(w.x, w.x0, "user state untouched"); return; }
  double scale[2] = {1, 1}; if (o.jacobi_scaling) for (int j = 0; j < E; ++j) { double n = 0; for (int i = 0; i < R; ++i) n += f.J[i * E + j] * f.J[i * E + j]; scale[j] = 1 / (1 + std::sqrt(n)); } vp_check_eq(S.initial_cost, f.cost + w.fixed, "initial cost"); Hist h; h.cost = {f.cost}; h.model = {0}; h.M = o.use_nonmonotonic_steps ? o.max_consecutive_nonmonotonic_steps : 0; std::vector<double> bestx = cur; double best = f.cost; int good = 0, bad = 0, invalid = 0; int searches = 0; bool moved = false, succ = true, inner = !w.goal.empty(); int inners = 0; double shown = f.cost; std::vector<double> lastpg = pg, lastx = f.x; bool first = true;
  for (size_t k = 0;; ++k) {
    // the iteration's record
    vp_check(it.size() > k, "one record per iteration"); auto& I = it[k]; vp_check(I.iteration == (int)k, "numbered"); vp_check_eq(I.cost, shown + w.fixed, "cost of the record"); vp_check(I.step_is_successful == succ, "success flag"); (succ ? good : bad)++; if (norms) { double m = 0; for (int i = 0; i < N; ++i) { double d = ab(lastx[i] - lastpg[i]); if (d > m) m = d; } vp_check_eq(I.gradient_max_norm, m, "gradient max norm"); vp_check_eq(I.gradient_norm * I.gradient_norm, norm2(lastx, lastpg), "gradient norm"); }
    if (succ && k > 0) { if (f.cost < best) { best = f.cost; bestx = cur; vp_check(!I.step_is_nonmonotonic, "monotonic"); } else vp_check(I.step_is_nonmonotonic, "nonmonotonic"); }
    vp_check(w.cb.seen.size() > k && w.cb.seen[k].iteration == (int)k && w.cb.seen[k].step_is_successful == succ, "callback per iteration"); vp_check_eq(w.cb.seen[k].cost, I.cost, "callback sees the record"); same(w.cb.state[k], bestx, "best point so far is visible"); bool stopped = w.cb.at == (int)k; vp_check(w.cb2.seen.size() == k + 1 - (stopped && w.cb.at == (int)k) || w.cb2.seen.size() > k, "both callbacks");
    bool last = it.size() == k + 1 && steps.size() == ns; bool more = steps.size() > ns;
    double gm = 0; if (norms || o.gradient_tolerance > 0) for (int i = 0; i < N; ++i) { double d = ab(lastx[i] - lastpg[i]); if (d > gm) gm = d; }
    if (!more) { vp_check(it.size() == k + 1 && w.cb.seen.size() == k + 1, "nothing after the last iteration"); bool user = stopped, budget = (int)k >= o.max_num_iterations, time = lastRead - firstRead + S.preprocessor_time_in_seconds >= o.max_solver_time_in_seconds, small = I.trust_region_radius <= o.min_trust_region_radius; switch (S.termination_type) { case USER_FAILURE: vp_check(user && w.cb.answer == 0, "user abort"); vp_check(w.cb2.seen.size() == k, "later callbacks are skipped"); break; case USER_SUCCESS: vp_check(user && w.cb.answer == 1, "user success"); break; case NO_CONVERGENCE: vp_check(!user && (budget || time), "budget exhausted"); break; case CONVERGENCE: vp_check(!user && (small || (succ && gm <= o.gradient_tolerance)), "converged for a reason"); break; default: vp_check(0, "termination"); } break; }
    vp_check(!stopped && (int)k < o.max_num_iterations && I.trust_region_radius > o.min_trust_region_radius, "continues only within limits"); if (clockmode) vp_check(I.cumulative_time_in_seconds < o.max_solver_time_in_seconds, "continues only within the time limit"); if (succ && (norms || o.gradient_tolerance > 0)) vp_check(gm > o.gradient_tolerance, "continues only above the gradient tolerance");
    Step t = steps[ns++]; succ = false; if (t.term == 2) { failed(); break; }
    double mc = 0; for (int i = 0; i < R; ++i) { double js = 0; for (int j = 0; j < E; ++j) js += f.J[i * E + j] * scale[j] * t.s[j]; mc -= js * (f.r[i] + js / 2); }
    if (t.term == 1 || !(mc > 0)) { if (++invalid >= o.max_num_consecutive_invalid_steps) { failed(); break; } vp_check(notes.size() > nn && notes[nn].kind == 2, "strategy told the step is invalid"); ++nn; shown = h.cost.back(); vp_check(it.size() > k + 1 && !it[k + 1].step_is_valid, "invalid step recorded"); continue; }
    invalid = 0; std::vector<double> dl(E); for (int j = 0; j < E; ++j) dl[j] = t.s[j] * scale[j];
    if (o.is_constrained && o.max_num_line_search_step_size_iterations > 0) {  // a projected Armijo search along the step
      double gd = 0, al = 1, big = 0; for (int j = 0; j < E; ++j) { gd += f.g[j] * dl[j]; if (ab(dl[j]) > big) big = ab(dl[j]); }
      for (int n = 0;;) { vp_check(plusok.size() > np, "trial of the line search"); if (plusok.size() <= np) break; same(plusx[np], cur, "trial from the current point"); for (int j = 0; j < E; ++j) vp_check_eq(plusd[np][j], al * dl[j], "trial along the step"); bool ok = plusok[np]; double c = 0; std::vector<double> tx = plus(cur, plusd[np++]); if (ok) { vp_check(cands.size() > nc, "trial evaluated"); same(cands[nc].x, tx, "evaluated at the trial"); ok = cands[nc].ok; c = cands[nc++].cost; }
        if (ok && c <= f.cost + o.line_search_sufficient_function_decrease * gd * al) { for (double& v : dl) v *= al; break; }
        ++searches; if (++n >= o.max_num_line_search_step_size_iterations) break; double lo = o.max_line_search_step_contraction * al, hi = o.min_line_search_step_contraction * al, nx = al / 2; if (nx < lo) nx = lo; if (nx > hi) nx = hi; if (nx * big < o.min_line_search_step_size) break; al = nx; } }
    vp_check(plusok.size() > np, "candidate"); same(plusx[np], cur, "candidate from the current point"); for (int j = 0; j < E; ++j) vp_check_eq(plusd[np][j], dl[j], "along the step"); std::vector<double> cx = plus(cur, plusd[np]); bool pok = plusok[np++], eok = false; double cc = 0; if (pok) { vp_check(cands.size() > nc, "candidate evaluated"); same(cands[nc].x, cx, "evaluated at the candidate"); eok = cands[nc].ok; cc = cands[nc++].cost; }
    bool useful = false; if (inner && eok) { ++inners; vp_check(cands.size() > nc, "evaluated after inner iterations"); if (cands.size() <= nc) break; Cand d = cands[nc++]; for (int i = 0; i < N; ++i) vp_check(ab(d.x[i] - w.goal[i]) <= 1e-3 * ab(cx[i] - w.goal[i]), "inner iterations start at the candidate"); if (d.ok) { cx = d.x; mc += cc - d.cost; useful = d.cost < f.cost && d.cost < cc; inner = cc - d.cost > w.o.inner_iteration_tolerance * cc; cc = d.cost; } }
    // tolerances end the run without taking the step
    bool ftol = eok && ab(f.cost - cc) <= o.function_tolerance * f.cost; bool over = notes.size() == nn && fulls.size() == nf; if (over) { vp_check(S.termination_type == CONVERGENCE && it.size() == k + 1, "converged"); bool ptol = false; if (pok && moved) { double sn = norm2(cur, cx), xn = norm2(cur, std::vector<double>(N, 0.0)), xr = std::sqrt(xn), b = o.parameter_tolerance * (xr + o.parameter_tolerance); ptol = sn <= b * b; } vp_check(ftol || ptol, "a tolerance is met"); break; }
    vp_check(!ftol, "continues only above the function tolerance"); if (moved && pok && o.parameter_tolerance > 0) { double sn = norm2(cur, cx), xn = norm2(cur, std::vector<double>(N, 0.0)), xr = std::sqrt(xn), b = o.parameter_tolerance * (xr + o.parameter_tolerance); vp_check(sn > b * b, "continues only above the parameter tolerance"); }
    double q = eok ? h.quality(cc, mc) : std::numeric_limits<double>::lowest(); 
    if (eok && (useful || q > o.min_relative_decrease)) { vp_check(fulls.size() > nf, "derivatives at the accepted point"); f = fulls[nf++]; cur = cx; same(f.x, cur, "moved to the candidate"); vp_check(!f.fresh, "not a new point"); if (!f.ok || !gradientStep(f)) { failed(); break; } lastpg = pg; lastx = f.x; vp_check(notes.size() > nn && notes[nn].kind == 0, "strategy told of acceptance"); vp_check_eq(notes[nn++].q, q, "step quality"); h.accept(cc, mc); moved = true; succ = true; shown = cc; vp_check(it.size() > k + 1, "recorded"); vp_check_eq(it[k + 1].relative_decrease, q, "relative decrease"); vp_check_eq(it[k + 1].cost_change, h.cost[h.cost.size() - 2] - cc, "cost change"); }
    else { vp_check(notes.size() > nn && notes[nn].kind == 1, "strategy told of rejection"); if (eok) vp_check_eq(notes[nn].q, q, "step quality"); else vp_check(notes[nn].q < -1e300, "worst quality"); ++nn; shown = eok ? cc : std::numeric_limits<double>::max(); if (!eok) { vp_check(it.size() > k + 1 && it[k + 1].cost > 1e300, "infinite cost"); shown = it[k + 1].cost - w.fixed; } }
    if (it.size() > k + 1) { vp_check(it[k + 1].step_is_valid && it[k + 1].linear_solver_iterations == 17, "valid step recorded"); }
  }
  vp_check(S.num_inner_iteration_steps == inners, "inner iterations counted"); vp_check(S.num_line_search_steps == searches, "line search steps counted"); same(w.x, bestx, "the best accepted point is returned"); vp_check(nf == fulls.size() && nc == cands.size() && ns == steps.size() && nn == notes.size(), "no other calls"); vp_check(S.num_successful_steps == good && S.num_unsuccessful_steps == bad && good + bad == (int)it.size(), "step counts"); vp_check(w.cb.seen.size() == it.size(), "one callback per iteration");
}
