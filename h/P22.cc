// The trust region loop: what is accepted, reported and returned, for arbitrary evaluators, steps and failures.
#include "loop_common.h"
// @bound 3 iterations (thorough: 4) of 1 or 2 parameters and 1 or 2 residuals; arbitrary costs, residuals, gradients, Jacobians, steps, radii, tolerances and clock readings; every failing call of evaluator, Plus and strategy, every callback answer; projected line searches of up to 2 trials (bisection); inner iterations are P36
static void shapes(World& w) { int s = vp_choose("shape", 3); N = s == 0 ? 1 : 2; E = s == 2 ? 2 : 1; R = s == 1 ? 1 : s == 2 ? 2 : 1; }
// @run loop jobs=8
extern "C" void loop() { World w; w.fixed = vp_real_in("fixed", 0, 100); w.run(3); verify(w, false); }
// @run faults jobs=8
extern "C" void faults() { World w; failPlus = failEval = failStep = 1; maxFail = 1; w.o.max_num_consecutive_invalid_steps = 2; w.o.parameter_tolerance = vp_choose("tolerance", 2) ? 0.125 : 0; w.run(2); verify(w, false); }
// @run faults2 jobs=8 tier=thorough time=600
extern "C" void faults2() { World w; failPlus = failEval = failStep = 1; maxFail = 2; w.o.max_num_consecutive_invalid_steps = 2; w.run(3); verify(w, false); }
// @run invalid jobs=8
extern "C" void invalid() { World w; failStep = 1; maxFail = 2; w.o.max_num_consecutive_invalid_steps = 1 + vp_choose("limit", 2); w.run(3); verify(w, false); }
// @run shapesnorms jobs=8
extern "C" void shapesnorms() { World w; shapes(w); w.o.gradient_tolerance = vp_choose("tolerance", 2) ? vp_real_in("gtol", 0.01, 10) : 0; w.run(1); verify(w, true); }
// @run scaling jobs=8
extern "C" void scaling() { World w; shapes(w); w.o.jacobi_scaling = true; w.run(2); verify(w, false); }
// @run model jobs=8
extern "C" void model() { World w; simple = false; w.o.jacobi_scaling = vp_choose("scaling", 2); w.run(1); verify(w, false); }
// @run tolerances jobs=8
extern "C" void tolerances() { World w; int k = vp_choose("which", 3); if (k == 0) w.o.function_tolerance = vp_real_in("ftol", 0.001, 0.5); if (k == 1) w.o.parameter_tolerance = 0.125; if (k == 2) w.o.min_trust_region_radius = vp_real_in("rtol", 0.5, 2); w.run(2); verify(w, false); }
// @run nonmonotone jobs=8
extern "C" void nonmonotone() { World w; w.o.use_nonmonotonic_steps = true; w.o.max_consecutive_nonmonotonic_steps = 1 + vp_choose("lag", 2); w.run(3); verify(w, false); }
// @run callbacks jobs=8
extern "C" void callbacks() { World w; w.cb.at = vp_choose("at", 3); w.cb.answer = vp_choose("answer", 2); w.run(2); verify(w, false); }
// @run clock1 jobs=8
extern "C" void clock1() { World w; clockmode = 1; w.S.preprocessor_time_in_seconds = 1; w.o.max_solver_time_in_seconds = 20; w.run(2); verify(w, false); }
// @run constrained jobs=8
extern "C" void constrained() { World w; box = true; N = E = 1; w.o.is_constrained = true; w.o.max_num_line_search_step_size_iterations = 0; failPlus = 1; w.run(2); verify(w, true); }
// @run search jobs=8
extern "C" void search() { gl = 1; xlo = 1.5; xhi = 2.5; World w; box = true; w.o.is_constrained = true; w.o.max_num_line_search_step_size_iterations = 1 + vp_choose("trials", 2); w.o.line_search_interpolation_type = BISECTION; w.o.line_search_sufficient_function_decrease = 0.25; w.run(2); verify(w, false); }
// @run searchfaults jobs=8
extern "C" void searchfaults() { gl = 1; xlo = 1.5; xhi = 2.5; World w; box = true; w.o.is_constrained = true; failPlus = failEval = 1; w.o.max_num_line_search_step_size_iterations = 2; w.o.line_search_interpolation_type = BISECTION; w.o.line_search_sufficient_function_decrease = 0.25; w.run(1); verify(w, false); }
// @run searchsteps jobs=8
extern "C" void searchsteps() { gl = 1; xlo = 1.5; xhi = 2.5; World w; N = E = 2; box = true; w.o.is_constrained = true; w.o.max_num_line_search_step_size_iterations = 3; w.o.line_search_interpolation_type = BISECTION; int k = vp_choose("limits", 3); if (k == 0) w.o.max_line_search_step_contraction = 0.5625; if (k == 1) w.o.min_line_search_step_contraction = 0.25, w.o.max_line_search_step_contraction = 0.125; if (k == 2) w.o.min_line_search_step_size = 0.75; w.o.line_search_sufficient_function_decrease = 0.25; w.run(1); verify(w, false); }
// The acceptance ratio over longer histories of accepted steps follows Conn, Gould and Toint, algorithm 10.1.2.
static void history(int n) { int most = vp_choose("most", 4); const double M[] = {0.5, 1, 0.25, 2, 1.5, 0.75, 1}; double cost = 10; TrustRegionStepEvaluator e(cost, most); double least = cost, reference = cost, candidate = cost, sr = 0, sc = 0; int count = 0;
  for (int i = 0; i < n; ++i) { double at = vp_real_in("trial", -20, 40), q = std::max((cost - at) / M[i], (reference - at) / (sr + M[i])); vp_check_eq(e.StepQuality(at, M[i]), q, "ratio to the current and to the reference point"); double c = vp_real_in("accepted", -20, 40); e.StepAccepted(c, M[i]); cost = c; sc += M[i]; sr += M[i]; if (c < least) { least = candidate = c; sc = 0; count = 0; } else { ++count; if (c > candidate) { candidate = c; sc = 0; } } if (count == most) { reference = candidate; sr = sc; } }
  vp_check_le(e.StepQuality(std::numeric_limits<double>::max(), 1), -1e300, "failed evaluations are never accepted"); }
// @run histories jobs=8
extern "C" void histories() { history(4); }
// @run histories6 jobs=8 tier=thorough time=600
extern "C" void histories6() { history(6); }
