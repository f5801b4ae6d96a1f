// Trust region strategies: the damped and dogleg steps, and how the radius follows their quality.
#include "vp.h"
#include <cmath>
#include <limits>
#include <memory>
#include <vector>
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dogleg_strategy.h"
#include "ceres/levenberg_marquardt_strategy.h"
#include "ceres/linear_solver.h"
#include "ceres/trust_region_strategy.h"
// @bound 1 and 2 parameters, 2 residuals; arbitrary residuals, linear solver answers and failures, qualities and radii; Jacobians of fixed entries where the step is nonlinear in them, arbitrary ones for the damping; histories of up to 3 notifications; the subspace dogleg model (which needs polynomial roots) is covered inside the region only
using namespace ceres; using namespace ceres::internal;
using T = LinearSolverTerminationType;
static double ab(double v) { return v < 0 ? -v : v; }
struct Lin : LinearSolver { std::vector<std::vector<double>> D, b, sol; std::vector<double> q, r; std::vector<int> how; SparseMatrix* J = nullptr; int failures = 0, kinds = 1; double lo = -10, hi = 10; std::vector<double> fixed;
  Summary Solve(LinearOperator* A, const double* rhs, const PerSolveOptions& o, double* x) override { int n = A->num_cols(); vp_check(A == J, "the Jacobian"); D.emplace_back(o.D, o.D + n); b.emplace_back(rhs, rhs + A->num_rows()); q.push_back(o.q_tolerance); r.push_back(o.r_tolerance); int k = (int)how.size() < failures ? 1 + vp_choose("how", kinds) : 0; how.push_back(k); sol.emplace_back(n, 0.0); Summary s; s.residual_norm = 0.5; s.num_iterations = 3; s.termination_type = k == 1 ? T::FAILURE : k == 2 ? T::FATAL_ERROR : T::SUCCESS; if (k == 0 || k == 3) for (int i = 0; i < n; ++i) sol.back()[i] = x[i] = i < (int)fixed.size() && fixed[i] < 1e8 ? fixed[i] : vp_real_in("y", lo, hi); if (k == 3) x[n - 1] = std::numeric_limits<double>::quiet_NaN(); if (k == 4) { s.termination_type = T::NO_CONVERGENCE; for (int i = 0; i < n; ++i) sol.back()[i] = x[i] = i + 1; } return s; } };
static std::unique_ptr<DenseSparseMatrix> jac(int n, const double* v) { auto J = std::make_unique<DenseSparseMatrix>(2, n); for (int i = 0; i < 2 * n; ++i) J->mutable_values()[i] = v ? v[i] : vp_real_in("J", -10, 10); return J; }
static double col2(const DenseSparseMatrix& J, int j) { double s = 0; for (int i = 0; i < 2; ++i) s += J.values()[i * J.num_cols() + j] * J.values()[i * J.num_cols() + j]; return s; }
static double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
// @run lmstep jobs=8
extern "C" void lmstep() {
  Lin L; int n = 1 + vp_choose("n", 2); auto J = jac(n, nullptr); L.J = J.get(); L.failures = vp_choose("failures", 2); L.kinds = 4; TrustRegionStrategy::Options o; o.linear_solver = &L; o.initial_radius = vp_real_in("radius", 0.5, 100); o.min_lm_diagonal = 0.25; o.max_lm_diagonal = 64; o.max_radius = 1000; LevenbergMarquardtStrategy S(o); vp_check_eq(S.Radius(), o.initial_radius, "initial radius"); std::vector<double> r{vp_real_in("r", -10, 10), vp_real_in("r", -10, 10)}, step(n + 1, 9.0); std::vector<double> d; for (int j = 0; j < n; ++j) d.push_back(clampd(col2(*J, j), 0.25, 64)); double radius = o.initial_radius; double factor = 2;
  int rounds = n == 2 ? 1 : 2; for (int k = 0; k < rounds; ++k) { TrustRegionStrategy::PerSolveOptions p; p.eta = 0.25; auto s = S.ComputeStep(p, J.get(), r.data(), step.data()); vp_check((int)L.how.size() == k + 1 && L.q[k] == 0.25 && L.r[k] == -1, "one solve, stopped by the quadratic model alone"); for (int j = 0; j < n; ++j) { vp_check_eq(L.D[k][j] * L.D[k][j], d[j] / radius, "damping"); vp_check(L.D[k][j] >= 0, "damping sign"); } for (int i = 0; i < 2; ++i) vp_check_eq(L.b[k][i], r[i], "right hand side"); int h = L.how[k]; vp_check(s.termination_type == (h == 1 || h == 3 ? T::FAILURE : h == 2 ? T::FATAL_ERROR : h == 4 ? T::NO_CONVERGENCE : T::SUCCESS), "termination passed on, garbage is a failure"); vp_check(s.num_iterations == 3 && s.residual_norm == 0.5, "statistics passed on"); if (h == 0 || h == 4) for (int j = 0; j < n; ++j) vp_check_eq(step[j], -L.sol[k][j], "step"); vp_check(step[n] == 9, "bounds");
    if (k + 1 < rounds) { int e = vp_choose("event", 3); if (e == 0) { double q = 0.75; S.StepAccepted(q); radius = clampd(radius / (1 - 0.125), 0, 1000); factor = 2; for (int i = 0; i < 2 * n; ++i) J->mutable_values()[i] = vp_real_in("J", -10, 10); for (int j = 0; j < n; ++j) d[j] = clampd(col2(*J, j), 0.25, 64); } else { if (e == 1) S.StepRejected(0.1); else S.StepIsInvalid(); radius /= factor; factor *= 2; } vp_check_eq(S.Radius(), radius, "radius"); } }
}
// @run lmradius jobs=8
extern "C" void lmradius() { Lin L; TrustRegionStrategy::Options o; o.linear_solver = &L; o.initial_radius = vp_real_in("radius", 0.5, 100); o.max_radius = vp_real_in("max", 100, 150); LevenbergMarquardtStrategy S(o); double r = o.initial_radius, f = 2; for (int k = 0; k < 3; ++k) { int e = vp_choose("event", 3); if (e == 0) { double q = vp_real_in("quality", 0.001, 1.5), t = 2 * q - 1, m = 1 - t * t * t, b = S.Radius(); S.StepAccepted(q); if (m < 1.0 / 3.0) m = 1.0 / 3.0; r = r / m; if (r > o.max_radius) r = o.max_radius; f = 2; if (q >= 0.5) vp_check(S.Radius() >= b, "good steps never shrink the region"); vp_check(S.Radius() <= o.max_radius, "maximum radius"); } else { if (e == 1) S.StepRejected(vp_real("quality")); else S.StepIsInvalid(); r /= f; f *= 2; } vp_check_eq(S.Radius(), r, "radius"); } }
static const double K1[2] = {3, 4}, K2[4] = {3, 0, 0, 4}, K3[4] = {3, 0, 4, 12};  // column norms 5; 3, 4; 5, 12
// y is the step in the scaled space, g the scaled gradient, gn the scaled Gauss-Newton step
static void dogleg(const std::vector<double>& y, const std::vector<double>& g, const std::vector<double>& gn, double Jg2, double R) {
  int n = y.size(); double gg = 0, nn = 0; for (int i = 0; i < n; ++i) { gg += g[i] * g[i]; nn += gn[i] * gn[i]; } double yy = 0; for (int i = 0; i < n; ++i) yy += y[i] * y[i];
  if (vp_decide(nn <= R * R)) { for (int i = 0; i < n; ++i) vp_check_eq(y[i], gn[i], "Gauss-Newton step inside the region"); return; }
  vp_check_eq(yy, R * R, "on the boundary"); double alpha = gg / Jg2; if (vp_decide(alpha * alpha * gg >= R * R)) { double c = 0; if (n == 2) vp_check_eq(y[0] * g[1], y[1] * g[0], "along the gradient"); for (int i = 0; i < n; ++i) c += y[i] * g[i]; vp_check(c < 0, "downhill"); return; }
  // y = a + t (gn - a) with a = -alpha g and t in [0, 1]
  double w = 0, ww = 0; for (int i = 0; i < n; ++i) { double a = -alpha * g[i], d = gn[i] - a; w += (y[i] - a) * d; ww += d * d; } if (n == 2) vp_check_eq((y[0] + alpha * g[0]) * (gn[1] + alpha * g[1]), (y[1] + alpha * g[1]) * (gn[0] + alpha * g[0]), "on the dogleg path"); vp_check(w >= 0 && w <= ww, "between the Cauchy and the Gauss-Newton point");
}
static void doglegRun(int n, const double* K, std::vector<double> r, double R, std::vector<double> fixedgn, DoglegType type, bool again) {
  Lin L; auto J = jac(n, K); L.J = J.get(); TrustRegionStrategy::Options o; o.linear_solver = &L; o.dogleg_type = type; o.initial_radius = R; o.max_radius = 1e5; o.min_lm_diagonal = 1e-6; o.max_lm_diagonal = 1e6; DoglegStrategy S(o); vp_check_eq(S.Radius(), R, "initial radius"); L.lo = -2; L.hi = 2; L.fixed = fixedgn; std::vector<double> step(n + 1, 9.0);
  std::vector<double> D, g, gn(n); for (int j = 0; j < n; ++j) { D.push_back(std::sqrt(col2(*J, j))); double v = 0; for (int i = 0; i < 2; ++i) v += K[i * n + j] * r[i]; g.push_back(v / D[j]); } if (n == 1) vp_assume(g[0] > 0.01 || g[0] < -0.01); double Jg2 = 0; for (int i = 0; i < 2; ++i) { double v = 0; for (int j = 0; j < n; ++j) v += K[i * n + j] * g[j] / D[j]; Jg2 += v * v; }
  for (int k = 0; k < (again ? 2 : 1); ++k) { TrustRegionStrategy::PerSolveOptions p; auto s = S.ComputeStep(p, J.get(), r.data(), step.data()); vp_check(s.termination_type == T::SUCCESS && L.how.size() == 1, "one factorization serves every radius"); vp_check_eq(L.q[0], 0, "solved exactly"); if (k == 0) for (int j = 0; j < n; ++j) gn[j] = -L.sol[0][j] * D[j]; if (n == 1) vp_assume(gn[0] * g[0] < 0); std::vector<double> y(n); for (int j = 0; j < n; ++j) y[j] = step[j] * D[j]; dogleg(y, g, gn, Jg2, R); vp_check(step[n] == 9, "bounds"); S.StepRejected(0.1); R *= 0.5; vp_check_eq(S.Radius(), R, "halved"); }
}
// @run dogleg1 jobs=8
extern "C" void dogleg1() { doglegRun(1, K1, {vp_real_in("r", 0.5, 2), vp_real_in("r", -2, 2)}, vp_real_in("radius", 0.25, 4), {}, vp_choose("type", 2) ? SUBSPACE_DOGLEG : TRADITIONAL_DOGLEG, true); }
// @run dogleg2 jobs=8
extern "C" void dogleg2() { if (vp_choose("K", 2)) doglegRun(2, K3, {-1, 12}, vp_choose("radius", 2) ? 8 : 10, {vp_choose("free", 2) ? 1e9 : -0.5, 1.25}, TRADITIONAL_DOGLEG, false); else doglegRun(2, K2, {3, 4}, vp_choose("radius", 2) ? 3 : 6, {1e9, 1e9}, TRADITIONAL_DOGLEG, false); }
// @run subspace jobs=8
extern "C" void subspace() { doglegRun(2, K3, {-1, 12}, vp_real_in("radius", 30, 40), {1.25, 1.25}, SUBSPACE_DOGLEG, false); }
// the regularization of the Gauss-Newton solve: tried, escalated, relaxed
// @run doglegmu jobs=8
extern "C" void doglegmu() {
  Lin L; auto J = jac(1, K1); L.J = J.get(); L.kinds = 3; L.failures = vp_choose("failures", 4); TrustRegionStrategy::Options o; o.linear_solver = &L; o.initial_radius = 1e4; o.min_lm_diagonal = vp_choose("min", 2) ? 36 : 1e-6; o.max_lm_diagonal = o.min_lm_diagonal > 1 ? 1e6 : vp_choose("max", 2) ? 16 : 1e6; DoglegStrategy S(o); double d = clampd(25, o.min_lm_diagonal, o.max_lm_diagonal), mu = 1e-8; double r[2] = {1, 2}, step[2] = {7, 7}; TrustRegionStrategy::PerSolveOptions p; size_t k = 0;
  for (int round = 0; round < 2; ++round) { auto s = S.ComputeStep(p, J.get(), r, step); bool ended = false; for (;; ++k) { vp_check(k < L.how.size(), "solved"); double D = L.D[k][0]; vp_check(D * D <= d * mu * (1 + 1e-9) && D * D >= d * mu * (1 - 1e-9), "regularization"); int h = L.how[k]; if (h == 2) { vp_check(s.termination_type == T::FATAL_ERROR && k + 1 == L.how.size(), "fatal errors end it"); return; } if (h == 0) { ++k; break; } mu *= 10; if (mu >= 1) { ended = true; ++k; break; } } vp_check(k == L.how.size(), "no further solves"); vp_check(s.termination_type == (ended ? T::FAILURE : T::SUCCESS), "termination"); if (!ended) vp_check_eq(step[0], -L.sol[k - 1][0], "step"); vp_check(step[1] == 7, "bounds"); if (round == 0) { int e = vp_choose("event", 2); if (e == 0) { S.StepAccepted(0.5); mu = mu / 5 > 1e-8 ? mu / 5 : 1e-8; } else { S.StepIsInvalid(); mu *= 10; } } }
}
// @run doglegexhaust
extern "C" void doglegexhaust() { Lin L; auto J = jac(1, K1); L.J = J.get(); L.failures = 100; TrustRegionStrategy::Options o; o.linear_solver = &L; DoglegStrategy S(o); double r[2] = {1, 2}, step[1]; TrustRegionStrategy::PerSolveOptions p; auto s = S.ComputeStep(p, J.get(), r, step); vp_check(s.termination_type == T::FAILURE && L.how.size() >= 8 && L.how.size() <= 9, "gives up after a bounded escalation"); }
// @run doglegradius jobs=8
extern "C" void doglegradius() { Lin L; auto J = jac(1, K1); L.J = J.get(); L.lo = -2; L.hi = 2; TrustRegionStrategy::Options o; o.linear_solver = &L; o.initial_radius = vp_real_in("radius", 0.5, 20); o.max_radius = vp_real_in("max", 20, 25); DoglegStrategy S(o); double R = o.initial_radius, r[2] = {1, 2}, step[1]; TrustRegionStrategy::PerSolveOptions p; for (int k = 0; k < 2; ++k) { S.ComputeStep(p, J.get(), r, step); double len = ab(step[0]) * 5; vp_check_le(len, R + 1e-9, "within the region"); int e = vp_choose("event", 3); if (e == 0) { double q = vp_real_in("quality", 0.001, 1.5); S.StepAccepted(q); if (q < 0.25) R *= 0.5; if (q > 0.75 && 3 * len > R) R = 3 * len; if (R > o.max_radius) R = o.max_radius; } if (e == 1) { S.StepRejected(0.1); R *= 0.5; } if (e == 2) S.StepIsInvalid(); vp_check_eq(S.Radius(), R, "radius"); vp_check(S.Radius() <= o.max_radius, "never beyond the maximum radius"); } }
// @run factory
extern "C" void factory() { Lin L; TrustRegionStrategy::Options o; o.linear_solver = &L; o.initial_radius = 5; bool d = vp_choose("dogleg", 2); o.trust_region_strategy_type = d ? DOGLEG : LEVENBERG_MARQUARDT; auto S = TrustRegionStrategy::Create(o); vp_check(S->Radius() == 5 && (dynamic_cast<DoglegStrategy*>(S.get()) != nullptr) == d && (dynamic_cast<LevenbergMarquardtStrategy*>(S.get()) != nullptr) == !d, "the requested strategy"); }
