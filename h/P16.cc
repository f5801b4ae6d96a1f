// Gradient checking tells right Jacobians from wrong ones; gradient problems delegate faithfully.
#include "eval_common.h"
#include <cstring>
#include <memory>
#include "ceres/gradient_checker.h"
#include "ceres/gradient_checking_cost_function.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_evaluator.h"
#include "ceres/is_close.h"
#include "ceres/numeric_diff_options.h"
// @bound affine cost functions (on which Ridders differentiation is exact) of 2 residuals and blocks of sizes 2 and 1 with arbitrary slopes, arbitrary claimed Jacobians, an arbitrary manifold of tangent size 1, arbitrary precision; problems of 3 blocks; every failing call
using namespace ceres; using namespace ceres::internal;
static double ab(double v) { return v < 0 ? -v : v; }
static double rel(double x, double y) { double d = ab(x - y); if (x == 0 || y == 0) return d; double a = ab(x), b = ab(y); return d / (a > b ? a : b); }
// @run isclose
extern "C" void isclose() { double x = vp_real_in("x", -1e6, 1e6), y = vp_real_in("y", -1e6, 1e6), p = vp_real_in("p", -2, 2), r, a; bool ok = IsClose(x, y, p, &r, &a); vp_check_eq(a, ab(x - y), "absolute error"); vp_check_eq(r, rel(x, y), "relative error"); vp_check(ok == (rel(x, y) < ab(p)), "close"); vp_check(IsClose(x, y, p, nullptr, nullptr) == ok, "optional outputs"); }
// @run isclosebits ieee
extern "C" void isclosebits() { double x = vp_double("x"), y = vp_double("y"); if (std::isnan(x) || std::isnan(y)) vp_check(!IsClose(x, y, 0.5, nullptr, nullptr), "NaN is never close"); if (std::isfinite(x)) vp_check(IsClose(x, x, 0.5, nullptr, nullptr), "equal values are close"); }
struct Aff : CostFunction {  // r = c + A x + B y; claims Jacobians A + E, B + F
  double c[2], A[2][2], B[2], E[2][2] = {}, F[2] = {}, off[2] = {}; int fail = 0; mutable int calls = 0, jcalls = 0; const double* at[2]; mutable bool nullj = false;
  Aff() { set_num_residuals(2); mutable_parameter_block_sizes()->push_back(2); mutable_parameter_block_sizes()->push_back(1); for (double& v : c) v = vp_real_in("c", 1, 2); for (auto& r : A) for (double& v : r) v = vp_real_in("A", 1, 2); for (double& v : B) v = vp_real_in("B", 1, 2); }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    ++calls; if (J) ++jcalls; if (fail == 1 && J) return false; if (fail == 2 && !J) return false; if (fail == 3 && !J && calls == 5) return false; for (int i = 0; i < 2; ++i) r[i] = c[i] + A[i][0] * p[0][0] + A[i][1] * p[0][1] + B[i] * p[1][0] + (J ? off[i] : 0); if (J) { if (J[0]) for (int i = 0; i < 4; ++i) J[0][i] = A[i / 2][i % 2] + E[i / 2][i % 2]; else nullj = true; if (J[1]) for (int i = 0; i < 2; ++i) J[1][i] = B[i] + F[i]; } return true; }
};
struct Man : Manifold { double P[2]; Man() { for (double& v : P) v = vp_real_in("P", 1, 2); } int AmbientSize() const override { return 2; } int TangentSize() const override { return 1; } bool Plus(const double* x, const double* d, double* o) const override { for (int i = 0; i < 2; ++i) o[i] = x[i] + P[i] * d[0]; return true; } bool PlusJacobian(const double*, double* j) const override { j[0] = P[0]; j[1] = P[1]; return true; } bool Minus(const double*, const double*, double*) const override { return false; } bool MinusJacobian(const double*, double*) const override { return false; } };
// @run probe jobs=8
extern "C" void probe() {
  Aff f; Man m; bool man = vp_choose("manifold", 2); double prec = vp_real_in("precision", 0.001, 0.5); int mode = vp_choose("mode", 4), bad = mode == 0 ? -1 : vp_choose("entry", 6); f.fail = 0; double e = bad < 0 ? 0 : vp_real_in("error", -0.9, 3); if (mode == 1 || mode == 3) { if (bad < 4) f.E[bad / 2][bad % 2] = e; else f.F[bad - 4] = e; } if (mode == 2) { if (bad > 1) vp_end(); f.off[bad] = e; } if (mode == 3) { vp_assume(bad > 0); f.E[0][0] = 0.25; }
  std::vector<const Manifold*> ms = {man ? &m : nullptr, nullptr}; NumericDiffOptions o; GradientChecker g(&f, man || mode == 1 ? &ms : nullptr, o); double x[2] = {1.5, -0.5}, y[1] = {2}; const double* p[2] = {x, y}; GradientChecker::ProbeResults R; R.error_log = "stale"; R.maximum_relative_error = 99; R.jacobians.resize(7); bool ok = g.Probe(p, prec, &R); vp_check(R.return_value, "evaluated");
  double r0[2]; for (int i = 0; i < 2; ++i) r0[i] = f.c[i] + f.A[i][0] * 1.5 - f.A[i][1] * 0.5 + f.B[i] * 2; bool same = true; for (int i = 0; i < 2; ++i) { vp_check_eq(R.residuals[i], r0[i] + f.off[i], "residuals"); if (!(rel(r0[i] + f.off[i], r0[i]) < prec)) same = false; } vp_check(R.jacobians.size() == 2 && R.numeric_jacobians.size() == 2 && R.local_jacobians.size() == 2 && R.local_numeric_jacobians.size() == 2, "sizes"); double J[2][3], N[2][3], worst = 0; for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) { J[i][j] = f.A[i][j] + f.E[i][j]; N[i][j] = f.A[i][j]; vp_check_eq(R.jacobians[0](i, j), J[i][j], "claimed Jacobian"); vp_check_eq(R.numeric_jacobians[0](i, j), N[i][j], "numeric Jacobian"); } J[i][2] = f.B[i] + f.F[i]; N[i][2] = f.B[i]; vp_check_eq(R.jacobians[1](i, 0), J[i][2], "claimed Jacobian"); vp_check_eq(R.numeric_jacobians[1](i, 0), N[i][2], "numeric Jacobian"); }
  bool good = true; for (int i = 0; i < 2; ++i) { double a[3], b[3]; int n = 3; if (man) { a[0] = J[i][0] * m.P[0] + J[i][1] * m.P[1]; b[0] = N[i][0] * m.P[0] + N[i][1] * m.P[1]; a[1] = J[i][2]; b[1] = N[i][2]; n = 2; } else for (int j = 0; j < 3; ++j) { a[j] = J[i][j]; b[j] = N[i][j]; } for (int j = 0; j < n; ++j) { double q = rel(a[j], b[j]); if (!(q < prec)) good = false; if (q > worst) worst = q; const auto& L = R.local_jacobians[j == n - 1]; const auto& K = R.local_numeric_jacobians[j == n - 1]; int c = j == n - 1 ? 0 : j; vp_check(L.cols() == (j == n - 1 ? 1 : n - 1), "local size"); vp_check_eq(L(i, c), a[j], "local Jacobian"); vp_check_eq(K(i, c), b[j], "local numeric Jacobian"); } }
  if (!same) { vp_check(!ok && R.error_log.find("different residuals") != std::string::npos, "inconsistent residuals are an error"); return; } vp_check(ok == good, "verdict"); vp_check(R.error_log.empty() == ok, "log only for errors"); vp_check_eq(R.maximum_relative_error, worst, "worst relative error"); vp_check(g.Probe(p, prec, nullptr) == ok, "results are optional");
}
// @run failing
extern "C" void failing() { Aff f; f.fail = 1 + vp_choose("fail", 3); NumericDiffOptions o; GradientChecker g(&f, nullptr, o); double x[2] = {1.5, -0.5}, y[1] = {2}; const double* p[2] = {x, y}; GradientChecker::ProbeResults R; vp_check(!g.Probe(p, 1e-3, &R) && !R.return_value && !R.error_log.empty(), "a failed evaluation is reported"); vp_check(!g.Probe(p, 1e-3, nullptr) || f.fail == 3, "and without results");
  GradientCheckingIterationCallback cb; Aff h; h.fail = f.fail; auto w = CreateGradientCheckingCostFunction(&h, new std::vector<const Manifold*>(2, nullptr), 1e-6, 1e-3, "info", &cb); double r[2], a[4], b[2], *J[2] = {a, b}; vp_check(!w->Evaluate(p, r, J), "the checking function fails with the function"); vp_check(!cb.gradient_error_detected(), "which is no gradient error"); vp_check(w->Evaluate(p, r, nullptr) == (f.fail != 2), "residuals are forwarded"); }
// @run wrapper
extern "C" void wrapper() {
  Aff f; double e = vp_real_in("error", -0.5, 3); f.E[1][0] = e; GradientCheckingIterationCallback cb; std::vector<const Manifold*> ms(2, nullptr); auto w = CreateGradientCheckingCostFunction(&f, &ms, 1e-6, 0.1, "the-info", &cb); vp_check(w->num_residuals() == 2 && w->parameter_block_sizes() == f.parameter_block_sizes(), "sizes"); double x[2] = {1.5, -0.5}, y[1] = {2}, r[2], a[4] = {7, 7, 7, 7}, b[2] = {7, 7}; const double* p[2] = {x, y}; int which = vp_choose("null", 4); double* J[2] = {which & 1 ? nullptr : a, which & 2 ? nullptr : b}; vp_check(w->Evaluate(p, r, J), "evaluates even when the gradient is wrong"); for (int i = 0; i < 2; ++i) vp_check_eq(r[i], f.c[i] + f.A[i][0] * 1.5 - f.A[i][1] * 0.5 + f.B[i] * 2, "residual"); for (int i = 0; i < 4; ++i) vp_check_eq(a[i], which & 1 ? 7 : f.A[i / 2][i % 2] + f.E[i / 2][i % 2], "the user's Jacobian"); for (int i = 0; i < 2; ++i) vp_check_eq(b[i], which & 2 ? 7 : f.B[i], "the user's Jacobian"); bool bad = !(rel(f.A[1][0] + e, f.A[1][0]) < 0.1); vp_check(cb.gradient_error_detected() == bad, "error detected"); IterationSummary s; vp_check(cb(s) == (bad ? SOLVER_ABORT : SOLVER_CONTINUE), "a wrong gradient stops the solver"); size_t log = cb.error_log().size(); vp_check((log > 0) == bad, "logged"); vp_check(w->Evaluate(p, r, J) && cb.gradient_error_detected() == bad && cb(s) == (bad ? SOLVER_ABORT : SOLVER_CONTINUE), "an error found again stays an error"); vp_check(cb.error_log().size() >= log, "the log keeps"); f.E[1][0] = 0; vp_check(w->Evaluate(p, r, J) && cb.gradient_error_detected() == bad && cb(s) == (bad ? SOLVER_ABORT : SOLVER_CONTINUE), "a later correct gradient does not undo an error"); vp_check(w->Evaluate(p, r, nullptr) && cb.gradient_error_detected() == bad, "residuals only");
}
// The checking problem is the same problem.
// @run problem jobs=8
extern "C" void problem() {
  { ev::World W(Problem::Options(), 1 + vp_choose("tangent", 3)); int c = vp_choose("constant", 8); for (int i = 0; i < 3; ++i) if (c >> i & 1) W.constant(i); int bounds = vp_choose("bounds", 3); if (bounds) { W.p.SetParameterLowerBound(ev::X[0], 1, -2e3); W.p.SetParameterUpperBound(ev::X[1], 0, 3e3); if (bounds == 2 && W.man == nullptr) { W.p.SetParameterLowerBound(ev::X[2], 2, -5e3); W.p.SetParameterUpperBound(ev::X[2], 2, 7e3); } } GradientCheckingIterationCallback cb; ProblemImpl* impl = W.p.mutable_impl(); auto Q = CreateGradientCheckingProblemImpl(impl, 1e-6, 1e-3, &cb); vp_check(Q->NumParameterBlocks() == 3 && Q->NumResidualBlocks() == 3, "sizes"); std::vector<double*> a, b; Q->GetParameterBlocks(&a); impl->GetParameterBlocks(&b); vp_check(a == b, "same blocks in order"); for (int i = 0; i < 3; ++i) { double* x = ev::X[i]; vp_check(Q->ParameterBlockSize(x) == ev::SZ[i] && Q->IsParameterBlockConstant(x) == impl->IsParameterBlockConstant(x) && Q->GetManifold(x) == impl->GetManifold(x), "block"); for (int k = 0; k < ev::SZ[i]; ++k) { vp_check_eq(Q->GetParameterLowerBound(x, k), impl->GetParameterLowerBound(x, k), "lower bound"); vp_check_eq(Q->GetParameterUpperBound(x, k), impl->GetParameterUpperBound(x, k), "upper bound"); } } std::vector<ResidualBlockId> s, t; Q->GetResidualBlocks(&s); impl->GetResidualBlocks(&t); for (int i = 0; i < 3; ++i) { std::vector<double*> u, v; Q->GetParameterBlocksForResidualBlock(s[i], &u); impl->GetParameterBlocksForResidualBlock(t[i], &v); vp_check(u == v, "same dependence"); vp_check(Q->GetLossFunctionForResidualBlock(s[i]) == impl->GetLossFunctionForResidualBlock(t[i]), "same loss"); vp_check(Q->GetCostFunctionForResidualBlock(s[i])->num_residuals() == W.f[i]->num_residuals(), "same residuals"); } double x, y; Problem::EvaluateOptions o; vp_check(Q->Evaluate(o, &x, nullptr, nullptr, nullptr) && impl->Evaluate(o, &y, nullptr, nullptr, nullptr), "evaluates"); vp_check_eq(x, y, "same cost"); }
}
struct Fo : FirstOrderFunction { double c, g[3]; mutable int calls = 0; mutable const double* at = nullptr; mutable bool grad; bool fail = false; Fo() { c = vp_real("c"); for (double& v : g) v = vp_real("g"); } bool Evaluate(const double* x, double* cost, double* gr) const override { ++calls; at = x; grad = gr; *cost = c; if (gr) for (int i = 0; i < 3; ++i) gr[i] = g[i]; return !fail; } int NumParameters() const override { return 3; } };
struct M3 : Manifold { double A[6]; int f = 0; M3() { for (double& v : A) v = vp_real("A"); } int AmbientSize() const override { return 3; } int TangentSize() const override { return 2; } bool Plus(const double* x, const double* d, double* o) const override { for (int i = 0; i < 3; ++i) o[i] = x[i] + A[2 * i] * d[0] + A[2 * i + 1] * d[1]; return f != 1; } bool PlusJacobian(const double*, double* j) const override { memcpy(j, A, sizeof A); return f != 2; } bool Minus(const double*, const double*, double*) const override { return false; } bool MinusJacobian(const double*, double*) const override { return false; } };
// @run gradientproblem
extern "C" void gradientproblem() {
  long live = vp_live_blocks(); { Fo* f = new Fo; M3* m = vp_choose("manifold", 2) ? new M3 : nullptr; int failm = m ? vp_choose("fail", 3) : 0; if (m) m->f = failm; f->fail = vp_choose("ffail", 2); std::unique_ptr<GradientProblem> P(m ? new GradientProblem(std::unique_ptr<FirstOrderFunction>(f), std::unique_ptr<Manifold>(m)) : new GradientProblem(std::unique_ptr<FirstOrderFunction>(f))); vp_check(P->NumParameters() == 3 && P->NumTangentParameters() == (m ? 2 : 3) && P->function() == f && (!m || P->manifold() == m), "sizes"); double x[3] = {vp_real("x"), vp_real("x"), vp_real("x")}, cost = 0, g[4] = {7, 7, 7, 7}; GradientProblemEvaluator E(*P); Evaluator::EvaluateOptions eo; bool wantg = vp_choose("gradient", 2), viaE = vp_choose("evaluator", 2); bool ok = viaE ? E.Evaluate(eo, x, &cost, nullptr, wantg ? g : nullptr, nullptr) : P->Evaluate(x, &cost, wantg ? g : nullptr); vp_check(ok == (!f->fail && !(wantg && failm == 2)), "failures are reported"); vp_check(f->calls == 1 && f->at == x && f->grad == wantg, "one evaluation"); if (ok) { vp_check_eq(cost, f->c, "cost"); if (wantg) for (int k = 0; k < (m ? 2 : 3); ++k) vp_check_eq(g[k], m ? f->g[0] * m->A[k] + f->g[1] * m->A[2 + k] + f->g[2] * m->A[4 + k] : f->g[k], "tangent gradient"); } vp_check(g[3] == 7 && (!m || g[2] == 7) && (wantg || g[0] == 7), "nothing else written"); double d[3] = {vp_real("d"), vp_real("d"), vp_real("d")}, o[3]; bool pk = viaE ? E.Plus(x, d, o) : P->Plus(x, d, o); vp_check(pk == (failm != 1), "plus failure"); if (pk) for (int i = 0; i < 3; ++i) vp_check_eq(o[i], x[i] + (m ? m->A[2 * i] * d[0] + m->A[2 * i + 1] * d[1] : d[i]), "plus"); vp_check(E.NumParameters() == 3 && E.NumEffectiveParameters() == (m ? 2 : 3) && E.NumResiduals() == 1 && E.CreateJacobian() == nullptr, "evaluator sizes"); } vp_check(vp_live_blocks() == live, "everything is deleted");
}
// @run mismatch
extern "C" void mismatch() { vp_expect_abort(1); GradientProblem P(std::unique_ptr<FirstOrderFunction>(new Fo), std::unique_ptr<Manifold>(new EuclideanManifold<2>)); vp_expect_abort(0); vp_check(0, "a manifold of another size is refused"); }
