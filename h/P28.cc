// TinySolver: steps, acceptance, reported costs and reasons, and its function adapters.
#include "vp.h"
#include <cmath>
#include <type_traits>
#include <vector>
#include "ceres/sized_cost_function.h"
#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
// @bound up to 3 iterations (thorough: 4) of 1 or 2 parameters and 1 to 3 residuals, static, dynamic and bounded sizes; arbitrary starts, residuals and tolerances, Jacobians arbitrary in the first step and fixed per iteration beyond it; functions that fail are outside
using namespace ceres;
static int NR, NP; static bool symJ = false; static bool vary = false; static int few = 9, few0 = 9, upto = 0; static const double RT[3][3] = {{1, -2, 3}, {0.5, 1, -2}, {-4, 1, -1}};
struct Eval { std::vector<double> x, r, J; bool jac; };
static std::vector<Eval> ev;
static const double JT[3][6] = {{3, 1, 0, 4, -2, 1}, {4, 0, 2, 1, 1, 2}, {1, 2, -1, 2, 3, 0}};
static bool answer(const double* x, double* r, double* J) { Eval e; e.x.assign(x, x + NP); e.jac = J; bool again = J && !ev.empty() && !ev.back().jac; for (int i = 0; i < NR; ++i) e.r.push_back(r[i] = again ? ev.back().r[i] : i >= ((int)ev.size() <= upto ? few0 : few) ? RT[vary ? vp_choose("fixed", 3) : ev.size() % 3][i] : vp_real_in("r", -100, 100)); int nj = 0; for (Eval& f : ev) nj += f.jac; if (J) for (int i = 0; i < NR * NP; ++i) e.J.push_back(J[i] = symJ ? vp_real_in("J", -10, 10) : JT[nj % 3][i]); ev.push_back(e); return true; }
template <int R, int P> struct Fn { using Scalar = double; enum { NUM_RESIDUALS = R, NUM_PARAMETERS = P }; int NumResiduals() const { return NR; } int NumParameters() const { return NP; } bool operator()(const double* x, double* r, double* J) const { return answer(x, r, J); } };
static double ab(double v) { return v < 0 ? -v : v; }
static void close(double a, double b, const char* id) { vp_check_le(ab(a - b), 1e-6, id); }
struct Point { std::vector<double> x, r, J; double cost, gmax; std::vector<double> g, H; };
static std::vector<double> scale;
static double colnorm2(const Eval& e, int j) { double s = 0; for (int i = 0; i < NR; ++i) s += e.J[j * NR + i] * e.J[j * NR + i]; return s; }
static Point point(const Eval& e) { Point p; p.x = e.x; p.r = e.r; p.J = e.J; p.cost = 0; for (double v : e.r) p.cost += v * v; p.cost /= 2; p.gmax = 0; for (int j = 0; j < NP; ++j) { double g = 0; for (int i = 0; i < NR; ++i) g += e.J[j * NR + i] * e.r[i]; p.gmax = ab(g) > p.gmax ? ab(g) : p.gmax; p.g.push_back(-g * scale[j]); for (int k = 0; k < NP; ++k) { double h = 0; for (int i = 0; i < NR; ++i) h += e.J[j * NR + i] * e.J[k * NR + i]; p.H.push_back(h * scale[j] * scale[k]); } } return p; }
// replays Levenberg and Marquardt on the recorded evaluations
template <class S, class V> static void verify(S& s, V& x, const std::vector<double>& x0) {
  auto& o = s.options; auto& m = s.summary; size_t p = 0; vp_check(!ev.empty() && ev[0].jac, "derivatives at the start"); if (ev.empty()) return; for (int i = 0; i < NP; ++i) vp_check_eq(ev[0].x[i], x0[i], "at the start"); scale.clear(); for (int j = 0; j < NP; ++j) scale.push_back(1 / (1 + std::sqrt(colnorm2(ev[0], j)))); Point c = point(ev[p++]); using St = S; int st = m.status;
  auto end = [&](int iterations, int status) { vp_check(p == ev.size(), "no evaluation afterwards"); vp_check(st == status, "status"); vp_check(m.iterations == iterations, "iterations"); close(m.final_cost, c.cost, "final cost"); close(m.gradient_max_norm, c.gmax, "gradient of the final point"); for (int i = 0; i < NP; ++i) vp_check_eq(x[i], c.x[i], "the last accepted point is returned"); auto R = s.Residuals(); auto J = s.Jacobian(); vp_check(R.size() == NR && J.rows() == NR && J.cols() == NP, "sizes"); for (int i = 0; i < NR; ++i) { vp_check_eq(R[i], c.r[i], "residuals of the final point"); for (int j = 0; j < NP; ++j) close(J(i, j), c.J[j * NR + i], "Jacobian of the final point"); } };
  close(m.initial_cost, c.cost, "initial cost"); if (c.gmax < o.gradient_tolerance) return end(0, St::GRADIENT_TOO_SMALL); if (c.cost < o.cost_threshold) return end(0, St::COST_TOO_SMALL); double u = 1 / o.initial_trust_region_radius, v = 2;
  for (int k = 1;; ++k) { if (k >= o.max_num_iterations) return end(k, St::HIT_MAX_ITERATIONS); vp_assume(c.gmax > 1e-3); std::vector<double> A = c.H, l(NP); for (int i = 0; i < NP; ++i) { double d = c.H[i * NP + i]; A[i * NP + i] += u * (d < 1e-6 ? 1e-6 : d > 1e32 ? 1e32 : d); } if (NP == 1) l[0] = c.g[0] / A[0]; else { double D = A[0] * A[3] - A[1] * A[2]; l[0] = (A[3] * c.g[0] - A[1] * c.g[1]) / D; l[1] = (A[0] * c.g[1] - A[2] * c.g[0]) / D; }
    double dn = 0, xn = 0; for (int i = 0; i < NP; ++i) { dn += l[i] * scale[i] * l[i] * scale[i]; xn += c.x[i] * c.x[i]; } if (p == ev.size()) { double b = o.parameter_tolerance * (std::sqrt(xn) + o.parameter_tolerance); vp_check_le(dn, b * b + 1e-9, "stops for a small step only"); return end(k, St::RELATIVE_STEP_SIZE_TOO_SMALL); } else if (o.parameter_tolerance > 0) { double b = o.parameter_tolerance * (std::sqrt(xn) + o.parameter_tolerance); vp_check_le(b * b, dn + 1e-9, "goes on only for a step that is not small"); }
    Eval& t = ev[p++]; vp_check(!t.jac, "trial"); for (int i = 0; i < NP; ++i) close(t.x[i], c.x[i] + scale[i] * l[i], "damped Gauss-Newton step"); double f2 = 0; for (double q : t.r) f2 += q * q; double cc = 2 * c.cost - f2, mc = 0; for (int i = 0; i < NP; ++i) { double h = 0; for (int j = 0; j < NP; ++j) h += c.H[i * NP + j] * l[j]; mc += l[i] * (2 * c.g[i] - h); } double old = c.cost;
    bool taken = p < ev.size() && ev[p].jac; if (taken) { vp_check(cc > 0, "accepted steps reduce the cost"); Eval& d = ev[p++]; for (int i = 0; i < NP; ++i) vp_check_eq(d.x[i], t.x[i], "moves to the trial"); c = point(d); if (ab(cc) < o.function_tolerance * 2 * old) return end(k, St::COST_CHANGE_TOO_SMALL); if (c.gmax < o.gradient_tolerance) return end(k, St::GRADIENT_TOO_SMALL); if (c.cost < o.cost_threshold) return end(k, St::COST_TOO_SMALL); double rho = cc / mc, q = 2 * rho - 1, w = 1 - q * q * q; u *= w > 1 / 3. ? w : 1 / 3.; v = 2; }
    else { vp_check(cc <= 1e-6, "rejected steps do not reduce the cost"); if (ab(cc) < o.function_tolerance * 2 * old) return end(k, St::COST_CHANGE_TOO_SMALL); u *= v; v *= 2; } } }
template <class S, class F> static void solve(S& s, const F& f, int maxit) { typename S::ParameterVector x; x.resize(NP); std::vector<double> x0; for (int i = 0; i < NP; ++i) { x[i] = vp_real_in("x", -100, 100); x0.push_back(x[i]); } ev.clear(); s.options.max_num_iterations = maxit; s.Solve(f, &x); verify(s, x, x0); }
template <class S> static void exact(S& s) { s.options.gradient_tolerance = 0; s.options.parameter_tolerance = 0; s.options.function_tolerance = 0; s.options.cost_threshold = 0; s.options.initial_trust_region_radius = 4; }
// @run one jobs=8
extern "C" void one() { few0 = 0; upto = 1; vary = true; NR = NP = 1; TinySolver<Fn<1, 1>> s; exact(s); solve(s, Fn<1, 1>(), 3); }
// @run shapes jobs=8
extern "C" void shapes() { few = 1; few0 = 1; NR = 3; NP = 2; int k = vp_choose("sizes", 4); if (k == 0) { TinySolver<Fn<3, 2>> s; exact(s); solve(s, Fn<3, 2>(), 2); } if (k == 1) { using F = Fn<Eigen::Dynamic, 2>; TinySolver<F> s; exact(s); solve(s, F(), 2); } if (k == 2) { using F = Fn<3, Eigen::Dynamic>; TinySolver<F> s; exact(s); solve(s, F(), 2); } if (k == 3) { using F = Fn<Eigen::Dynamic, Eigen::Dynamic>; TinySolver<F, 4, 3> s; exact(s); solve(s, F(), 2); } }
// @run firststep jobs=8
extern "C" void firststep() { NR = NP = 1; TinySolver<Fn<1, 1>> s; exact(s); s.options.initial_trust_region_radius = vp_choose("radius", 2) ? 1e4 : 0.25; solve(s, Fn<1, 1>(), 2); }
// @run rejections jobs=8
extern "C" void rejections() { few = 1; few0 = 0; upto = 1; vary = true; NR = 2; NP = 1; TinySolver<Fn<2, 1>> s; exact(s); solve(s, Fn<2, 1>(), 3); }
// @run tolerances jobs=8
extern "C" void tolerances() { NR = NP = 1; TinySolver<Fn<1, 1>> s; exact(s); int k = vp_choose("which", 4); if (k == 0) s.options.gradient_tolerance = vp_real_in("gtol", 0.1, 10); if (k == 1) s.options.parameter_tolerance = 0.25; if (k == 2) s.options.function_tolerance = vp_real_in("ftol", 0.01, 0.5); if (k == 3) s.options.cost_threshold = vp_real_in("ctol", 0.1, 10); solve(s, Fn<1, 1>(), 2); }
// @run again jobs=8
extern "C" void again() { NR = NP = 1; TinySolver<Fn<1, 1>> s; exact(s); solve(s, Fn<1, 1>(), 2); solve(s, Fn<1, 1>(), 1); }
// @run resized jobs=8
extern "C" void resized() { few = 1; few0 = 1; using F = Fn<Eigen::Dynamic, Eigen::Dynamic>; TinySolver<F, 3, 2> s; exact(s); NR = 3; NP = 2; solve(s, F(), 1); NR = 2; NP = 1; solve(s, F(), 2); }
// @run anyjacobian jobs=8 tier=thorough time=600
extern "C" void anyjacobian() { NR = NP = 1; symJ = true; TinySolver<Fn<1, 1>> s; exact(s); s.options.initial_trust_region_radius = vp_choose("radius", 2) ? 1e4 : 0.25; solve(s, Fn<1, 1>(), 2); }
// @run deep jobs=8 tier=thorough time=600
extern "C" void deep() { few = 1; few0 = 1; NR = 2; NP = 1; TinySolver<Fn<2, 1>> s; exact(s); solve(s, Fn<2, 1>(), 4); }
struct Poly { int n; int NumResiduals() const { return n; } template <typename T> bool operator()(const T* x, T* r) const { if (fail) return false; for (int i = 0; i < n; ++i) r[i] = x[0] * x[1] * double(i + 1) - x[1] * c[i] + 2.0; return true; } static double c[3]; static int fail; };
double Poly::c[3]; int Poly::fail = 0;
template <int R, int MAX> static void autodiff(int n) { Poly f; f.n = n; Poly::fail = vp_choose("fails", 2); for (double& v : Poly::c) v = vp_real("c"); TinySolverAutoDiffFunction<Poly, R, 2, double, MAX> a(f); vp_check(a.NumResiduals() == n, "size"); double x[2] = {vp_real("x"), vp_real("x")}, r[4] = {7, 7, 7, 7}, J[8] = {7, 7, 7, 7, 7, 7, 7, 7}; bool jac = vp_choose("Jacobian", 2); bool ok = a(x, r, jac ? J : nullptr); vp_check(ok == !Poly::fail, "status"); for (int i = 0; i < 4; ++i) if (i >= n) vp_check(r[i] == 7, "nothing beyond"); for (int i = 0; i < 8; ++i) if (!jac || i >= 2 * n) vp_check(J[i] == 7, "nothing beyond"); if (!ok) return; for (int i = 0; i < n; ++i) { vp_check_eq(r[i], x[0] * x[1] * (i + 1) - x[1] * Poly::c[i] + 2, "residual"); if (jac) { vp_check_eq(J[i], x[1] * (i + 1), "derivative"); vp_check_eq(J[n + i], x[0] * (i + 1) - Poly::c[i], "derivative"); } } }
// @run autodiffed
extern "C" void autodiffed() { int k = vp_choose("kind", 3); if (k == 0) autodiff<3, 3>(3); if (k == 1) autodiff<Eigen::Dynamic, Eigen::Dynamic>(1 + vp_choose("n", 3)); if (k == 2) autodiff<Eigen::Dynamic, 3>(1 + vp_choose("n", 3)); }
struct Cost : CostFunction { int fail = 0; double r[3], J[6]; Cost(int n, int p) { set_num_residuals(n); mutable_parameter_block_sizes()->push_back(p); } bool Evaluate(double const* const* x, double* R, double** Js) const override { if (fail) return false; for (int i = 0; i < num_residuals(); ++i) R[i] = r[i] + x[0][0]; if (Js && Js[0]) for (int i = 0; i < num_residuals() * parameter_block_sizes()[0]; ++i) Js[0][i] = J[i]; return true; } };
template <int R, int P> static void adapter(int n, int p) { Cost c(n, p); c.fail = vp_choose("fails", 2); for (double& v : c.r) v = vp_real("r"); for (double& v : c.J) v = vp_real("J"); TinySolverCostFunctionAdapter<R, P> a(c); vp_check(a.NumResiduals() == n && a.NumParameters() == p, "size"); double x[2] = {vp_real("x"), vp_real("x")}, r[4] = {7, 7, 7, 7}, J[8] = {7, 7, 7, 7, 7, 7, 7, 7}; bool jac = vp_choose("Jacobian", 2); bool ok = a(x, r, jac ? J : nullptr); vp_check(ok == !c.fail, "status"); for (int i = n; i < 4; ++i) vp_check(r[i] == 7, "nothing beyond"); for (int i = 0; i < 8; ++i) if (!jac || i >= p * n) vp_check(J[i] == 7, "nothing beyond"); if (!ok) return; for (int i = 0; i < n; ++i) { vp_check_eq(r[i], c.r[i] + x[0], "residual"); if (jac) for (int j = 0; j < p; ++j) vp_check_eq(J[j * n + i], c.J[i * p + j], "transposed Jacobian"); } }
// @run adapted
extern "C" void adapted() { int k = vp_choose("kind", 4); int n = 1 + vp_choose("n", 3), p = 1 + vp_choose("p", 2); if (k == 0) adapter<3, 2>(3, 2); if (k == 1) adapter<Eigen::Dynamic, 2>(n, 2); if (k == 2) adapter<3, Eigen::Dynamic>(3, p); if (k == 3) adapter<Eigen::Dynamic, Eigen::Dynamic>(n, p); }
