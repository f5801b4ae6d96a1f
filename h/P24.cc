// Line searches: which steps are tried, which is returned, and what success means.
#include "vp.h"
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include "ceres/evaluator.h"
#include "ceres/line_search.h"
#include "ceres/function_sample.h"
// @bound up to 4 iterations (thorough: 5) along a fixed direction of 1 or 2 parameters; arbitrary costs and directional derivatives at every trial, every pattern of failing Plus, failing evaluation, non-finite cost and non-finite gradient; bisection throughout, one or two trials with quadratic and cubic interpolation
using namespace ceres; using namespace ceres::internal;
static int N = 1; static bool faults = false, bad = false, tame = false; static const double tg[3] = {-6, -0.5, 2};
struct T { double x, f, g; bool valid, gvalid; std::vector<double> v, G; };
static std::vector<T> tr; static double pos[2] = {3, -5}, dir[2] = {2, -4};
static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();
struct Ev : Evaluator {
  mutable std::vector<double> at, d; bool wantg = true;
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  bool Evaluate(const EvaluateOptions& o, const double* x, double* cost, double* r, double* g, SparseMatrix* J) override {
    vp_check(cost && !r && !J && (g != nullptr) == wantg && o.apply_loss_function && o.new_evaluation_point, "what is requested"); vp_check(!tr.empty() && !tr.back().valid, "after Plus"); T& t = tr.back(); for (int i = 0; i < N; ++i) vp_check_eq(x[i], t.v[i], "evaluated where Plus went");
    int how = faults ? vp_choose("evaluation", bad ? 5 : 2) : 0; *cost = how == 2 ? inf : how == 3 ? nan_ : (t.f = vp_real_in("cost", 0, 1000)); t.valid = how == 0 || how == 4; if (g) { t.g = 0; for (int i = 0; i < N; ++i) { double q = i == 0 && how == 4 ? (vp_choose("gradient", 2) ? nan_ : inf) : tame ? tg[vp_choose("gradient", 3)] : vp_real_in("gradient", -100, 100); t.G.push_back(g[i] = q); if (how != 4) t.g += q * dir[i]; } t.gvalid = how == 0; } return how != 1; }
  bool Plus(const double* x, const double* dl, double* o) const override { T t; t.valid = t.gvalid = false; t.x = dl[0] / dir[0]; for (int i = 0; i < N; ++i) { vp_check_eq(x[i], pos[i], "from the position"); vp_check_eq(dl[i], t.x * dir[i], "along the direction"); t.v.push_back(o[i] = x[i] + 2 * dl[i]); } tr.push_back(t); return !(faults && vp_choose("Plus", 2)); }
  int NumParameters() const override { return N; } int NumEffectiveParameters() const override { return N; } int NumResiduals() const override { return 1; }
};
struct World { Ev ev; LineSearchFunction f{&ev}; LineSearch::Options o; LineSearch::Summary S; double f0, g0, norm = 0, est = 1;
  World(int n) : ev((N = n, Ev())), f(&ev) { Vector p(N), d(N); for (int i = 0; i < N; ++i) { p[i] = pos[i]; d[i] = dir[i]; norm = std::fmax(norm, std::fabs(dir[i])); } f.Init(p, d); o.interpolation_type = BISECTION; o.sufficient_decrease = 0.25; o.sufficient_curvature_decrease = 0.5; o.max_step_expansion = 4; o.max_step_contraction = 0.125; o.min_step_contraction = 0.75; o.min_step_size = 1e-6; o.max_num_iterations = 3; o.is_silent = true; o.function = &f; }
  void run(LineSearchType t, bool descent = true) { if (tame) { f0 = 100; g0 = -4; } else f0 = vp_real_in("f0", 0, 1000); if (!tame) g0 = descent ? vp_real_in("g0", -100, -0.5) : vp_real_in("g0", -100, 100); std::string e; auto ls = LineSearch::Create(t, o, &e); ls->Search(est, f0, g0, &S); }
  bool armijo(const T& t) { return !(t.f > f0 + o.sufficient_decrease * g0 * t.x); } bool wolfe(const T& t) { return std::fabs(t.g) <= -o.sufficient_curvature_decrease * g0; }
  void is(const T& t, bool grad) { auto& p = S.optimal_point; vp_check(p.vector_x_is_valid && p.value_is_valid, "a valid point"); vp_check_eq(p.x, t.x, "its step size"); vp_check_eq(p.value, t.f, "its cost"); for (int i = 0; i < N; ++i) vp_check_eq(p.vector_x[i], t.v[i], "its position"); vp_check(p.vector_gradient_is_valid == (grad && t.gvalid), "gradient flag"); if (grad && t.gvalid) { vp_check_eq(p.gradient, t.g, "its directional derivative"); for (int i = 0; i < N; ++i) vp_check_eq(p.vector_gradient[i], t.G[i], "its gradient"); } }
};
static double ab(double v) { return v < 0 ? -v : v; }
static void armijo(World& w) {
  auto& S = w.S; auto& o = w.o; bool g = o.interpolation_type == CUBIC; size_t n = tr.size(); vp_check(n >= 1 && (int)n <= o.max_num_iterations, "trials within the limit"); vp_check(S.num_function_evaluations == (int)n && S.num_gradient_evaluations == (g ? (int)n : 0), "evaluation counts"); vp_check_eq(tr[0].x, w.est, "starts at the estimate");
  for (size_t i = 0; i + 1 < n; ++i) { vp_check(!(tr[i].valid && w.armijo(tr[i])), "stops at the first sufficient decrease"); vp_check_le(tr[i + 1].x, o.min_step_contraction * tr[i].x, "contracts enough"); vp_check_le(o.max_step_contraction * tr[i].x, tr[i + 1].x, "contracts no more than allowed"); vp_check_le(o.min_step_size, tr[i + 1].x * w.norm, "no trial below the minimum step"); }
  bool ok = tr[n - 1].valid && w.armijo(tr[n - 1]); vp_check(S.success == ok, "success is sufficient decrease"); vp_check(S.num_iterations == (int)n - (ok ? 1 : 0), "iterations"); if (ok) w.is(tr[n - 1], g); else vp_check((int)n == o.max_num_iterations || tr[n - 1].x * o.max_step_contraction * w.norm < o.min_step_size, "gives up only at a limit"); }
// the bracketing and zoom of Nocedal and Wright (algorithms 3.5 and 3.6) over the recorded trials
static void wolfe(World& w) {
  auto& S = w.S; auto& o = w.o; size_t n = tr.size(), k = 0; vp_check(n >= 1 && (int)n <= o.max_num_iterations, "trials within the limit"); vp_check(S.num_function_evaluations == (int)n && S.num_gradient_evaluations == (int)n && S.num_iterations == (int)n, "counts"); vp_check_eq(tr[0].x, w.est, "starts at the estimate");
  T zero; zero.x = 0; zero.f = w.f0; zero.g = w.g0; zero.valid = zero.gvalid = true; for (int i = 0; i < N; ++i) zero.v.push_back(pos[i]); T prev = zero, lo = zero, hi = zero; int out = -1; /* 0 fails, 1 lo */ bool zoom = false, strong = false;
  for (;; ++k) { if (k >= n) { vp_check(0, "stopped early"); return; } T& t = tr[k]; if (k > 0) { double a = tr[k - 1].valid && tr[k - 1].gvalid ? tr[k - 1].x : prev.x, b = tr[k - 1].valid && tr[k - 1].gvalid ? o.max_step_expansion * tr[k - 1].x : tr[k - 1].x; vp_check_le(a, t.x, "not before the bracket"); vp_check_le(t.x, b, "expansion limit"); vp_check_le(o.min_step_size, t.x * w.norm, "no trial below the minimum step"); }
    bool v = t.valid && t.gvalid; if (v && (!w.armijo(t) || t.f > prev.f)) { lo = prev; hi = t; zoom = true; break; } if (v && w.wolfe(t)) { lo = t; out = 1; strong = true; break; } if (v && t.g >= 0) { lo = t; hi = prev; zoom = true; break; } if (v && ab(t.x - prev.x) * w.norm < o.min_step_size) { lo = t; out = 1; break; }
    if ((int)k + 1 >= o.max_num_iterations) { if (v) lo = t; else lo = prev; out = lo.x > 0; break; }
    if (k + 1 == n) { double next = v ? t.x : prev.x; vp_check(next * w.norm < o.min_step_size, "stopped early"); out = 0; break; } if (v) prev = t; }
  ++k; if (zoom && ab(hi.x - lo.x) * w.norm < o.min_step_size) out = 1; else if (zoom && lo.g * (hi.x - lo.x) >= 0) out = 0; else if (zoom) for (;; ++k) { if ((int)k >= o.max_num_iterations || ab(hi.x - lo.x) * w.norm < o.min_step_size) { out = 1; break; } if (k >= n) { vp_check(0, "stopped early"); return; } T& t = tr[k]; double a = lo.x < hi.x ? lo.x : hi.x, b = lo.x < hi.x ? hi.x : lo.x; vp_check_le(a, t.x, "inside the bracket"); vp_check_le(t.x, b, "inside the bracket"); if (!t.valid || !t.gvalid) { out = 0; ++k; break; } if (!w.armijo(t) || t.f >= lo.f) { hi = t; continue; } if (w.wolfe(t)) { lo = t; out = 1; strong = true; ++k; break; } if (t.g * (hi.x - lo.x) >= 0) hi = lo; lo = t; }
  vp_check(k == n, "nothing is tried after the decision"); vp_check(S.success == (out == 1), "success"); if (!S.success) return; if (lo.x == 0) { vp_check(!S.success, "success although no trial sufficed"); w.is(lo, false); return; } vp_check(S.optimal_point.x > 0, "success means a non-zero step"); w.is(lo, true); auto& p = S.optimal_point; vp_check_le(p.value, w.f0 + o.sufficient_decrease * w.g0 * p.x, "sufficient decrease"); if (strong) vp_check_le(ab(p.gradient), o.sufficient_curvature_decrease * ab(w.g0), "curvature"); else for (T& t : tr) if (t.valid && t.gvalid && w.armijo(t)) vp_check_le(p.value, t.f, "lowest acceptable trial"); }
// @run armijo_bisection jobs=4
extern "C" void armijo_bisection() { faults = true; World w(1 + vp_choose("parameters", 2)); w.ev.wantg = false; w.o.max_num_iterations = 1 + vp_choose("limit", 3); w.run(ARMIJO, false); armijo(w); }
// @run armijo_small jobs=4
extern "C" void armijo_small() { faults = bad = true; World w(1); w.ev.wantg = false; w.est = 0.5; w.o.min_step_size = 0.75; w.o.max_num_iterations = 4; w.run(ARMIJO, false); armijo(w); }
// @run armijo_quadratic jobs=4
extern "C" void armijo_quadratic() { World w(1); w.ev.wantg = false; w.o.interpolation_type = QUADRATIC; w.o.max_num_iterations = 2; w.run(ARMIJO); armijo(w); }
// @run armijo_cubic jobs=4
extern "C" void armijo_cubic() { World w(1); tame = true; w.o.interpolation_type = CUBIC; w.o.max_num_iterations = 2; w.run(ARMIJO); armijo(w); }
// @run wolfe_bisection jobs=8
extern "C" void wolfe_bisection() { World w(1); w.o.max_num_iterations = 1 + vp_choose("limit", 4); w.run(WOLFE); wolfe(w); }
// @run wolfe_faults jobs=8
extern "C" void wolfe_faults() { faults = bad = true; World w(1); w.o.max_num_iterations = 3; w.run(WOLFE); wolfe(w); }
// @run wolfe_two jobs=8
extern "C" void wolfe_two() { World w(2); w.o.max_num_iterations = 3; w.run(WOLFE); wolfe(w); }
// @run wolfe_small jobs=8
extern "C" void wolfe_small() { faults = true; World w(1); w.est = 0.5; w.o.min_step_size = 0.75; w.o.max_num_iterations = 4; w.run(WOLFE); wolfe(w); }
// @run wolfe_quadratic jobs=8
extern "C" void wolfe_quadratic() { World w(1); w.o.interpolation_type = QUADRATIC; w.o.max_num_iterations = 2; w.run(WOLFE); wolfe(w); }
// @run wolfe_cubic jobs=8
extern "C" void wolfe_cubic() { World w(1); tame = true; w.o.interpolation_type = CUBIC; w.o.max_num_iterations = 2; w.run(WOLFE); wolfe(w); }
// @run wolfe_deep jobs=8 tier=thorough time=600 max-paths=2000000
extern "C" void wolfe_deep() { faults = bad = true; World w(1); w.o.max_num_iterations = 5; w.run(WOLFE); wolfe(w); }
// @run cubic_general jobs=8 tier=thorough time=600
extern "C" void cubic_general() { World w(1); w.o.interpolation_type = CUBIC; w.o.max_num_iterations = 2; w.run(ARMIJO); armijo(w); }
// @run types
extern "C" void types() { World w(1); std::string e; vp_check(LineSearch::Create(ARMIJO, w.o, &e) != nullptr && LineSearch::Create(WOLFE, w.o, &e) != nullptr, "both kinds exist"); vp_check(LineSearch::Create(static_cast<LineSearchType>(7), w.o, &e) == nullptr, "unknown kind refused"); }
