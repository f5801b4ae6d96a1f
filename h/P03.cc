// Numeric differentiation cost functions.
#include "vp.h"
#include <memory>
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/numeric_diff_first_order_function.h"
#include "ceres/dynamic_numeric_diff_cost_function.h"
// @bound blocks (2,1), 2 residuals (affine for forward, quadratic for central, quartic with 3 extrapolations for Ridders); coefficients and parameters symbolic with |x| <= 4; relative step sizes symbolic in [1e-7, 0.1]; every null-jacobian subset; every call of the functor may be the one that fails; dynamic variant also with blocks (1,3,2,1) and 4 residuals under all three methods
static double C[2][10]; static int calls, failAt; static bool cubic;
static double seen[64][3]; static double base[3];
struct F {
  bool operator()(const double* a, const double* b, double* r) const {
    if (calls < 64) { seen[calls][0] = a[0]; seen[calls][1] = a[1]; seen[calls][2] = b[0]; }
    if (calls++ == failAt) return false;
    double x[3] = {a[0], a[1], b[0]};
    for (int k = 0; k < 2; ++k) { r[k] = C[k][9]; for (int i = 0; i < 3; ++i) r[k] += C[k][i] * x[i]; r[k] += C[k][3] * x[0] * x[0] + C[k][4] * x[0] * x[1] + C[k][5] * x[1] * x[1] + C[k][6] * x[2] * x[2] + C[k][7] * x[2] * x[0]; if (cubic) r[k] += C[k][8] * x[0] * x[0] * x[0]; }
    return true;
  }
};
static double jac(int k, int i, const double* x) { switch (i) { case 0: return C[k][0] + 2 * C[k][3] * x[0] + C[k][4] * x[1] + C[k][7] * x[2] + (cubic ? 3 * C[k][8] * x[0] * x[0] : 0); case 1: return C[k][1] + C[k][4] * x[0] + 2 * C[k][5] * x[1]; default: return C[k][2] + 2 * C[k][6] * x[2] + C[k][7] * x[0]; } }
static void setup(int degree) {
  for (auto& c : C) for (int i = 0; i < 10; ++i) c[i] = (i < 3 || i == 9 || (degree >= 2 && i < 8) || (degree >= 3 && i == 8)) ? vp_real("c") : 0;
  cubic = degree >= 3; calls = 0; failAt = -1; for (double& v : base) v = vp_real_in("x", -4, 4);
}
static void use(const ceres::CostFunction& f) {
  double x[3] = {base[0], base[1], base[2]}, jb[2][6], r[4] = {77, 77, 77, 77}; for (auto& j : jb) for (double& v : j) v = 77;
  const double* p[2] = {x, x + 2}; int m = vp_choose("nonnull", 5); double* j[2] = {m & 1 ? jb[0] + 1 : nullptr, m & 2 ? jb[1] + 1 : nullptr};
  bool ok = f.Evaluate(p, r + 1, m == 4 ? nullptr : j);
  for (int i = 0; i < 3; ++i) vp_check_eq(x[i], base[i], "caller's parameters untouched");
  vp_check(r[0] == 77 && r[3] == 77, "residual bounds");
  if (failAt >= 0 && failAt < calls) { vp_check(!ok, "functor failure is reported"); return; }
  vp_check(ok, "evaluates");
  for (int k = 0; k < 2; ++k) { double e = C[k][9]; for (int i = 0; i < 3; ++i) e += C[k][i] * base[i]; e += C[k][3] * base[0] * base[0] + C[k][4] * base[0] * base[1] + C[k][5] * base[1] * base[1] + C[k][6] * base[2] * base[2] + C[k][7] * base[2] * base[0]; if (cubic) e += C[k][8] * base[0] * base[0] * base[0]; vp_check_eq(r[1 + k], e, "residual"); }
  static const int sz[2] = {2, 1};
  for (int b = 0; b < 2; ++b) { bool on = m < 4 && (m >> b & 1); for (int k = 0; k < 6; ++k) if (!on || k < 1 || k > 2 * sz[b]) vp_check(jb[b][k] == 77, "jacobian bounds");
    if (on) for (int k = 0; k < 2; ++k) for (int i = 0; i < sz[b]; ++i) vp_check_eq(jb[b][1 + k * sz[b] + i], jac(k, 2 * b + i, base), "jacobian exact on its polynomial class"); }
  // perturbations: one coordinate at a time, by no more than max(sqrt(eps), step * |x|) (checked by the callers' step option)
}
static ceres::NumericDiffOptions opts() { ceres::NumericDiffOptions o; o.relative_step_size = vp_real_in("h", 1e-7, 0.1); return o; }
// @run forward
extern "C" void forward() { setup(1); ceres::NumericDiffCostFunction<F, ceres::FORWARD, 2, 2, 1> f(new F, ceres::TAKE_OWNERSHIP, 2, opts()); use(f); }
// @run central
extern "C" void central() { setup(2); ceres::NumericDiffCostFunction<F, ceres::CENTRAL, 2, 2, 1> f(new F, ceres::TAKE_OWNERSHIP, 2, opts()); use(f); }
// @run dynres
extern "C" void dynres() { setup(2); ceres::NumericDiffCostFunction<F, ceres::CENTRAL, ceres::DYNAMIC, 2, 1> f(new F, ceres::TAKE_OWNERSHIP, 2, opts()); vp_check(f.num_residuals() == 2, "residual count"); use(f); }
// @run steps
extern "C" void steps() {  // every perturbation moves one coordinate by exactly max(sqrt(eps), h |x|)
  setup(1); ceres::NumericDiffOptions o = opts(); double h = o.relative_step_size; bool cen = vp_choose("central", 2);
  double x[3] = {base[0], base[1], base[2]}, r[2], jb[2][4]; const double* p[2] = {x, x + 2}; double* j[2] = {jb[0], jb[1]};
  if (cen) { ceres::NumericDiffCostFunction<F, ceres::CENTRAL, 2, 2, 1> f(new F, ceres::TAKE_OWNERSHIP, 2, o); vp_check(f.Evaluate(p, r, j), "ok"); }
  else { ceres::NumericDiffCostFunction<F, ceres::FORWARD, 2, 2, 1> f(new F, ceres::TAKE_OWNERSHIP, 2, o); vp_check(f.Evaluate(p, r, j), "ok"); }
  vp_check(calls == (cen ? 7 : 4), "number of evaluations");
  double mn = std::sqrt(std::numeric_limits<double>::epsilon());
  for (int q = 0; q < 3; ++q) { double a = vp_decide(base[q] < 0) ? -base[q] : base[q]; double d = vp_decide(h * a > mn) ? h * a : mn;
    for (int s = 0; s < (cen ? 2 : 1); ++s) { const double* y = seen[1 + (cen ? 2 * q + s : q)]; for (int i = 0; i < 3; ++i) vp_check_eq(y[i], base[i] + (i == q ? (s ? -d : d) : 0), "perturbation"); } }
}
// @run failing
extern "C" void failing() { setup(1); failAt = vp_choose("failAt", 7); ceres::NumericDiffCostFunction<F, ceres::CENTRAL, 2, 2, 1> f(new F); use(f); }
// @run ridders time=25
extern "C" void ridders() {
  setup(1); for (auto& c : C) { c[3] = vp_real("c"); c[8] = 0; }
  ceres::NumericDiffOptions o; o.max_num_ridders_extrapolations = 3; o.ridders_relative_initial_step_size = vp_real_in("h", 1e-3, 0.1); o.ridders_step_shrink_factor = 2; o.ridders_epsilon = 1e-12;
  ceres::NumericDiffCostFunction<F, ceres::RIDDERS, 2, 2, 1> f(new F, ceres::TAKE_OWNERSHIP, 2, o); use(f);
}
struct F1 { bool operator()(const double* a, double* r) const { ++calls; double x = a[0]; r[0] = C[0][0] * x + C[0][1] * x * x * x + C[0][2]; return true; } };
// @run ridders3 time=25
extern "C" void ridders3() {  // one Richardson extrapolation is exact on cubics
  for (int i = 0; i < 3; ++i) C[0][i] = vp_real_in("c", -3, 3); double x = vp_real_in("x", -4, 4), r, j; const double* p = &x; double* jp = &j;
  vp_assume(C[0][1] > 0.125);
  ceres::NumericDiffOptions o; o.max_num_ridders_extrapolations = 2 + vp_choose("n", 2); o.ridders_relative_initial_step_size = 0.0625; o.ridders_step_shrink_factor = 2; o.ridders_epsilon = 1e-14;
  ceres::NumericDiffCostFunction<F1, ceres::RIDDERS, 1, 1> f(new F1, ceres::TAKE_OWNERSHIP, 1, o); vp_check(f.Evaluate(&p, &r, &jp), "ok");
  vp_check_eq(j, C[0][0] + 3 * C[0][1] * x * x, "extrapolated derivative of a cubic");
}
struct D { bool operator()(double const* const* p, double* r) const { return F()(p[0], p[1], r); } };
// @run dynamic
extern "C" void dynamic() { setup(2); ceres::DynamicNumericDiffCostFunction<D, ceres::CENTRAL> f(new D, ceres::TAKE_OWNERSHIP, opts()); f.AddParameterBlock(2); f.AddParameterBlock(1); f.SetNumResiduals(2); use(f); }
// @run dynamicf
extern "C" void dynamicf() { setup(1); failAt = vp_choose("failAt", 6) - 1; ceres::DynamicNumericDiffCostFunction<D, ceres::FORWARD> f(new D, ceres::TAKE_OWNERSHIP, opts()); f.AddParameterBlock(2); f.AddParameterBlock(1); f.SetNumResiduals(2); use(f); }
struct H { bool operator()(const double* x, double* c) const { *c = C[0][0] * x[0] + C[0][1] * x[1] + C[0][2] * x[0] * x[1] + C[0][3]; return true; } };
// @run firstorder
extern "C" void firstorder() {
  for (int i = 0; i < 4; ++i) C[0][i] = vp_real("c"); double x[2] = {vp_real_in("x0", -4, 4), vp_real_in("x1", -4, 4)}, c = 77, g[4] = {77, 77, 77, 77}, a = x[0], b = x[1]; int w = vp_choose("gradient", 2);
  ceres::NumericDiffFirstOrderFunction<H, ceres::CENTRAL, 2> f(new H); vp_check(f.Evaluate(x, &c, w ? g + 1 : nullptr), "ok"); vp_check(f.NumParameters() == 2, "size");
  vp_check_eq(c, C[0][0] * a + C[0][1] * b + C[0][2] * a * b + C[0][3], "cost"); vp_check(g[0] == 77 && g[3] == 77, "bounds"); vp_check_eq(x[0], a, "x untouched"); vp_check_eq(x[1], b, "x untouched");
  if (w) { vp_check_eq(g[1], C[0][0] + C[0][2] * b, "g0"); vp_check_eq(g[2], C[0][1] + C[0][2] * a, "g1"); }
}
static uint64_t bits(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return u; }
struct G { bool operator()(const double* a, double* r) const { if (calls < 64) { seen[calls][0] = a[0]; seen[calls][1] = a[1]; } ++calls; r[0] = 1; return true; } };
// @run restore ieee time=30
extern "C" void restore() {  // in IEEE arithmetic: every evaluation sees the other coordinates bit for bit
  calls = 0; int meth = vp_choose("method", 2); double x[2], r, jb[2], b[2]; for (double& v : x) { v = vp_double("x"); vp_assume(v >= -1e3 && v <= 1e3); } for (int i = 0; i < 2; ++i) b[i] = x[i];
  const double* p = x; double* j = jb; ceres::NumericDiffOptions o; o.relative_step_size = 0.0009765625;
  if (meth == 0) { ceres::NumericDiffCostFunction<G, ceres::CENTRAL, 1, 2> f(new G, ceres::TAKE_OWNERSHIP, 1, o); vp_check(f.Evaluate(&p, &r, &j), "ok"); }
  else { ceres::NumericDiffCostFunction<G, ceres::FORWARD, 1, 2> f(new G, ceres::TAKE_OWNERSHIP, 1, o); vp_check(f.Evaluate(&p, &r, &j), "ok"); }
  int per = meth == 0 ? 2 : 1; for (int k = 0; k < calls && k < 64; ++k) for (int i = 0; i < 2; ++i) if (k == 0 || (k - 1) / per != i) vp_check(bits(seen[k][i]) == bits(b[i]), "other coordinates untouched");
}

// Several blocks of different sizes and more residuals than blocks
static double Lc[4][8];
struct V { bool operator()(double const* const* p, double* r) const { static const int sz[4] = {1, 3, 2, 1}; for (int k = 0; k < 4; ++k) { r[k] = Lc[k][7]; for (int b = 0, n = 0; b < 4; ++b) for (int i = 0; i < sz[b]; ++i) r[k] += Lc[k][n++] * p[b][i]; } return true; }
  bool operator()(const double* a, const double* b, const double* c, const double* d, double* r) const { const double* p[4] = {a, b, c, d}; return (*this)(p, r); } };
static void several(const ceres::CostFunction& f) {
  static const int sz[4] = {1, 3, 2, 1}, off[4] = {0, 1, 4, 6}; double x[7], k0[7], r[4], jb[4][14]; for (int i = 0; i < 7; ++i) k0[i] = x[i] = i % 3 ? vp_real_in("x", 1, 4) : vp_real_in("x", -4, -1); for (auto& j : jb) for (double& v : j) v = 77; const double* p[4]; double* j[4]; int off1 = vp_choose("null", 5); for (int b = 0; b < 4; ++b) { p[b] = x + off[b]; j[b] = b == off1 ? nullptr : jb[b] + 1; }
  vp_check(f.parameter_block_sizes().size() == 4 && f.num_residuals() == 4, "signature"); vp_check(f.Evaluate(p, r, j), "ok"); for (int i = 0; i < 7; ++i) vp_check_eq(x[i], k0[i], "untouched");
  for (int k = 0; k < 4; ++k) { double e = Lc[k][7]; for (int i = 0; i < 7; ++i) e += Lc[k][i] * x[i]; vp_check_eq(r[k], e, "residual"); for (int b = 0; b < 4; ++b) for (int i = 0; i < sz[b]; ++i) if (b == off1) vp_check(jb[b][1 + k * sz[b] + i] == 77, "not asked for"); else vp_check_eq(jb[b][1 + k * sz[b] + i], Lc[k][off[b] + i], "jacobian"); }
  for (int b = 0; b < 4; ++b) vp_check(jb[b][0] == 77 && jb[b][1 + 4 * sz[b]] == 77, "bounds");
}
static void lcoef() { for (auto& c : Lc) for (double& v : c) v = vp_real_in("c", -3, 3); }
template <class M> static void addb(M& f) { for (int s : {1, 3, 2, 1}) f.AddParameterBlock(s); f.SetNumResiduals(4); }
// @run several_dynamic time=30
extern "C" void several_dynamic() { lcoef(); ceres::NumericDiffOptions o; o.relative_step_size = 0.0625; if (vp_choose("central", 2)) { ceres::DynamicNumericDiffCostFunction<V, ceres::CENTRAL> f(new V, ceres::TAKE_OWNERSHIP, o); addb(f); several(f); } else { ceres::DynamicNumericDiffCostFunction<V, ceres::FORWARD> f(new V, ceres::TAKE_OWNERSHIP, o); addb(f); several(f); } }
// @run several_static time=30
extern "C" void several_static() { lcoef(); ceres::NumericDiffOptions o; o.relative_step_size = 0.0625; if (vp_choose("central", 2)) { ceres::NumericDiffCostFunction<V, ceres::CENTRAL, 4, 1, 3, 2, 1> f(new V, ceres::TAKE_OWNERSHIP, 4, o); several(f); } else { ceres::NumericDiffCostFunction<V, ceres::FORWARD, ceres::DYNAMIC, 1, 3, 2, 1> f(new V, ceres::TAKE_OWNERSHIP, 4, o); several(f); } }
// @run several_ridders time=30
extern "C" void several_ridders() { for (int k = 0; k < 4; ++k) for (int i = 0; i < 8; ++i) Lc[k][i] = k + 1 + i * i; ceres::NumericDiffOptions o; o.max_num_ridders_extrapolations = 2; o.ridders_relative_initial_step_size = 0.0625; o.ridders_step_shrink_factor = 2; if (vp_choose("static", 2)) { ceres::NumericDiffCostFunction<V, ceres::RIDDERS, 4, 1, 3, 2, 1> f(new V, ceres::TAKE_OWNERSHIP, 4, o); several(f); } else { ceres::DynamicNumericDiffCostFunction<V, ceres::RIDDERS> f(new V, ceres::TAKE_OWNERSHIP, o); addb(f); several(f); } }
struct F3 { bool operator()(const double* a, double* r) const { double x = a[0]; for (int k = 0; k < 3; ++k) r[k] = C[k % 2][0] * x * (k + 1) + (k + 1) * x * x * x; return true; } };
// @run ridders_rows time=25
extern "C" void ridders_rows() {  // every row is the best extrapolation, not only the first
  C[0][0] = vp_real_in("c", -3, 3); C[1][0] = vp_real_in("c", -3, 3); double x = vp_real_in("x", -4, 4), r[3], j[3]; const double* p = &x; double* jp = j;
  ceres::NumericDiffOptions o; o.max_num_ridders_extrapolations = 2 + vp_choose("n", 2); o.ridders_relative_initial_step_size = 0.0625; o.ridders_step_shrink_factor = 2; o.ridders_epsilon = 1e-14;
  ceres::NumericDiffCostFunction<F3, ceres::RIDDERS, 3, 1> f(new F3, ceres::TAKE_OWNERSHIP, 3, o); vp_check(f.Evaluate(&p, r, &jp), "ok");
  for (int k = 0; k < 3; ++k) vp_check_eq(j[k], (k + 1) * (C[k % 2][0] + 3 * x * x), "extrapolated derivative of a cubic");
}
static bool hfail; struct HF { bool operator()(const double* x, double* c) const { if (calls++ == failAt) return false; *c = C[0][0] * x[0] + C[0][1] * x[1] + C[0][2]; return true; } };
// @run fo_failing
extern "C" void fo_failing() {  // first-order functions report the failure of any evaluation; forward differences and a run-time size
  for (int i = 0; i < 3; ++i) C[0][i] = vp_real("c"); calls = 0; failAt = vp_choose("failAt", 7) - 1; double x[2] = {vp_real_in("x0", -4, 4), vp_real_in("x1", -4, 4)}, a = x[0], b = x[1], c = 77, g[4] = {77, 77, 77, 77}; int w = vp_choose("gradient", 2); bool ok; ceres::NumericDiffOptions o; o.relative_step_size = 0.0625;
  if (vp_choose("dynamic", 2)) { ceres::NumericDiffFirstOrderFunction<HF, ceres::FORWARD> f(std::make_unique<HF>(), 2, ceres::TAKE_OWNERSHIP, o); vp_check(f.NumParameters() == 2, "size"); ok = f.Evaluate(x, &c, w ? g + 1 : nullptr); }
  else { ceres::NumericDiffFirstOrderFunction<HF, ceres::CENTRAL, 2> f(std::make_unique<HF>(), o); ok = f.Evaluate(x, &c, w ? g + 1 : nullptr); }
  vp_check(ok == !(failAt >= 0 && failAt < calls), "failure reported"); vp_check_eq(x[0], a, "untouched"); vp_check_eq(x[1], b, "untouched"); vp_check(g[0] == 77 && g[3] == 77, "bounds"); if (!ok) return;
  vp_check_eq(c, C[0][0] * a + C[0][1] * b + C[0][2], "cost"); if (w) { vp_check_eq(g[1], C[0][0], "g0"); vp_check_eq(g[2], C[0][1], "g1"); }
}
