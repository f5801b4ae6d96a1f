// Automatic differentiation cost functions.
#include "vp.h"
#include <memory>
#include "ceres/autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/dynamic_autodiff_cost_function.h"
// @bound parameter blocks of sizes (2,1,3), 2 residuals, every subset of null jacobian pointers, every coefficient and parameter symbolic; dynamic variant: blocks (2,1,3,1,2), strides 1, 2, 3 and 4, every subset of null jacobians; first-order functions of 3 parameters; 23 residuals (beyond the stack limit of 20), static and dynamic; any one residual left unwritten
static double C[2][16];
static int live, calls;
static bool okFlag = true;
// r0 = c.x + x0 x3 + sin(x1) x5 + x2^2 , r1 = d.x + x4 / (1 + x0^2) + x2 x5
struct F {
  int id = 0; F() { ++live; } explicit F(int i) : id(i) { ++live; } F(const F&) = delete; ~F() { --live; }
  template <typename T> bool operator()(const T* a, const T* b, const T* c, T* r) const {
    using std::sin; ++calls;
    const T x[6] = {a[0], a[1], b[0], c[0], c[1], c[2]};
    r[0] = T(C[0][6]); r[1] = T(C[1][6]);
    for (int i = 0; i < 6; ++i) { r[0] += C[0][i] * x[i]; r[1] += C[1][i] * x[i]; }
    r[0] += x[0] * x[3] + sin(x[1]) * x[5] + x[2] * x[2]; r[1] += x[4] / (1.0 + x[0] * x[0]) + x[2] * x[5];
    return okFlag;
  }
};
static void expected(const double* x, double* r, double J[2][6]) {
  r[0] = C[0][6]; r[1] = C[1][6]; for (int i = 0; i < 6; ++i) for (int k = 0; k < 2; ++k) { r[k] += C[k][i] * x[i]; J[k][i] = C[k][i]; }
  double q = 1 + x[0] * x[0];
  r[0] += x[0] * x[3] + std::sin(x[1]) * x[5] + x[2] * x[2]; r[1] += x[4] / q + x[2] * x[5];
  J[0][0] += x[3]; J[0][3] += x[0]; J[0][1] += std::cos(x[1]) * x[5]; J[0][5] += std::sin(x[1]); J[0][2] += 2 * x[2];
  J[1][4] += 1 / q; J[1][0] -= x[4] * 2 * x[0] / (q * q); J[1][2] += x[5]; J[1][5] += x[2];
}
static void coeffs() { for (auto& c : C) for (int i = 0; i < 7; ++i) c[i] = vp_real("c"); }
static void use(ceres::CostFunction& f) {
  double x[6], keep[6]; for (int i = 0; i < 6; ++i) keep[i] = x[i] = vp_real("x");
  double pr[3][6]; pr[0][0] = x[0]; pr[0][1] = x[1]; pr[1][0] = x[2]; pr[2][0] = x[3]; pr[2][1] = x[4]; pr[2][2] = x[5];
  const double* p[3] = {pr[0], pr[1], pr[2]};
  static const int sz[3] = {2, 1, 3}, off[3] = {0, 2, 3};
  double jb[3][8]; for (auto& j : jb) for (double& v : j) v = 77; double r[4] = {77, 77, 77, 77};
  int m = vp_choose("nonnull", 9);
  double* jac[3]; for (int i = 0; i < 3; ++i) jac[i] = (m >> i & 1) ? jb[i] + 1 : nullptr;
  bool ok = f.Evaluate(p, r + 1, m == 8 ? nullptr : jac);
  vp_check(ok == okFlag, "return value"); if (!ok) return;
  double er[2], eJ[2][6]; expected(keep, er, eJ);
  vp_check_eq(r[1], er[0], "residual"); vp_check_eq(r[2], er[1], "residual"); vp_check(r[0] == 77 && r[3] == 77, "residual buffer bounds");
  for (int b = 0; b < 3; ++b) {
    int n = 2 * sz[b]; bool on = m < 8 && (m >> b & 1);
    for (int k = 0; k < 8; ++k) if (!on || k < 1 || k > n) vp_check(jb[b][k] == 77, "jacobian buffer bounds");
    if (on) for (int k = 0; k < 2; ++k) for (int j = 0; j < sz[b]; ++j) vp_check_eq(jb[b][1 + k * sz[b] + j], eJ[k][off[b] + j], "jacobian");
  }
  for (int i = 0; i < 2; ++i) vp_check_eq(pr[0][i], keep[i], "parameters untouched"); 
}
// @run fixed time=20
extern "C" void fixed() {
  coeffs(); okFlag = true;
  { ceres::AutoDiffCostFunction<F, 2, 2, 1, 3> f(new F); vp_check(f.num_residuals() == 2 && f.parameter_block_sizes().size() == 3 && f.parameter_block_sizes()[0] == 2 && f.parameter_block_sizes()[1] == 1 && f.parameter_block_sizes()[2] == 3, "signature"); vp_check(live == 1, "functor alive"); use(f); }
  vp_check(live == 0, "functor freed");
}
// @run dynres time=20
extern "C" void dynres() {
  coeffs(); okFlag = true; F own;
  { ceres::AutoDiffCostFunction<F, ceres::DYNAMIC, 2, 1, 3> f(&own, 2, ceres::DO_NOT_TAKE_OWNERSHIP); vp_check(f.num_residuals() == 2, "dynamic residual count"); use(f); }
  vp_check(live == 1, "functor not freed");
}
// @run fails
extern "C" void fails() { coeffs(); okFlag = false; ceres::AutoDiffCostFunction<F, 2, 2, 1, 3> f(std::make_unique<F>(3)); vp_check(f.functor().id == 3, "functor()"); use(f); }
// @run owners
extern "C" void owners() {
  typedef ceres::AutoDiffCostFunction<F, 2, 2, 1, 3> A;
  { A a(5); vp_check(live == 1 && a.functor().id == 5, "in-place functor"); A b(std::move(a)); vp_check(live == 1 && b.functor().id == 5, "moved"); }
  vp_check(live == 0, "moved functor freed once");
  { F f; { A a(&f, ceres::DO_NOT_TAKE_OWNERSHIP); vp_check(&a.functor() == &f, "borrowed"); } vp_check(live == 1, "borrowed functor kept"); }
}
struct G {
  template <typename T> bool operator()(T const* const* p, T* r) const {
    using std::sin; ++calls; static const int sz[5] = {2, 1, 3, 1, 2};
    T x[9]; int n = 0; for (int b = 0; b < 5; ++b) for (int j = 0; j < sz[b]; ++j) x[n++] = p[b][j];
    r[0] = T(C[0][9]); r[1] = T(C[1][9]);
    for (int i = 0; i < 9; ++i) { r[0] += C[0][i] * x[i]; r[1] += C[1][i] * x[i] * x[i]; }
    r[0] += x[0] * x[8]; r[1] += x[2] * x[5];
    return okFlag;
  }
};
template <int S> static void dyn() {
  for (auto& c : C) for (int i = 0; i < 10; ++i) c[i] = vp_real("c");
  okFlag = true;
  ceres::DynamicAutoDiffCostFunction<G, S> f(new G); static const int sz[5] = {2, 1, 3, 1, 2}, off[5] = {0, 2, 3, 6, 7};
  for (int s : sz) f.AddParameterBlock(s); f.SetNumResiduals(2);
  vp_check(f.num_residuals() == 2 && f.parameter_block_sizes().size() == 5, "signature");
  double x[9]; for (double& v : x) v = vp_real("x"); const double* p[5]; for (int b = 0; b < 5; ++b) p[b] = x + off[b];
  double jb[5][8]; for (auto& j : jb) for (double& v : j) v = 77; double r[4] = {77, 77, 77, 77};
  int m = vp_choose("nonnull", 33); double* jac[5]; for (int b = 0; b < 5; ++b) jac[b] = (m >> b & 1) ? jb[b] + 1 : nullptr;
  vp_check(f.Evaluate(p, r + 1, m == 32 ? nullptr : jac), "evaluates");
  double e0 = C[0][9] + x[0] * x[8], e1 = C[1][9] + x[2] * x[5]; for (int i = 0; i < 9; ++i) { e0 += C[0][i] * x[i]; e1 += C[1][i] * x[i] * x[i]; }
  vp_check_eq(r[1], e0, "residual"); vp_check_eq(r[2], e1, "residual"); vp_check(r[0] == 77 && r[3] == 77, "residual bounds");
  double J[2][9]; for (int i = 0; i < 9; ++i) { J[0][i] = C[0][i]; J[1][i] = 2 * C[1][i] * x[i]; } J[0][0] += x[8]; J[0][8] += x[0]; J[1][2] += x[5]; J[1][5] += x[2];
  for (int b = 0; b < 5; ++b) { bool on = m < 32 && (m >> b & 1); int n = 2 * sz[b];
    for (int k = 0; k < 8; ++k) if (!on || k < 1 || k > n) vp_check(jb[b][k] == 77, "jacobian bounds");
    if (on) for (int k = 0; k < 2; ++k) for (int j = 0; j < sz[b]; ++j) vp_check_eq(jb[b][1 + k * sz[b] + j], J[k][off[b] + j], "jacobian"); }
}
// @run dyn1 time=20
extern "C" void dyn1() { dyn<1>(); }
// @run dyn2 time=20
extern "C" void dyn2() { dyn<2>(); }
// @run dyn3 time=20
extern "C" void dyn3() { dyn<3>(); }
// @run dyn4 time=20
extern "C" void dyn4() { dyn<4>(); }
// @run dynfail
extern "C" void dynfail() {
  okFlag = false; ceres::DynamicAutoDiffCostFunction<G, 4> f(new G); for (int s : {2, 1, 3, 1, 2}) f.AddParameterBlock(s); f.SetNumResiduals(2);
  double x[9] = {}, r[2], jb[6]; const double* p[5] = {x, x + 2, x + 3, x + 6, x + 7}; double* jac[5] = {jb, 0, 0, 0, 0};
  vp_check(!f.Evaluate(p, r, jac), "failure reported"); vp_check(!f.Evaluate(p, r, nullptr), "failure reported without jacobians"); jac[0] = 0; vp_check(!f.Evaluate(p, r, jac), "failure reported, all null");
}
struct H { template <typename T> bool operator()(const T* x, T* c) const { *c = C[0][0] * x[0] * x[1] + C[0][1] * x[2] * x[2] + x[0]; return okFlag; } };
// @run firstorder
extern "C" void firstorder() {
  C[0][0] = vp_real("c0"); C[0][1] = vp_real("c1"); okFlag = vp_choose("ok", 2);
  ceres::AutoDiffFirstOrderFunction<H, 3> f(new H); vp_check(f.NumParameters() == 3, "size");
  double x[3] = {vp_real("x0"), vp_real("x1"), vp_real("x2")}, g[5] = {77, 77, 77, 77, 77}, c = 77; int w = vp_choose("gradient", 2);
  vp_check(f.Evaluate(x, &c, w ? g + 1 : nullptr) == okFlag, "return"); if (!okFlag) return;
  vp_check_eq(c, C[0][0] * x[0] * x[1] + C[0][1] * x[2] * x[2] + x[0], "cost");
  vp_check(g[0] == 77 && g[4] == 77, "gradient bounds");
  if (w) { vp_check_eq(g[1], C[0][0] * x[1] + 1, "g0"); vp_check_eq(g[2], C[0][0] * x[0], "g1"); vp_check_eq(g[3], 2 * C[0][1] * x[2], "g2"); }
}

// More residuals than fit on the stack: linear, residual k = sum_i (a_i + k b_i) x_i + k
static double La[4], Lb[4];
struct W { template <typename T> bool ev(const T* p, const T* q, T* r) const { const T x[4] = {p[0], p[1], q[0], q[1]}; for (int k = 0; k < 23; ++k) { r[k] = T(k); for (int i = 0; i < 4; ++i) r[k] += (La[i] + k * Lb[i]) * x[i]; } return true; }
  template <typename T> bool operator()(const T* p, const T* q, T* r) const { return ev(p, q, r); } template <typename T> bool operator()(T const* const* p, T* r) const { return ev(p[0], p[1], r); } };
static void wide(const ceres::CostFunction& f) {
  double x[4]; for (double& v : x) v = vp_real("x"); const double* p[2] = {x, x + 2}; double r[25], j0[48], j1[48]; for (double& v : r) v = 77; for (auto* j : {j0, j1}) for (int i = 0; i < 48; ++i) j[i] = 77;
  int m = vp_choose("nonnull", 5); double* J[2] = {m & 1 ? j0 + 1 : nullptr, m & 2 ? j1 + 1 : nullptr}; vp_check(f.Evaluate(p, r + 1, m == 4 ? nullptr : J), "evaluates"); vp_check(r[0] == 77 && r[24] == 77 && j0[0] == 77 && j1[0] == 77 && j0[47] == 77 && j1[47] == 77, "bounds");
  for (int k = 0; k < 23; ++k) { double e = k; for (int i = 0; i < 4; ++i) e += (La[i] + k * Lb[i]) * x[i]; vp_check_eq(r[1 + k], e, "residual"); for (int i = 0; i < 4; ++i) { double* j = i < 2 ? j0 : j1; if (m < 4 && (m >> (i / 2) & 1)) vp_check_eq(j[1 + 2 * k + i % 2], La[i] + k * Lb[i], "jacobian"); else vp_check(j[1 + 2 * k + i % 2] == 77, "not asked for"); } }
}
static void lin() { for (int i = 0; i < 4; ++i) { La[i] = vp_real("a"); Lb[i] = vp_real("b"); } }
// @run wide_fixed
extern "C" void wide_fixed() { lin(); ceres::AutoDiffCostFunction<W, 23, 2, 2> f(new W); wide(f); }
// @run wide_dynres
extern "C" void wide_dynres() { lin(); ceres::AutoDiffCostFunction<W, ceres::DYNAMIC, 2, 2> f(new W, 23); wide(f); }
// @run wide_dyn
extern "C" void wide_dyn() { lin(); auto go = [](auto& f) { f.AddParameterBlock(2); f.AddParameterBlock(2); f.SetNumResiduals(23); wide(f); }; switch (vp_choose("stride", 3)) { case 0: { ceres::DynamicAutoDiffCostFunction<W, 1> f(new W); go(f); break; } case 1: { ceres::DynamicAutoDiffCostFunction<W, 4> f(new W); go(f); break; } default: { ceres::DynamicAutoDiffCostFunction<W, 3> f(new W); go(f); } } }
// A functor that forgets one of its residuals: what comes back for it is not mistaken for a value
static int hole; struct Hole { template <typename T> bool operator()(const T* x, T* r) const { for (int k = 0; k < 3; ++k) if (k != hole) r[k] = x[0] * T(k + 1) + x[1]; return true; } };
static void holed(const ceres::CostFunction& f) { double x[2] = {vp_real_in("x", -4, 4), vp_real_in("x", -4, 4)}, r[3], j[6]; const double* p[1] = {x}; double* J[1] = {j}; for (double& v : r) v = 5; for (double& v : j) v = 5; vp_check(f.Evaluate(p, r, J), "returns what the functor returned");
  for (int k = 0; k < 3; ++k) { if (k == hole) { vp_check(!(std::fabs(r[k]) < 1e300) && !(std::fabs(j[2 * k]) < 1e300) && !(std::fabs(j[2 * k + 1]) < 1e300), "the forgotten residual is marked invalid"); } else { vp_check_eq(r[k], x[0] * (k + 1) + x[1], "residual"); vp_check_eq(j[2 * k], k + 1, "jacobian"); vp_check_eq(j[2 * k + 1], 1, "jacobian"); } } }
// @run forgotten
extern "C" void forgotten() { hole = vp_choose("hole", 3); if (vp_choose("dynamic", 2)) { ceres::AutoDiffCostFunction<Hole, ceres::DYNAMIC, 2> f(new Hole, 3); holed(f); } else { ceres::AutoDiffCostFunction<Hole, 3, 2> f(new Hole); holed(f); } }
