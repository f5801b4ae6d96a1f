// Cost functions that wrap other cost functions.
#include "vp.h"
#include <memory>
#include <vector>
#include "ceres/conditioned_cost_function.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "ceres/normal_prior.h"
#include "ceres/sized_cost_function.h"
#include "ceres/autodiff_cost_function.h"
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/jet.h"
// @bound wrapped functions with 2 residuals over blocks (2,1) and 3 over (1,3,2), an arbitrary Jacobian and residual (free variables); every null-Jacobian subset, every sharing and nullness pattern of conditioners, every failure
using namespace ceres;
static int dead;
struct Any : SizedCostFunction<2, 2, 1> {
  double r[2], j0[4], j1[2]; int fail = 0; mutable double seen[3]; mutable int calls = 0, withJ = 0;
  Any() { for (double& v : r) v = vp_real("r"); for (double& v : j0) v = vp_real("J0"); for (double& v : j1) v = vp_real("J1"); }
  ~Any() override { ++dead; }
  bool Evaluate(double const* const* p, double* o, double** J) const override { ++calls; seen[0] = p[0][0]; seen[1] = p[0][1]; seen[2] = p[1][0]; o[0] = r[0]; o[1] = r[1]; if (J) { ++withJ; if (J[0]) for (int i = 0; i < 4; ++i) J[0][i] = j0[i]; if (J[1]) for (int i = 0; i < 2; ++i) J[1][i] = j1[i]; } return !fail; }
};
template <class F> static void jets(F& f, const Any* in) {
  typedef Jet<double, 2> T; T a[2], b[1], o[4]; for (T* t : {a, a + 1, b}) { t->a = vp_real("x"); for (int k = 0; k < 2; ++k) t->v[k] = vp_real("dx"); } for (T& t : o) { t.a = 77; t.v.setConstant(77); }
  bool ok = f(a, b, o + 1); vp_check(ok == !in->fail, "failure passes through"); vp_check(o[0].a == 77 && o[3].a == 77 && o[0].v[0] == 77 && o[3].v[1] == 77, "bounds"); if (!ok) return;
  vp_check_eq(in->seen[0], a[0].a, "parameters"); vp_check_eq(in->seen[1], a[1].a, "parameters"); vp_check_eq(in->seen[2], b[0].a, "parameters");
  for (int i = 0; i < 2; ++i) { vp_check_eq(o[1 + i].a, in->r[i], "residual"); for (int k = 0; k < 2; ++k) vp_check_eq(o[1 + i].v[k], in->j0[2 * i] * a[0].v[k] + in->j0[2 * i + 1] * a[1].v[k] + in->j1[i] * b[0].v[k], "chain rule through the wrapped Jacobian"); }
  double A[2] = {vp_real("x"), vp_real("x")}, B[1] = {vp_real("x")}, O[4] = {77, 77, 77, 77}; int c = in->withJ; vp_check(f((const double*)A, (const double*)B, O + 1), "double"); vp_check(in->withJ == c, "no Jacobian asked for"); for (int i = 0; i < 2; ++i) vp_check_eq(O[1 + i], in->r[i], "residual"); vp_check(O[0] == 77 && O[3] == 77, "bounds");
}
// @run tofunctor
extern "C" void tofunctor() { Any* in = new Any; in->fail = vp_choose("fail", 2); dead = 0; { if (vp_choose("dynamic residuals", 2)) { CostFunctionToFunctor<DYNAMIC, 2, 1> f(in); jets(f, in); } else { CostFunctionToFunctor<2, 2, 1> f(in); jets(f, in); } } vp_check(dead == 1, "owns the function"); }
struct Dyn { DynamicCostFunctionToFunctor f; template <class T> bool operator()(const T* a, const T* b, T* o) const { const T* p[] = {a, b}; return f(p, o); } };
// @run dyntofunctor
extern "C" void dyntofunctor() { Any* in = new Any; in->fail = vp_choose("fail", 2); dead = 0; { Dyn f{DynamicCostFunctionToFunctor(in)}; vp_check(f.f.function() == in, "function"); jets(f, in); } vp_check(dead == 1, "owns the function"); }
struct Outer { CostFunctionToFunctor<2, 2, 1> f; double k; template <class T> bool operator()(const T* a, const T* b, T* o) const { T t[2]; if (!f(a, b, t)) return false; o[0] = t[0] * t[1] + k * a[0]; return true; } };
struct Wide : SizedCostFunction<3, 1, 3, 2> {
  double r[3], j[3][9]; int n[3] = {1, 3, 2}; Wide() { for (double& v : r) v = vp_real("r"); for (auto& b : j) for (double& v : b) v = vp_real("J"); } ~Wide() override { ++dead; }
  bool Evaluate(double const* const*, double* o, double** J) const override { for (int i = 0; i < 3; ++i) o[i] = r[i]; if (J) for (int b = 0; b < 3; ++b) if (J[b]) for (int k = 0; k < 3 * n[b]; ++k) J[b][k] = j[b][k]; return true; }
};
template <class T> static void widejets() {
  Wide* w = new Wide; CostFunctionToFunctor<3, 1, 3, 2> f(w); T x[6], o[5]; for (T& t : x) { t.a = vp_real("x"); for (int k = 0; k < t.v.size(); ++k) t.v[k] = vp_real("dx"); } for (T& t : o) { t.a = 77; t.v.setConstant(77); } vp_check(f(x, x + 1, x + 4, o + 1), "ok"); vp_check(o[0].a == 77 && o[4].a == 77 && o[0].v[0] == 77 && o[4].v[0] == 77, "bounds");
  for (int i = 0; i < 3; ++i) { vp_check_eq(o[1 + i].a, w->r[i], "residual"); for (int d = 0; d < x[0].v.size(); ++d) { double e = 0; for (int b = 0, at = 0; b < 3; ++b) for (int k = 0; k < w->n[b]; ++k, ++at) e += w->j[b][i * w->n[b] + k] * x[at].v[d]; vp_check_eq(o[1 + i].v[d], e, "chain rule through the wrapped Jacobian"); } }
}
// @run wide
extern "C" void wide() { if (vp_choose("single", 2)) widejets<Jet<double, 1>>(); else widejets<Jet<double, 3>>(); vp_check(dead == 1, "owns the function"); }
// @run nested
extern "C" void nested() {  // inside another automatically differentiated functor
  Any* in = new Any; double k = vp_real("k"); AutoDiffCostFunction<Outer, 1, 2, 1> f(new Outer{CostFunctionToFunctor<2, 2, 1>(in), k}); double a[2] = {vp_real("x"), vp_real("x")}, b[1] = {vp_real("x")}, r, ja[2], jb[1]; const double* p[] = {a, b}; int m = vp_choose("nonnull", 4); double* J[] = {m & 1 ? ja : nullptr, m & 2 ? jb : nullptr}; vp_check(f.Evaluate(p, &r, J), "ok");
  vp_check_eq(r, in->r[0] * in->r[1] + k * a[0], "value"); if (m & 1) for (int i = 0; i < 2; ++i) vp_check_eq(ja[i], in->r[1] * in->j0[i] + in->r[0] * in->j0[2 + i] + (i == 0 ? k : 0), "derivative"); if (m & 2) vp_check_eq(jb[0], in->r[1] * in->j1[0] + in->r[0] * in->j1[1], "derivative");
}
struct Con : SizedCostFunction<1, 1> { double a, b, c; int fail = 0; mutable int wantJ = 0; Con() { a = vp_real("a"); b = vp_real("b"); c = vp_real("c"); } ~Con() override { ++dead; } bool Evaluate(double const* const* p, double* o, double** J) const override { o[0] = a; o[0] += b * p[0][0] + c * p[0][0] * p[0][0]; if (J) { ++wantJ; if (J[0]) J[0][0] = b + 2 * c * p[0][0]; } return !fail; } };  // reads its argument after it has written
// @run conditioned
extern "C" void conditioned() {
  Any* in = new Any; int pat = vp_choose("conditioners", 5); Con* c[2] = {nullptr, nullptr}; if (pat & 1) c[0] = new Con; if (pat & 2) c[1] = new Con; if (pat == 4) c[0] = c[1] = new Con;
  int bad = vp_choose("failing", 4); if (bad == 1) in->fail = 1; if (bad == 2 && c[0]) c[0]->fail = 1; if (bad == 3 && c[1]) c[1]->fail = 1; bool expect = !in->fail && !(c[0] && c[0]->fail) && !(c[1] && c[1]->fail); int own = vp_choose("own", 2); dead = 0;
  { ConditionedCostFunction f(in, {c[0], c[1]}, own ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP); vp_check(f.num_residuals() == 2 && f.parameter_block_sizes().size() == 2 && f.parameter_block_sizes()[0] == 2 && f.parameter_block_sizes()[1] == 1, "sizes");
    double a[2] = {vp_real("x"), vp_real("x")}, b[1] = {vp_real("x")}, r[4] = {77, 77, 77, 77}, ja[6], jb[4]; for (double& v : ja) v = 77; for (double& v : jb) v = 77; const double* p[] = {a, b}; int m = vp_choose("nonnull", 5); double* J[] = {m & 1 ? ja + 1 : nullptr, m & 2 ? jb + 1 : nullptr};
    bool ok = f.Evaluate(p, r + 1, m == 4 ? nullptr : J); vp_check(ok == expect, "failure passes through"); vp_check(r[0] == 77 && r[3] == 77 && ja[0] == 77 && ja[5] == 77 && jb[0] == 77 && jb[3] == 77, "bounds");
    if (ok) for (int i = 0; i < 2; ++i) { double x = in->r[i], d = 1, e = x; if (c[i]) { e = c[i]->a + c[i]->b * x + c[i]->c * x * x; d = c[i]->b + 2 * c[i]->c * x; } vp_check_eq(r[1 + i], e, "conditioned residual"); if (m < 4 && (m & 1)) for (int k = 0; k < 2; ++k) vp_check_eq(ja[1 + 2 * i + k], d * in->j0[2 * i + k], "conditioned Jacobian"); if (m < 4 && (m & 2)) vp_check_eq(jb[1 + i], d * in->j1[i], "conditioned Jacobian"); }
  }
  int distinct = pat == 4 ? 1 : (c[0] != nullptr) + (c[1] != nullptr); vp_check(dead == (own ? 1 + distinct : 0), "each owned function deleted once");
  if (!own) { delete in; delete c[0]; if (c[1] != c[0]) delete c[1]; }
}
// @run prior
extern "C" void prior() {
  int rows = vp_choose("rows", 3) + 1, n = vp_choose("columns", 2) + 1; Matrix A(rows, n); Vector b(n); for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) A(i, j) = vp_real("A"); for (int j = 0; j < n; ++j) b[j] = vp_real("b");
  NormalPrior f(A, b); vp_check(f.num_residuals() == rows && f.parameter_block_sizes().size() == 1 && f.parameter_block_sizes()[0] == n, "sizes"); double x[2] = {vp_real("x"), vp_real("x")}, r[5] = {77, 77, 77, 77, 77}, j[8]; for (double& v : j) v = 77; const double* p = x; int m = vp_choose("jacobians", 3); double* J = m == 1 ? nullptr : j + 1; vp_check(f.Evaluate(&p, r + 1, m == 0 ? nullptr : &J), "ok");
  for (int i = 0; i < rows; ++i) { double e = 0; for (int k = 0; k < n; ++k) { e += A(i, k) * (x[k] - b[k]); if (m == 2) vp_check_eq(j[1 + i * n + k], A(i, k), "jacobian is A"); } vp_check_eq(r[1 + i], e, "A (x - b)"); } vp_check(r[0] == 77 && r[rows + 1] == 77 && j[0] == 77 && j[m == 2 ? rows * n + 1 : 1] == 77, "bounds");
}
