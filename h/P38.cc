// The C interface: callbacks, user data, stock losses and solving behave as the C++ interface they wrap.
#include "vp.h"
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include "ceres/c_api.cc"
#include "ceres/cost_function.h"
#include "ceres/crs_matrix.h"
#include "ceres/loss_function.h"
#include "ceres/problem.h"
#include "ceres/solver.h"
// @bound problems of up to 3 residual blocks over up to 3 parameter blocks of sizes 1, 2 and 3; every pattern of null Jacobians and null losses; every parameter, residual coefficient, squared norm and scale
using namespace ceres;
extern "C" void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char*, long) { return o; }
// A standard output that swallows what it is given
static struct { long offset, rtti, info; void* slots[2]; } cout_table = {16, 0, 0, {nullptr, nullptr}};
static struct { char head[56]; char widen_ok, widen[256]; char rest[300]; } cout_ctype = {{}, 1, {}, {}};
extern "C" { struct FakeCout { void* table; void* pad; char ios[240]; void* ctype; char tail[64]; } fake_cout __asm__("_ZSt4cout") = {&cout_table.slots, nullptr, {}, &cout_ctype, {}}; void* _ZNSo3putEc(void* o, char) { return o; } void* _ZNSo5flushEv(void* o) { return o; } }
extern "C" double frexp(double x, int* e) noexcept { *e = 0; if (x == 0 || !std::isfinite(x)) return x; while (std::abs(x) >= 1) { x *= 0.5; ++*e; } while (std::abs(x) < 0.5) { x *= 2; --*e; } return x; }
// r_i = sum_k a[i][k] x_k - b_i over all coordinates; what the library passes is recorded
struct Data { std::vector<int> sizes; int n; std::vector<double> a, b; int answer = 1, calls = 0; void* losses = nullptr; int width() const { int w = 0; for (int s : sizes) w += s; return w; } };
extern "C" int linear(void* user, double** p, double* r, double** J) { auto* d = (Data*)user; ++d->calls; int w = d->width();
  for (int i = 0; i < d->n; ++i) { r[i] = -d->b[i]; int c = 0; for (size_t k = 0; k < d->sizes.size(); ++k) for (int j = 0; j < d->sizes[k]; ++j) r[i] += d->a[i * w + c++] * p[k][j]; }
  if (J) { int c = 0; for (size_t k = 0; k < d->sizes.size(); c += d->sizes[k], ++k) if (J[k]) for (int i = 0; i < d->n; ++i) for (int j = 0; j < d->sizes[k]; ++j) J[k][i * d->sizes[k] + j] = d->a[i * w + c + j]; } return d->answer; }
struct Loss { double g, h; int calls = 0; };
extern "C" void quadratic(void* user, double s, double out[3]) { auto* l = (Loss*)user; ++l->calls; out[0] = l->g * s + l->h * s * s; out[1] = l->g + 2 * l->h * s; out[2] = 2 * l->h; }
static Data data(std::vector<int> sizes, int n, const char* name, bool concrete = false) { Data d; d.sizes = sizes; d.n = n; int w = d.width(); for (int i = 0; i < n * w; ++i) d.a.push_back(concrete ? (i * 7 % 5) - 1.5 : vp_real(name)); for (int i = 0; i < n; ++i) d.b.push_back(concrete ? 0.5 * i - 1 : vp_real(name)); return d; }
// A cost callback sees its own data, the parameters in order and the buffers of the caller; its answer is the answer.
// @run cost jobs=8
extern "C" void cost() { double x[3], y[2], z[1]; for (double& v : x) v = vp_real("x"); for (double& v : y) v = vp_real("y"); z[0] = vp_real("z"); int layout = vp_choose("layout", 4); std::vector<int> s = layout == 0 ? std::vector<int>{3} : layout == 1 ? std::vector<int>{2, 3} : layout == 2 ? std::vector<int>{1, 3, 2} : std::vector<int>{3, 1}; double* at[4] = {nullptr, z, y, x}; std::vector<double*> p; std::vector<int> given = s; for (int k : s) p.push_back(at[k]); int n = 1 + vp_choose("residuals", 2);
  Data d = data(s, n, "a"), other = data(s, n, "o", true); auto* P = ceres_create_problem(); auto* id = ceres_problem_add_residual_block(P, linear, &d, nullptr, nullptr, n, s.size(), given.data(), p.data()); std::vector<double*> block = p; for (int& g : given) g = 77; for (auto& q : p) q = nullptr; // the arrays of the call are not needed afterwards
  ceres_problem_add_residual_block(P, linear, &other, nullptr, nullptr, n, s.size(), s.data(), block.data()); auto* Q = (Problem*)P; auto* r = (ResidualBlockId)id; vp_check(Q->NumResidualBlocks() == 2 && Q->NumParameterBlocks() == (int)s.size(), "blocks"); const CostFunction* f = Q->GetCostFunctionForResidualBlock(r); vp_check(f->num_residuals() == n && f->parameter_block_sizes() == std::vector<int32_t>(s.begin(), s.end()), "sizes"); vp_check(Q->GetLossFunctionForResidualBlock(r) == nullptr, "no loss"); std::vector<double*> got; Q->GetParameterBlocksForResidualBlock(r, &got); vp_check(got == block, "parameter blocks in order");
  int nulls = vp_choose("jacobians", (1 << s.size()) + 1); d.answer = vp_choose("answer", 4) - 1; int before = d.calls; std::vector<double> R(n, 0), A(2 * 6 + 4, 55); std::vector<double*> J; int c = 2; for (size_t k = 0; k < s.size(); c += n * s[k], ++k) J.push_back(nulls >> k & 1 ? A.data() + c : nullptr); bool ok = f->Evaluate(block.data(), R.data(), nulls == 1 << s.size() ? nullptr : J.data());
  vp_check(ok == (d.answer != 0), "the answer of the callback"); vp_check(d.calls == before + 1 && other.calls == 0, "one call with its own data"); int w = d.width(); for (int i = 0; i < n; ++i) { double e = -d.b[i]; int k = 0; for (size_t b = 0; b < s.size(); ++b) for (int j = 0; j < s[b]; ++j) e += d.a[i * w + k++] * block[b][j]; vp_check_eq(R[i], e, "residuals"); }
  if (nulls < 1 << s.size()) { int cc = 2, o = 0; for (size_t k = 0; k < s.size(); ++k) { for (int i = 0; i < n; ++i) for (int j = 0; j < s[k]; ++j) vp_check_eq(A[cc + i * s[k] + j], nulls >> k & 1 ? d.a[i * w + o + j] : 55, "Jacobian"); cc += n * s[k]; o += s[k]; } } vp_check(A[0] == 55 && A[1] == 55 && A.back() == 55, "nothing else is written"); ceres_free_problem(P); }
// Losses of the caller get their own data and the squared norm; no loss means none.
// @run losses jobs=8
extern "C" void losses() { double x[2] = {vp_real_in("x", -50, 50), vp_real_in("x", -50, 50)}, *p[1] = {x}; int sizes[1] = {2}; Data d[3]; Loss l[3]; auto* P = ceres_create_problem(); double expect = 0; int mask = vp_choose("losses", 8); for (int i = 0; i < 3; ++i) { d[i] = data({2}, 1 + (i == 1), "d", true); l[i].g = vp_real_in("g", 0, 3); l[i].h = vp_real_in("h", 0, 2); ceres_problem_add_residual_block(P, linear, &d[i], mask >> i & 1 ? quadratic : nullptr, &l[i], d[i].n, 1, sizes, p); double s = 0; for (int k = 0; k < d[i].n; ++k) { double r = d[i].a[2 * k] * x[0] + d[i].a[2 * k + 1] * x[1] - d[i].b[k]; s += r * r; } expect += 0.5 * (mask >> i & 1 ? l[i].g * s + l[i].h * s * s : s); }
  double c = -1; vp_check(((Problem*)P)->Evaluate(Problem::EvaluateOptions(), &c, nullptr, nullptr, nullptr), "evaluates"); vp_check_eq(c, expect, "robust cost"); for (int i = 0; i < 3; ++i) vp_check(d[i].calls == 1 && l[i].calls == (mask >> i & 1), "one call each"); d[1].answer = 0; vp_check(!((Problem*)P)->Evaluate(Problem::EvaluateOptions(), &c, nullptr, nullptr, nullptr), "a callback that returns 0 fails the evaluation"); ceres_free_problem(P); }
// Stock losses have the value and derivatives of the classes they name.
// @run stock jobs=8 time=200
extern "C" void stock() { double a = vp_real_in("a", 0.25, 4), b = vp_real_in("b", 0.25, 4), s = vp_real_in("s", 0, 50), got[3], want[3]; int kind = vp_choose("kind", 5); void* d = nullptr; std::unique_ptr<LossFunction> f; long before = vp_live_blocks();
  switch (kind) { case 0: d = ceres_create_huber_loss_function_data(a); break; case 1: d = ceres_create_softl1_loss_function_data(a); break; case 2: d = ceres_create_cauchy_loss_function_data(a); break; case 3: d = ceres_create_arctan_loss_function_data(a); break; default: d = ceres_create_tolerant_loss_function_data(a, b); } long held = vp_live_blocks();
  switch (kind) { case 0: f = std::make_unique<HuberLoss>(a); break; case 1: f = std::make_unique<SoftLOneLoss>(a); break; case 2: f = std::make_unique<CauchyLoss>(a); break; case 3: f = std::make_unique<ArctanLoss>(a); break; default: f = std::make_unique<TolerantLoss>(a, b); }
  f->Evaluate(s, want); ceres_stock_loss_function(d, s, got); for (int i = 0; i < 3; ++i) vp_check_eq(got[i], want[i], "value and derivatives"); f.reset(); vp_check(held == vp_live_blocks(), "evaluation keeps nothing"); ceres_free_stock_loss_function_data(d); vp_check(vp_live_blocks() == before, "freed"); }
// Solving moves the caller's memory to the minimizer of what the callbacks compute; data of the caller are neither freed nor changed.
// @run solve ieee jobs=8 nonative
extern "C" void solve() { double off = 4 + 0.5 * vp_choose("off", 11), x[2] = {1, -2}, y = 0.5, *p[2] = {x, &y}; int loss = vp_choose("loss", 3), fail = vp_choose("fails", 2); int s21[2] = {2, 1}, s1[1] = {1}; auto* d = new Data(data({2, 1}, 2, "d", true)); d->a = {2, 0, 1, 0, 4, -1}; d->b = {off, 3}; auto* e = new Data(data({1}, 1, "e", true)); e->a = {2}; e->b = {6}; Loss l{2, 0}; void* huber = ceres_create_huber_loss_function_data(1e6); if (fail) e->answer = 0;
  auto* P = ceres_create_problem(); ceres_problem_add_residual_block(P, linear, d, loss == 1 ? quadratic : loss == 2 ? ceres_stock_loss_function : nullptr, loss == 1 ? (void*)&l : huber, 2, 2, s21, p); ceres_problem_add_residual_block(P, linear, e, nullptr, nullptr, 1, 1, s1, p + 1); ceres_solve(P);
  if (fail) vp_check(x[0] == 1 && x[1] == -2 && y == 0.5, "a failing callback leaves the parameters"); else { double r0 = 2 * x[0] + y - off, r1 = 4 * x[1] - y - 3, r2 = 2 * y - 6, k = loss == 1 ? 2 : 1; vp_check_le(k * (r0 * r0 + r1 * r1) + r2 * r2, 1e-4, "minimized"); vp_check_le(std::abs(y - 3), 1e-2, "where the minimizer is"); }
  ceres_free_problem(P); vp_check(d->calls > 0 && e->calls > 0 && d->a[0] == 2 && e->b[0] == 6, "data are the caller's"); ceres_free_stock_loss_function_data(huber); delete d; delete e; }
// Freeing a problem frees what it made and nothing else.
// @run lifetime jobs=4 nonative
extern "C" void lifetime() { double x[2] = {1, 2}, *p[1] = {x}; int n[1] = {2}, k = vp_choose("blocks", 4); Data d = data({2}, 1, "d", true); Loss l{1, 0}; { auto* w = ceres_create_problem(); ceres_problem_add_residual_block(w, linear, &d, quadratic, &l, 1, 1, n, p); ceres_free_problem(w); } long before = vp_live_blocks(); { auto* P = ceres_create_problem(); for (int i = 0; i < k; ++i) ceres_problem_add_residual_block(P, linear, &d, i & 1 ? quadratic : nullptr, &l, 1, 1, n, p); vp_check(((Problem*)P)->NumResidualBlocks() == k, "blocks"); ceres_free_problem(P); } vp_check(vp_live_blocks() == before, "everything is freed"); ceres_init(); }
