// Inner iterations: block coordinate descent inside trust region steps.
#include "loop_common.h"
#include <map>
#include <string>
#include "ceres/coordinate_descent_minimizer.h"
#include "ceres/context_impl.h"
#include "ceres/cost_function.h"
#include "ceres/evaluation_callback.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/ordered_groups.h"
#include "ceres/parameter_block.h"
#include "ceres/problem.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/solver.h"
// @bound chains of 3 linear blocks of sizes 1, 2, 1 with fixed slopes and one arbitrary offset in every grouping listed; subset manifold, bounds, failures from any of the first calls; 2 threads without preemption (thorough: 1 preemption); loops of 2 iterations (thorough: 3) of 1 or 2 parameters with arbitrary costs, gradients and residuals and one failure; groupings of every problem of 3 blocks and 2 residual blocks, automatic orderings of up to 4 blocks and 3 residual blocks
struct Lin : CostFunction { std::vector<std::vector<double>> A; std::vector<double> b; mutable int calls = 0; int failFrom = -1;
  Lin(std::vector<std::vector<double>> A_, std::vector<double> b_) : A(A_), b(b_) { set_num_residuals(b.size()); for (auto& a : A) mutable_parameter_block_sizes()->push_back(a.size() / b.size()); }
  bool Evaluate(double const* const* p, double* r, double** J) const override { int c = calls++; if (failFrom >= 0 && c >= failFrom) return false; for (size_t i = 0; i < b.size(); ++i) { r[i] = -b[i]; for (size_t k = 0; k < A.size(); ++k) { size_t n = A[k].size() / b.size(); for (size_t j = 0; j < n; ++j) r[i] += A[k][i * n + j] * p[k][j]; } } if (J) for (size_t k = 0; k < A.size(); ++k) if (J[k]) for (size_t j = 0; j < A[k].size(); ++j) J[k][j] = A[k][j]; return true; } };
// f1 = (3x+3y0-b, 4x+4y1-1), f2 = (5z+4y0-2, 12z+3y1+1): every block's columns are orthogonal
static bool fixedb = false; static double bhi = 2;
static double start(int i) { return 0.5 - 0.0625 * i; }
struct Chain { double mem[6], *x = mem + 4, *y = mem + 1, *z = mem; Problem P; ProblemImpl* I; Lin *f1, *f2, *f3 = nullptr; double b; double S[4]; int subset;
  explicit Chain(int subset_ = 0, const Problem::Options& po = Problem::Options(), bool triple = false) : P(po), subset(subset_) { for (int i = 0; i < 6; ++i) mem[i] = start(i); b = fixedb ? 1.5 : vp_real_in("b", 1, bhi); f1 = new Lin({{3, 4}, {3, 0, 0, 4}}, {b, 1}); f2 = new Lin({{5, 12}, {4, 0, 0, 3}}, {2, -1}); P.AddResidualBlock(f1, nullptr, x, y); P.AddResidualBlock(f2, nullptr, z, y); if (triple) P.AddResidualBlock(f3 = new Lin({{0}, {0, 0}, {84}}, {40}), nullptr, x, y, z); if (subset) P.SetManifold(y, new SubsetManifold(2, {subset - 1})); I = P.mutable_impl(); I->mutable_program()->SetParameterOffsetsAndIndex(); I->mutable_program()->ParameterBlocksToStateVector(S); }
  double cost(const double* v) const { double r[4] = {3 * v[0] + 3 * v[1] - b, 4 * v[0] + 4 * v[2] - 1, 5 * v[3] + 4 * v[1] - 2, 12 * v[3] + 3 * v[2] + 1}, c = 0; for (double q : r) c += q * q; if (f3) c += (84 * v[3] - 40) * (84 * v[3] - 40); return c / 2; }
  // what minimizing over one block does to the values x, y0, y1, z
  void best(int k, double* v) const { if (k == 0) v[0] = (3 * (b - 3 * v[1]) + 4 * (1 - 4 * v[2])) / 25; if (k == 1) { double q = (3 * (b - 3 * v[0]) + 4 * (2 - 5 * v[3])) / 25; v[2] = (4 * (1 - 4 * v[0]) + 3 * (-1 - 12 * v[3])) / 25; v[1] = q; } if (k == 2) v[3] = (5 * (2 - 4 * v[1]) + 12 * (-1 - 3 * v[2]) + (f3 ? 84 * 40 : 0)) / (f3 ? 7225 : 169); }
  double* block(int k) { return k == 0 ? x : k == 1 ? y : z; } };
static const int G[][3] = {{0, 1, 0}, {1, 0, 1}, {0, 1, 2}, {2, 1, 0}, {-1, 0, -1}, {0, -1, -1}, {3, -1, 3}, {-1, 5, 2}};
static std::shared_ptr<ParameterBlockOrdering> ordering(Chain& w, const int* g) { auto o = std::make_shared<ParameterBlockOrdering>(); for (int k = 0; k < 3; ++k) if (g[k] >= 0) o->AddElementToGroup(w.block(k), g[k]); return o; }
static void run(int which, int threads, bool triple = false) { Chain w(0, Problem::Options(), triple); ContextImpl ctx; const int* g = G[which]; auto o = ordering(w, g); CoordinateDescentMinimizer M(&ctx); std::string e; Program& p = *w.I->mutable_program(); vp_check(M.Init(p, w.I->parameter_map(), *o, &e), "initialized"); Minimizer::Options mo; mo.num_threads = threads; if (threads > 1) ctx.EnsureMinimumThreads(threads); Solver::Summary s; double v[4] = {w.S[0], w.S[1], w.S[2], w.S[3]}, q[4] = {v[0], v[1], v[2], v[3]}; M.Minimize(mo, v, &s); for (int r = 0; r < 9; ++r) for (int k = 0; k < 3; ++k) if (g[k] == r) { double n[4] = {q[0], q[1], q[2], q[3]}; w.best(k, n); for (int i = 0; i < 4; ++i) { bool mine = k == 0 ? i == 0 : k == 2 ? i == 3 : i == 1 || i == 2; if (mine) vp_check(ab(n[i] - v[i]) <= 1e-3, "the best values of the block, given the others"); if (mine) q[i] = v[i]; } }
  for (int i = 0; i < 4; ++i) vp_check_eq(q[i], v[i], "nothing else changes"); for (int m = 0; m < 6; ++m) vp_check(w.mem[m] == start(m), "user memory untouched"); int so = 0, i = 0; for (auto* pb : p.parameter_blocks()) { vp_check(!pb->IsConstant() && pb->index() == i && pb->state_offset() == so && pb->delta_offset() == so, "the program is as before"); ++i; so += pb->Size(); } }
// @run descent jobs=8
extern "C" void descent() { run(vp_choose("groups", 8), 1); }
// @run shared jobs=8
extern "C" void shared() { fixedb = true; static const int c[3] = {2, 3, 7}; run(c[vp_choose("groups", 3)], 1, true); }

// In the loop of a trust region minimizer: block coordinate descent to a goal, with arbitrary costs before and after.
struct Goal : CostFunction { double g; explicit Goal(int n, double g_) : g(g_) { set_num_residuals(n); mutable_parameter_block_sizes()->push_back(n); } bool Evaluate(double const* const* p, double* r, double** J) const override { innerRan = true; int n = num_residuals(); for (int i = 0; i < n; ++i) r[i] = 4 * p[0][i] - 4 * (g + i); if (J && J[0]) for (int i = 0; i < n * n; ++i) J[0][i] = i % (n + 1) ? 0 : 4; return true; } };
static void inLoop(int n, int steps, bool non = false) { World w; if (non) { w.o.use_nonmonotonic_steps = true; w.o.max_consecutive_nonmonotonic_steps = 2; } N = E = n; double mem[2]; for (int i = 0; i < n; ++i) w.goal.push_back(7.0 + i); Problem P; P.AddResidualBlock(new Goal(n, 7), nullptr, mem); ContextImpl ctx; auto* I = P.mutable_impl(); I->mutable_program()->SetParameterOffsetsAndIndex(); ParameterBlockOrdering o; o.AddElementToGroup(mem, 0); std::string e; auto M = std::make_shared<CoordinateDescentMinimizer>(&ctx); M->Init(*I->mutable_program(), I->parameter_map(), o, &e); w.o.inner_iteration_minimizer = M; w.o.num_threads = 1; w.o.inner_iteration_tolerance = vp_choose("tolerance", 2) ? 0.25 : 0; w.run(steps); verify(w, false); }
// @run loop jobs=8
extern "C" void loop() { inLoop(1, 2); }
// @run loopnon jobs=8
extern "C" void loopnon() { inLoop(1, 2, true); }
// @run loopfaults jobs=8
extern "C" void loopfaults() { failEval = failStep = failPlus = 1; maxFail = 1; inLoop(1, 2); }
// @run loop2 jobs=8
extern "C" void loop2() { inLoop(2, 1); }
// @run deep jobs=8 tier=thorough time=600
extern "C" void deep() { inLoop(1, 3); }
// A cost function that fails from some call on: the minimization goes on with the other blocks and never makes a block worse.
// @run failing jobs=8
extern "C" void failing() { Chain w; ContextImpl ctx; int order = vp_choose("order", 2); static const int g[2][3] = {{0, 1, 0}, {1, 0, 1}}; auto o = ordering(w, g[order]); CoordinateDescentMinimizer M(&ctx); std::string e; Program& p = *w.I->mutable_program(); M.Init(p, w.I->parameter_map(), *o, &e); w.f1->failFrom = vp_choose("from", 4); Minimizer::Options mo; mo.num_threads = 1; Solver::Summary s; double v[4] = {w.S[0], w.S[1], w.S[2], w.S[3]}, q[4] = {v[0], v[1], v[2], v[3]}; M.Minimize(mo, v, &s); vp_check_le(w.cost(v), w.cost(q), "never worse"); if (!w.f1->failFrom) { vp_check_eq(v[0], q[0], "no step without a value"); vp_check(v[1] == q[1] && v[2] == q[2], "no step without a value"); } double n[4] = {q[0], q[1], q[2], q[3]}; if (order) { n[1] = v[1]; n[2] = v[2]; } w.best(2, n); vp_check(ab(n[3] - v[3]) <= 1e-3, "other blocks are minimized"); for (auto* pb : p.parameter_blocks()) vp_check(!pb->IsConstant(), "variable again"); }
// @run boxed jobs=8
extern "C" void boxed() { Chain w; int side = vp_choose("side", 3); double l = side == 2 ? 0.25 : -9, u = side ? 9 : 0.75; if (side == 1) { l = 0.375; u = 9; } w.P.SetParameterLowerBound(w.y, 1, l); w.P.SetParameterUpperBound(w.y, 1, u); w.P.SetParameterUpperBound(w.x, 0, 0.625); ContextImpl ctx; static const int g[3] = {1, 0, 1}; auto o = ordering(w, g); CoordinateDescentMinimizer M(&ctx); std::string e; Program& p = *w.I->mutable_program(); M.Init(p, w.I->parameter_map(), *o, &e); Minimizer::Options mo; mo.num_threads = 1; Solver::Summary s; double v[4] = {w.S[0], w.S[1], w.S[2], w.S[3]}, q[4] = {v[0], v[1], v[2], v[3]}; M.Minimize(mo, v, &s); vp_check(v[2] >= l && v[2] <= u && v[0] <= 0.625, "within the bounds"); vp_check_le(w.cost(v), w.cost(q), "never worse"); }
// @run held jobs=8
extern "C" void held() { Chain w(vp_choose("second", 2) ? 2 : 1); int c = w.subset; ContextImpl ctx; static const int g[3] = {1, 0, 1}; auto o = ordering(w, g); CoordinateDescentMinimizer M(&ctx); std::string e; Program& p = *w.I->mutable_program(); M.Init(p, w.I->parameter_map(), *o, &e); Minimizer::Options mo; mo.num_threads = 1; Solver::Summary s; double v[4] = {w.S[0], w.S[1], w.S[2], w.S[3]}; M.Minimize(mo, v, &s); double q[4] = {w.S[0], w.S[1], w.S[2], w.S[3]}, n[4] = {q[0], q[1], q[2], q[3]}; w.best(1, n); vp_check_eq(v[c], q[c], "held coordinate"); vp_check(ab(v[3 - c] - n[3 - c]) <= 1e-3, "minimized along the manifold"); q[1] = v[1]; q[2] = v[2]; n[1] = v[1]; n[2] = v[2]; w.best(0, n); vp_check(ab(v[0] - n[0]) <= 1e-3, "the first block"); w.best(2, n); vp_check(ab(v[3] - n[3]) <= 1e-3, "the block after the manifold"); int so = 0, d = 0; for (auto* pb : p.parameter_blocks()) { vp_check(pb->state_offset() == so && pb->delta_offset() == d, "offsets as before"); so += pb->Size(); d += pb->TangentSize(); } }
// @run threads jobs=8 engine
extern "C" void threads() { vp_opt("race", 1); vp_opt("preempt", 0); fixedb = true; run(0, 2); }
// @run threads1 jobs=8 engine tier=thorough time=800 max-paths=2000000
extern "C" void threads1() { vp_opt("race", 1); vp_opt("preempt", 1); fixedb = true; run(0, 2); }
// Which groupings are allowed: no two blocks of a group in one residual block.
struct Nil : CostFunction { explicit Nil(int k) { set_num_residuals(1); for (int i = 0; i < k; ++i) mutable_parameter_block_sizes()->push_back(1); } bool Evaluate(double const* const*, double* r, double** J) const override { r[0] = 0; if (J) for (size_t k = 0; k < parameter_block_sizes().size(); ++k) if (J[k]) J[k][0] = 0; return true; } };
static bool together(const int* f, int n, int a, int b) { for (int i = 0; i < n; ++i) if ((f[i] >> a & 1) && (f[i] >> b & 1)) return true; return false; }
struct Net { double m[4] = {}; Problem P; ProblemImpl* I; int f[3], n; Net(int blocks, int terms) : n(terms) { for (int i = 0; i < blocks; ++i) P.AddParameterBlock(m + i, 1); for (int t = 0; t < n; ++t) { f[t] = 1 + vp_choose("term", (1 << blocks) - 1); std::vector<double*> q; for (int i = blocks - 1; i >= 0; --i) if (f[t] >> i & 1) q.push_back(m + i); P.AddResidualBlock(new Nil(q.size()), nullptr, q); } I = P.mutable_impl(); I->mutable_program()->SetParameterOffsetsAndIndex(); } };
// @run valid jobs=8
extern "C" void valid() { Net w(3, 2); ParameterBlockOrdering o; int g[3]; for (int i = 0; i < 3; ++i) { g[i] = vp_choose("group", 3) * 2 - 1; if (g[i] >= 0) o.AddElementToGroup(w.m + i, g[i]); } bool bad = false; for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) if (g[i] == g[j] && g[i] >= 0 && together(w.f, w.n, i, j)) bad = true; std::string e; vp_check(CoordinateDescentMinimizer::IsOrderingValid(*w.I->mutable_program(), o, &e) == !bad, "exactly independent groups are allowed"); if (bad) vp_check(!e.empty(), "with a message"); else vp_check(e.empty(), "no message"); }
// @run automatic jobs=8
extern "C" void automatic() { int n = 3 + vp_choose("blocks", 2); Net w(n, n == 3 ? 3 : 2); auto o = CoordinateDescentMinimizer::CreateOrdering(*w.I->mutable_program()); vp_check(o->NumElements() == n, "every block"); for (int i = 0; i < n; ++i) { vp_check(o->IsMember(w.m + i), "every block"); for (int j = 0; j < i; ++j) if (o->GroupId(w.m + i) == o->GroupId(w.m + j)) vp_check(!together(w.f, w.n, i, j), "groups are independent"); } auto& last = o->group_to_elements().rbegin()->second; for (int i = 0; i < n; ++i) { bool in = last.count(w.m + i), beside = false; for (int j = 0; j < n; ++j) if (j != i && last.count(w.m + j)) beside |= together(w.f, w.n, i, j); vp_check(in || beside, "the last group is maximal"); } }
// Solve with inner iterations.
struct Prep : EvaluationCallback { void PrepareForEvaluation(bool, bool) override {} };
static Solver::Options asked(int inner) { Solver::Options o; o.linear_solver_type = DENSE_NORMAL_CHOLESKY; o.jacobi_scaling = false; o.logging_type = SILENT; o.max_num_iterations = 1; o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0; o.initial_trust_region_radius = 4; o.min_lm_diagonal = o.max_lm_diagonal = 1; o.use_inner_iterations = inner; return o; }
static std::vector<int> sizes(const int* g, int held) { std::map<int, int> m; for (int k = 0; k < 3; ++k) if (g[k] >= 0 && !(held >> k & 1)) ++m[g[k]]; std::vector<int> s; for (auto& q : m) s.push_back(q.second); return s; }
static void now(Chain& w, double* v) { v[0] = w.x[0]; v[1] = w.y[0]; v[2] = w.y[1]; v[3] = w.z[0]; }
static void solved(int which, int held) { Chain w; auto o = asked(1); static const int none[3] = {-1, -1, -1}; const int* g = which == 8 ? none : G[which]; if (which < 8) o.inner_iteration_ordering = ordering(w, g); for (int k = 0; k < 3; ++k) if (held >> k & 1) w.P.SetParameterBlockConstant(w.block(k)); int nvar = 3 - __builtin_popcount(held); double v0[4], v[4]; now(w, v0); Solver::Summary S; Solve(o, &w.P, &S); now(w, v); vp_check(S.IsSolutionUsable(), "solved"); vp_check_eq(S.initial_cost, w.cost(v0), "initial cost"); vp_check(ab(S.final_cost - w.cost(v)) <= 1e-9, "final cost is that of the result"); vp_check(S.final_cost <= S.initial_cost, "never worse"); if (held & 1) vp_check_eq(v[0], v0[0], "constant"); if (held & 2) vp_check(v[1] == v0[1] && v[2] == v0[2], "constant"); if (held & 4) vp_check_eq(v[3], v0[3], "constant");
  auto given = sizes(g, 0), used = sizes(g, held); bool on = nvar > 1 && (which == 8 || !used.empty()); vp_check(S.inner_iterations_given && S.inner_iterations_used == on, "whether inner iterations are used"); vp_check(S.inner_iteration_ordering_given == given, "ordering as given"); if (which < 8 && on) vp_check(S.inner_iteration_ordering_used == used, "without the constant blocks"); if (which == 8 && on) { int n = 0; for (int q : S.inner_iteration_ordering_used) n += q; vp_check(n == nvar, "every variable block"); } vp_check(S.num_inner_iteration_steps >= 0 && (on || S.num_inner_iteration_steps == 0) && S.num_inner_iteration_steps <= 1, "inner iteration steps");
  if (on && S.num_successful_steps == 2 && S.num_inner_iteration_steps) { int k = which == 8 ? -1 : 0, last = -1; for (int q = 0; k == 0 && q < 3; ++q) if (g[q] > last && !(held >> q & 1)) last = g[q]; for (int q = 0; q < 3; ++q) if (which < 8 && g[q] == last && !(held >> q & 1)) { double n[4] = {v[0], v[1], v[2], v[3]}; w.best(q, n); for (int i = 0; i < 4; ++i) vp_check(ab(n[i] - v[i]) <= 1e-2, "the last group is optimal given the others"); } }
  if (which < 8) { int n = 0; for (int k = 0; k < 3; ++k) { vp_check(o.inner_iteration_ordering->GroupId(w.block(k)) == g[k], "the caller's ordering is left alone"); n += g[k] >= 0; } vp_check(o.inner_iteration_ordering->NumElements() == n, "the caller's ordering is left alone"); } else vp_check(!o.inner_iteration_ordering, "the caller's options are left alone"); }
// @run solve jobs=8
extern "C" void solve() { fixedb = true; int which = vp_choose("groups", 9); solved(which, vp_choose("held", 7)); }
// @run solvesym jobs=8 tier=thorough time=700
extern "C" void solvesym() { int which = vp_choose("groups", 9); solved(which, 0); }
// @run solveb jobs=8
extern "C" void solveb() { static const int c[2] = {4, 8}; int which = c[vp_choose("groups", 2)]; bhi = 1.25; solved(which, 0); }
// @run refused
extern "C" void refused() { int why = vp_choose("why", 3); Prep cb; auto o = asked(1); Solver::Summary S; double b[2] = {0.5, 0.5}; Problem::Options po; if (why == 0) po.evaluation_callback = &cb; fixedb = true; if (why < 2) { Chain w(0, po); if (why == 1) { static const int g[3] = {1, 1, 2}; o.inner_iteration_ordering = ordering(w, g); } double v0[4], v[4]; now(w, v0); Solve(o, &w.P, &S); now(w, v); for (int i = 0; i < 4; ++i) vp_check(v[i] == v0[i], "untouched"); vp_check(S.termination_type == FAILURE && !S.message.empty(), why ? "groups must be independent" : "no evaluation callbacks"); } else { Chain w; o.inner_iteration_tolerance = -0.5; Solve(o, &w.P, &S); vp_check(S.termination_type == FAILURE, "tolerance"); } }
