// Invalid evaluations are detected, and evaluation callbacks see every point first.
#include "eval_common.h"
#include <cstring>
#include <memory>
#include <string>
#include "ceres/evaluator.h"
#include "ceres/context_impl.h"
#include "ceres/sparse_matrix.h"
// @bound one residual block of 1 to 2 residuals whose residuals and Jacobian are any 64-bit patterns or left unwritten (for whole evaluations: every sign and exponent, 6 mantissa bits), with and without a manifold that may return any bit pattern; callbacks: up to 3 evaluations of each kind over 2 blocks
using namespace ev; using namespace ceres::internal;
static bool valid(double v) { return std::isfinite(v) && v != 1e302; }
struct Raw : CostFunction { double r[2], J[2][2]; int nr, unsetR = -1, unsetJ = -1, fail = 0; Raw(int nr, int nb) : nr(nr) { set_num_residuals(nr); for (int i = 0; i < nb; ++i) mutable_parameter_block_sizes()->push_back(1); }
  bool Evaluate(double const* const*, double* o, double** Jo) const override { for (int i = 0; i < nr; ++i) if (i != unsetR) o[i] = r[i]; if (Jo) for (int k = 0; k < (int)parameter_block_sizes().size(); ++k) if (Jo[k]) for (int i = 0; i < nr; ++i) if (k * nr + i != unsetJ) Jo[k][i] = J[k][i]; return !fail; } };
// @run residuals ieee
extern "C" void residuals() {
  int nr = vp_choose("residuals", 2) + 1; Raw* f = new Raw(nr, 1); double x = 1; for (double& v : f->r) v = 1; for (auto& j : f->J) for (double& v : j) v = 1; int at = vp_choose("position", nr); double v = vp_double("value"); f->r[at] = v; f->unsetR = vp_choose("unset", 3) - 1; if (f->unsetR >= nr) vp_end(); Problem p; p.AddResidualBlock(f, nullptr, &x);
  bool ok = true; for (int i = 0; i < nr; ++i) if (i == f->unsetR || !valid(f->r[i])) ok = false; double cost = 77, r[2], jac[2]; double* J = jac; int outs = vp_choose("outputs", 4); bool got = p.EvaluateResidualBlock(p.mutable_impl()->program().residual_blocks()[0], false, &cost, outs & 1 ? r : nullptr, outs & 2 ? &J : nullptr); vp_check(got == ok, "accepted exactly when every residual is set and finite");
}
// @run jacobians ieee
extern "C" void jacobians() {
  Raw* f = new Raw(2, 2); double x = 1, y = 2; for (double& v : f->r) v = 1; for (auto& j : f->J) for (double& v : j) v = 1; int at = vp_choose("position", 4); double v = vp_double("value"); f->J[at / 2][at % 2] = v; f->unsetJ = vp_choose("unset", 5) - 1; Problem p; p.AddResidualBlock(f, nullptr, &x, &y); int m = vp_choose("requested", 4);
  bool ok = true; for (int k = 0; k < 4; ++k) if (m >> (k / 2) & 1) if (k == f->unsetJ || !valid(f->J[k / 2][k % 2])) ok = false; double cost = 77, r[2], jac[2][2]; double* J[2] = {m & 1 ? jac[0] : nullptr, m & 2 ? jac[1] : nullptr}; bool got = p.EvaluateResidualBlock(p.mutable_impl()->program().residual_blocks()[0], false, &cost, r, J); vp_check(got == ok, "accepted exactly when every requested entry is set and finite");
}
// @run total ieee
extern "C" void total() {  // a whole evaluation never reports success with a cost that is not finite
  double x = 1, y = 2; Problem p; Raw* f[2]; for (int i = 0; i < 2; ++i) { f[i] = new Raw(1, 1); int64_t b = vp_i64("bits", 0, (1 << 18) - 1) << 46; memcpy(&f[i]->r[0], &b, 8); f[i]->J[0][0] = 1; p.AddResidualBlock(f[i], nullptr, i ? &y : &x); } double cost = 77; std::vector<double> r; int outs = vp_choose("outputs", 2); bool ok = p.Evaluate(Problem::EvaluateOptions(), &cost, outs ? &r : nullptr, nullptr, nullptr);
  if (ok) { vp_check(std::isfinite(cost), "cost is finite"); for (int i = 0; i < 2; ++i) vp_check(valid(f[i]->r[0]), "accepted residuals are finite"); } else vp_check(!valid(f[0]->r[0]) || !valid(f[1]->r[0]) || !(std::fabs(f[0]->r[0]) < 1e100 && std::fabs(f[1]->r[0]) < 1e100), "ordinary values are accepted");
}
struct RawMan : Manifold { double j[2]; int unset = -1; int AmbientSize() const override { return 2; } int TangentSize() const override { return 1; } bool Plus(const double*, const double*, double*) const override { return true; } bool PlusJacobian(const double*, double* o) const override { for (int i = 0; i < 2; ++i) if (i != unset) o[i] = j[i]; return true; } bool Minus(const double*, const double*, double*) const override { return false; } bool MinusJacobian(const double*, double*) const override { return false; } };
// @run manifold ieee
extern "C" void manifold() { double x[2] = {1, 2}, s[2] = {3, 4}; RawMan m; m.j[0] = m.j[1] = 1; ParameterBlock b(x, 2, 0, &m); m.j[vp_choose("position", 2)] = vp_double("value"); m.unset = vp_choose("unset", 3) - 1; bool ok = true; for (int i = 0; i < 2; ++i) if (i == m.unset || !valid(m.j[i])) ok = false; vp_check(b.SetState(s) == ok, "a manifold Jacobian that is not set or not finite is refused"); }
struct Log : EvaluationCallback { int n = 0, phase = 0; bool jac = false, fresh = false; double at[NB][3]; void PrepareForEvaluation(bool j, bool f) override { ++n; ++phase; jac = j; fresh = f; for (int i = 0; i < NB; ++i) for (int k = 0; k < SZ[i]; ++k) at[i][k] = X[i][k]; } };
// @run callback_problem
extern "C" void callback_problem() {
  Log log; Problem::Options o; o.evaluation_callback = &log; World W(o, 2, 0, 1); int c = vp_choose("constant", 4); if (c) W.constant(c - 1); for (Any* f : W.f) f->gate = &log.phase;
  for (int round = 0; round < 2; ++round) {
    int kind = vp_choose("kind", 3), before = log.n; for (Any* f : W.f) f->gateSeen = -1; X[0][0] = vp_real_in("x", -1e3, 1e3);
    if (kind == 0) { int outs = vp_choose("outputs", 15) + 1; double cost; std::vector<double> r, g; CRSMatrix J; vp_check(W.p.Evaluate(Problem::EvaluateOptions(), outs & 1 ? &cost : nullptr, outs & 2 ? &r : nullptr, outs & 4 ? &g : nullptr, outs & 8 ? &J : nullptr), "ok"); vp_check(log.n == before + 1 && log.fresh && log.jac == ((outs & 12) != 0), "prepared once, as a new point"); for (Any* f : W.f) vp_check(f->gateSeen == log.phase, "prepared before any cost function runs"); }
    else { bool same = kind == 2; double cost, buf[9]; double* J[2] = {W.cst[1] ? nullptr : buf, nullptr}; int withJ = vp_choose("jacobians", 2); bool ok = same ? W.p.EvaluateResidualBlockAssumingParametersUnchanged(W.id[0], true, &cost, nullptr, withJ ? J : nullptr) : W.p.EvaluateResidualBlock(W.id[0], true, &cost, nullptr, withJ ? J : nullptr); vp_check(ok, "ok"); vp_check(log.n == before + 1 && log.fresh == !same && log.jac == (withJ != 0), "prepared once, new unless assumed unchanged"); vp_check(W.f[0]->gateSeen == log.phase, "prepared before the cost function runs"); }
    for (int i = 0; i < NB; ++i) for (int k = 0; k < SZ[i]; ++k) vp_check_eq(log.at[i][k], X[i][k], "prepared at the point evaluated");
  }
}
// @run callback_evaluator
extern "C" void callback_evaluator() {  // inside a solve: user memory holds the trial point when the callback runs
  Log log; Problem::Options po; po.evaluation_callback = &log; World W(po, 2, 0, 1); int c = vp_choose("constant", 4); if (c) W.constant(c - 1); for (Any* f : W.f) f->gate = &log.phase; std::vector<double*> removed; double fixed; std::string err; Program& full = *const_cast<Program*>(&W.p.mutable_impl()->program()); std::unique_ptr<Program> G = full.CreateReducedProgram(&removed, &fixed, &err); vp_check(G != nullptr && log.n == (c == 3), "constant residual blocks are evaluated only after preparing"); if (c == 3) vp_check(log.fresh && !log.jac && W.f[1]->gateSeen == 1, "prepared without Jacobians");
  Evaluator::Options o; ContextImpl ctx; o.context = &ctx; o.num_eliminate_blocks = 0; o.linear_solver_type = vp_choose("dense", 2) ? DENSE_QR : CGNR; o.evaluation_callback = &log; std::unique_ptr<Evaluator> E = Evaluator::Create(o, G.get(), &err); std::unique_ptr<SparseMatrix> J = E->CreateJacobian();
  for (int round = 0; round < 2; ++round) {
    std::vector<double> s(G->NumParameters()), g(G->NumEffectiveParameters()), r(3); for (double& v : s) v = vp_real_in("s", -1e3, 1e3); int before = log.n, outs = vp_choose("outputs", 4); Evaluator::EvaluateOptions eo; eo.new_evaluation_point = vp_choose("new point", 2); double cost; for (Any* f : W.f) f->gateSeen = -1;
    vp_check(E->Evaluate(eo, s.data(), &cost, nullptr, outs & 1 ? g.data() : nullptr, outs & 2 ? J.get() : nullptr), "ok"); vp_check(log.n == before + 1 && log.jac == (outs != 0) && log.fresh == eo.new_evaluation_point, "prepared once with what is coming");
    int at = 0; for (auto* b : G->parameter_blocks()) for (int i = 0; i < NB; ++i) if (b->user_state() == X[i]) for (int k = 0; k < SZ[i]; ++k) { vp_check_eq(log.at[i][k], s[at + k], "user memory holds the point"); if (k + 1 == SZ[i]) at += SZ[i]; } for (int k = 0; k < 3; ++k) if (!(c == 3 && k == 1)) { vp_check(W.f[k]->gateSeen == log.phase, "prepared before any cost function runs"); for (size_t j = 0; j < W.f[k]->b.size(); ++j) for (int a = 0; a < SZ[W.f[k]->b[j]]; ++a) vp_check_eq(W.f[k]->seen[j][a], log.at[W.f[k]->b[j]][a], "evaluated where prepared"); }
  }
}
