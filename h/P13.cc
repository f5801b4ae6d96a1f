// Problem::Evaluate and EvaluateResidualBlock.
#include "eval_common.h"
#include <algorithm>
// @bound 3 residual blocks of 1 to 2 residuals over 3 parameter blocks of sizes 1 to 3, one with an arbitrary manifold (tangent size 0 to 2); all residuals, Jacobians, losses (value and slope), parameters symbolic; every constancy, subset and order of blocks and every combination of outputs; 1 and 2 threads with every schedule of at most 2 preemptions
using namespace ev;
static void evaluate(World& W, const std::vector<int>& rs, const std::vector<int>& ps, bool pAll, bool rAll, int outs, bool apply, int threads) {
  Problem::EvaluateOptions o; if (!rAll) for (int k : rs) o.residual_blocks.push_back(W.id[k]); if (!pAll) for (int i : ps) o.parameter_blocks.push_back(X[i]); o.apply_loss_function = apply; o.num_threads = threads;
  double cost = 77; std::vector<double> r(9, 77), g(9, 77); CRSMatrix J; J.num_rows = -1; double x0[NB][3]; for (int i = 0; i < NB; ++i) for (int k = 0; k < SZ[i]; ++k) x0[i][k] = X[i][k];
  bool bad = false; for (int k : rs) if (W.f[k]->fail) bad = true; for (Any* f : W.f) f->calls = 0;
  bool ok = W.p.Evaluate(o, outs & 1 ? &cost : nullptr, outs & 2 ? &r : nullptr, outs & 4 ? &g : nullptr, outs & 8 ? &J : nullptr); vp_check(ok == !(bad && outs), "fails exactly when a cost function it evaluates fails");
  for (int i = 0; i < NB; ++i) { vp_check(W.p.IsParameterBlockConstant(X[i]) == W.cst[i], "constancy is left as it was"); for (int k = 0; k < SZ[i]; ++k) vp_check_eq(X[i][k], x0[i][k], "parameters are left as they were"); }
  if (outs) { const internal::Program& G = W.p.mutable_impl()->program(); int so = 0, dof = 0; for (int i = 0; i < NB; ++i) { auto* b = G.parameter_blocks()[i]; vp_check(b->index() == i && b->state_offset() == so && b->delta_offset() == dof && b->state() == X[i], "indices and state are left as they were"); so += SZ[i]; dof += W.tg[i]; } }
  if (!ok || !outs) return;
  for (int k = 0; k < 3; ++k) vp_check(W.f[k]->calls == (int)std::count(rs.begin(), rs.end(), k), "each residual block is evaluated once"); for (int k : rs) for (size_t j = 0; j < W.f[k]->b.size(); ++j) for (int a = 0; a < SZ[W.f[k]->b[j]]; ++a) vp_check_eq(W.f[k]->seen[j][a], X[W.f[k]->b[j]][a], "evaluated at the user's values");
  double c = 0; int n = 0, cols = 0, off[NB]; for (int i = 0; i < NB; ++i) off[i] = -1; for (int i : ps) { off[i] = cols; cols += W.tg[i]; } for (int k : rs) { c += W.cost(k, apply); n += W.f[k]->num_residuals(); if (W.l[k] && apply) { double s = 0; for (double v : W.f[k]->r) s += v * v; vp_check_eq(W.l[k]->s, s, "the loss is applied to the squared norm"); } }
  if (outs & 1) vp_check_eq(cost, c, "cost is half the sum of the robustified squared norms");
  std::vector<double> er, eg(cols, 0.0); std::vector<std::vector<double>> eJ; std::vector<std::vector<int>> has;
  for (int k : rs) for (int i = 0; i < W.f[k]->num_residuals(); ++i) {
    er.push_back(W.w(k, apply) * W.f[k]->r[i]); eJ.emplace_back(cols, 0.0); has.emplace_back(cols, 0);
    for (size_t j = 0; j < W.f[k]->b.size(); ++j) { int b = W.f[k]->b[j]; if (off[b] < 0 || W.cst[b]) continue; for (int q = 0; q < W.tg[b]; ++q) { double v = W.w(k, apply) * W.jac(k, i, j, q); eJ.back()[off[b] + q] = v; has.back()[off[b] + q] = 1; eg[off[b] + q] += v * er.back(); } }
  }
  if (outs & 2) { vp_check((int)r.size() == n, "residual count"); for (int i = 0; i < n; ++i) vp_check_eq(r[i], er[i], "residuals in order"); }
  if (outs & 4) { vp_check((int)g.size() == cols, "gradient size"); for (int i = 0; i < cols; ++i) vp_check_eq(g[i], eg[i], "gradient is the Jacobian transposed times the residuals"); }
  if (outs & 8) { vp_check(J.num_rows == n && J.num_cols == cols && (int)J.rows.size() == n + 1 && J.rows[0] == 0, "jacobian size"); for (int i = 0; i < n; ++i) { std::vector<double> d(cols, 0.0); std::vector<int> h(cols, 0); int prev = -1; for (int k = J.rows[i]; k < J.rows[i + 1]; ++k) { vp_check(J.cols[k] > prev && J.cols[k] < cols, "columns increase within a row"); prev = J.cols[k]; d[prev] = J.values[k]; h[prev] = 1; } for (int q = 0; q < cols; ++q) { vp_check(h[q] == has[i][q], "structure of the Jacobian"); vp_check_eq(d[q], eJ[i][q], "Jacobian entry"); } } vp_check(J.values.size() == J.cols.size() && (int)J.cols.size() == J.rows[n], "jacobian arrays agree"); }
}
// @run outputs
extern "C" void outputs() { World W(Problem::Options(), vp_choose("tangent", 4), 2); int c = vp_choose("constant", 4); if (c) W.constant(c - 1); evaluate(W, {0, 1, 2}, {0, 1, 2}, true, true, vp_choose("outputs", 16), vp_choose("apply loss", 2), 1); }
// @run subsets
extern "C" void subsets() {
  World W(Problem::Options(), 2, 4, 1); static const std::vector<std::vector<int>> rsel = {{2}, {0, 2}, {2, 1, 0}, {1, 0}, {0, 1, 2}}, psel = {{0}, {1}, {2}, {2, 0}, {1, 2}, {2, 1, 0}, {0, 1, 2}}; int rk = vp_choose("residual blocks", 5), pk = vp_choose("parameter blocks", 7), c = vp_choose("constant", 4); if (c) W.constant(c - 1);
  int again = vp_choose("then", 3); evaluate(W, rsel[rk], psel[pk], pk == 6, rk == 4, 15, true, 1); if (again == 1) evaluate(W, {0, 1, 2}, {0, 1, 2}, true, true, 13, true, 1); if (again == 2) { if (W.cst[1]) { W.p.SetParameterBlockVariable(X[1]); W.cst[1] = false; } else W.constant(1); X[0][1] = vp_real_in("x", -1e3, 1e3); evaluate(W, {0, 2}, {1, 0}, false, false, 15, false, 1); }
}
// @run failures
extern "C" void failures() { World W(Problem::Options(), 2, 0, 1); int who = vp_choose("failing", 3); W.f[who]->fail = 1; static const std::vector<std::vector<int>> rsel = {{2}, {0, 2}, {2, 1, 0}, {0, 1, 2}}, psel = {{2}, {1, 2}, {0, 1, 2}}; int rk = vp_choose("residual blocks", 4), pk = vp_choose("parameter blocks", 3); evaluate(W, rsel[rk], psel[pk], pk == 2, rk == 3, vp_choose("outputs", 16), true, 1); W.f[who]->fail = 0; evaluate(W, {0, 1, 2}, {0, 1, 2}, true, true, 15, true, 1); }
// @run threads jobs=8
extern "C" void threads() { World W(Problem::Options(), 2, 2, 1); if (vp_choose("constant", 2)) W.constant(0); evaluate(W, {0, 1, 2}, {0, 1, 2}, true, true, 7 + 8 * vp_choose("jacobian", 2), true, 2); }
// @run one
extern "C" void one() {  // a single residual block
  World W(Problem::Options(), vp_choose("tangent", 4), 5); int k = vp_choose("residual block", 3), cst = vp_choose("constant", 4); if (cst) W.constant(cst - 1); int mode = vp_choose("mode", 3); bool apply = mode < 2; int same = mode > 0, m = vp_choose("jacobians", 9); if (vp_choose("fail", 2)) W.f[k]->fail = 1;
  double buf[3][10]; double* J[3]; int np = W.f[k]->b.size(), nr = W.f[k]->num_residuals(); if (np < 3 && m > 4) vp_end(); for (int j = 0; j < 3; ++j) { for (double& v : buf[j]) v = 77; J[j] = m != 4 && (m > 4 ? m - 1 : m) >> j & 1 ? buf[j] + 1 : nullptr; } bool bad = W.f[k]->fail; if (m != 4) for (int j = 0; j < np; ++j) if (J[j] && W.cst[W.f[k]->b[j]]) bad = true;
  double cost = 77, r[4] = {77, 77, 77, 77}; int outs = vp_choose("outputs", 4); double* cp = outs & 1 ? &cost : nullptr; double* rp = outs & 2 ? r + 1 : nullptr; double** jp = m == 4 ? nullptr : J;
  bool ok = same ? W.p.EvaluateResidualBlockAssumingParametersUnchanged(W.id[k], apply, cp, rp, jp) : W.p.EvaluateResidualBlock(W.id[k], apply, cp, rp, jp); vp_check(ok == !bad, "fails for constant blocks and failing functions only"); if (!ok) return;
  vp_check(r[0] == 77 && r[nr + 1] == 77 && (outs & 2 || r[1] == 77), "bounds"); if (outs & 1) vp_check_eq(cost, W.cost(k, apply), "cost"); if (outs & 2) for (int i = 0; i < nr; ++i) vp_check_eq(r[1 + i], W.w(k, apply) * W.f[k]->r[i], "residual");
  for (int j = 0; j < np; ++j) { int t = W.tg[W.f[k]->b[j]]; bool want = m != 4 && J[j]; vp_check(buf[j][0] == 77 && buf[j][1 + (want ? nr * t : 0)] == 77, "bounds"); if (want) for (int i = 0; i < nr; ++i) for (int q = 0; q < t; ++q) vp_check_eq(buf[j][1 + i * t + q], W.w(k, apply) * W.jac(k, i, j, q), "Jacobian on the tangent space"); }
}
