// Evaluators: every Jacobian format and thread count computes the same thing.
#include "eval_common.h"
#include <memory>
#include <string>
#include "ceres/evaluator.h"
#include "ceres/context_impl.h"
#include "ceres/sparse_matrix.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/internal/eigen.h"
// @bound reduced programs of up to 3 residual blocks (1 to 2 residuals) over 3 parameter blocks (sizes 1 to 3, an arbitrary manifold of tangent size 1 to 3); every constancy, every Jacobian format (dense, block sparse with 0 to 2 eliminated blocks, dynamic sparse), two successive evaluations with unrelated values including zeros; 1 and 2 threads with every schedule of at most 2 preemptions
using namespace ev; using namespace ceres::internal;
static void scramble(World& W, bool zeros) { for (Any* f : W.f) { for (double& v : f->r) v = vp_real_in("r", -1e3, 1e3); for (auto& J : f->J) for (double& v : J) v = zeros ? 0 : anyJ(); } }
struct Run { World& W; Program& G; Evaluator& E; bool cst[NB]; int threads = 1; int soff[NB], off[NB], ns = 0, cols = 0, rows = 0; std::vector<int> used;
  Run(World& W, Program& G, Evaluator& E) : W(W), G(G), E(E) { for (int i = 0; i < NB; ++i) off[i] = soff[i] = -1; for (auto* b : G.parameter_blocks()) for (int i = 0; i < NB; ++i) if (b->user_state() == X[i]) { off[i] = cols; soff[i] = ns; cols += W.tg[i]; ns += SZ[i]; } for (int k = 0; k < 3; ++k) for (auto* r : G.residual_blocks()) if (r->cost_function() == W.f[k]) { used.push_back(k); rows += W.f[k]->num_residuals(); } }
  void eval(SparseMatrix* jac, int outs, bool apply) {
    std::vector<double> s(ns), r(rows + 1, 77), g(cols + 1, 77); double x0[NB][3]; for (int i = 0; i < NB; ++i) for (int k = 0; k < SZ[i]; ++k) x0[i][k] = X[i][k]; for (double& v : s) v = vp_real_in("s", -1e3, 1e3); double cost; Evaluator::EvaluateOptions o; o.apply_loss_function = apply; for (Any* f : W.f) f->calls = 0;
    vp_check(E.Evaluate(o, s.data(), &cost, outs & 1 ? r.data() : nullptr, outs & 2 ? g.data() : nullptr, outs & 4 ? jac : nullptr), "succeeds"); for (int k : used) vp_check(W.f[k]->calls == 1, "each residual block evaluated once");
    for (int k : used) for (size_t j = 0; j < W.f[k]->b.size(); ++j) { int b = W.f[k]->b[j]; for (int a = 0; a < SZ[b]; ++a) vp_check_eq(W.f[k]->seen[j][a], W.cst[b] ? x0[b][a] : s[soff[b] + a], "evaluated at the state"); } for (int i = 0; i < NB; ++i) for (int k = 0; k < SZ[i]; ++k) vp_check_eq(X[i][k], x0[i][k], "user state untouched");
    double c = 0; std::vector<double> er, eg(cols, 0.0); Matrix D = Matrix::Zero(rows, cols); int n = 0; for (int k : used) { c += W.cost(k, apply); for (int i = 0; i < W.f[k]->num_residuals(); ++i, ++n) { er.push_back(W.w(k, apply) * W.f[k]->r[i]); for (size_t j = 0; j < W.f[k]->b.size(); ++j) { int b = W.f[k]->b[j]; if (W.cst[b]) continue; for (int q = 0; q < W.tg[b]; ++q) { D(n, off[b] + q) = W.w(k, apply) * W.jac(k, i, j, q); eg[off[b] + q] += D(n, off[b] + q) * er.back(); } } } }
    vp_check_eq(cost, c, "cost"); if (outs & 1) for (int i = 0; i < rows; ++i) vp_check_eq(r[i], er[i], "residuals"); if (outs & 2) for (int i = 0; i < cols; ++i) vp_check_eq(g[i], eg[i], "gradient"); vp_check(r[rows] == 77 && g[cols] == 77, "bounds");
    if (outs & 4) { Matrix M; jac->ToDenseMatrix(&M); vp_check(M.rows() == rows && M.cols() == cols, "size"); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) vp_check_eq(M(i, j), D(i, j), "Jacobian entry"); Vector x(cols), y = Vector::Zero(rows), z = Vector::Zero(cols); for (int j = 0; j < cols; ++j) x[j] = j + 1; if (threads == 1) { jac->RightMultiplyAndAccumulate(x.data(), y.data()); jac->LeftMultiplyAndAccumulate(y.data(), z.data()); for (int i = 0; i < rows; ++i) { double e = 0; for (int j = 0; j < cols; ++j) e += D(i, j) * (j + 1); vp_check_eq(y[i], e, "product"); } } }
  }
};
static void go(int threads) {
  int kind = vp_choose("format", threads > 1 ? 3 : 7); positive = kind == 2; World W(Problem::Options(), kind == 2 ? 3 : threads > 1 ? 2 : 1 + vp_choose("tangent", 3), 2, threads > 1 ? 1 : 2); int c = vp_choose("constant", threads > 1 ? 2 : 8); for (int i = 0; i < NB; ++i) if (c >> i & 1) W.constant(i); if (c == 7) vp_end();
  std::vector<double*> removed; double fixed = 0; std::string err; Program& full = *const_cast<Program*>(&W.p.mutable_impl()->program()); std::unique_ptr<Program> G = full.CreateReducedProgram(&removed, &fixed, &err); vp_check(G != nullptr, "reduced"); if (!G) return;
  Evaluator::Options o; ContextImpl ctx; o.context = &ctx; o.num_threads = threads; ctx.EnsureMinimumThreads(threads - 1); static const LinearSolverType T[] = {DENSE_QR, ITERATIVE_SCHUR, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, DENSE_NORMAL_CHOLESKY, CGNR, SPARSE_NORMAL_CHOLESKY}; o.linear_solver_type = T[kind]; o.dynamic_sparsity = kind == 2; o.sparse_linear_algebra_library_type = EIGEN_SPARSE; o.num_eliminate_blocks = 0; if (kind == 1) o.num_eliminate_blocks = 1; if (kind == 3) o.num_eliminate_blocks = 2; if (o.num_eliminate_blocks > G->NumParameterBlocks()) vp_end();
  std::unique_ptr<Evaluator> E = Evaluator::Create(o, G.get(), &err); vp_check(E != nullptr, "created"); vp_check(E->NumParameters() == G->NumParameters() && E->NumEffectiveParameters() == G->NumEffectiveParameters() && E->NumResiduals() == G->NumResiduals(), "sizes"); std::unique_ptr<SparseMatrix> J = E->CreateJacobian(); vp_check(J != nullptr, "jacobian");
  Run R(W, *G, *E); R.threads = threads; if (threads > 1) { R.eval(J.get(), 7, true); return; } int outs = vp_choose("outputs", 3); R.eval(J.get(), outs == 0 ? 7 : outs == 1 ? 4 : 6, true); int z = vp_choose("zeros", 4); scramble(W, z == 1); if (z == 2) W.f[0]->J[0][0] = W.f[2]->J[1][1] = 0; if (z == 3) { W.f[0]->J[1][1] = W.f[2]->J[0][0] = 0; for (double& v : W.f[1]->J[0]) v = 0; } R.eval(J.get(), 7, false);
  if (auto* B = dynamic_cast<BlockSparseMatrix*>(J.get())) { const CompressedRowBlockStructure* s = B->block_structure(); int e = 0; for (auto& r : s->rows) for (auto& q : r.cells) if (q.block_id < o.num_eliminate_blocks) e += r.block.size * s->cols[q.block_id].size; for (auto& r : s->rows) { int last = -1; for (auto& q : r.cells) { vp_check(q.block_id > last, "cells in column order"); last = q.block_id; int n = r.block.size * s->cols[q.block_id].size; if (q.block_id < o.num_eliminate_blocks) vp_check(q.position + n <= e, "eliminated blocks come first"); else vp_check(q.position >= e, "other blocks follow"); } } }
}
// @run formats
extern "C" void formats() { go(1); }
// @run threads jobs=8
extern "C" void threads() { go(2); }
// @run again jobs=8
extern "C" void again() {  // a second evaluation knows nothing of the first, whichever thread did the work
  vp_opt("preempt", 1); World W(Problem::Options(), 3, 0, 1); std::vector<double*> removed; double fixed = 0; std::string err; Program& full = *const_cast<Program*>(&W.p.mutable_impl()->program()); std::unique_ptr<Program> G = full.CreateReducedProgram(&removed, &fixed, &err); Evaluator::Options o; ContextImpl ctx; o.context = &ctx; o.num_threads = 2; ctx.EnsureMinimumThreads(1); o.num_eliminate_blocks = 0; o.linear_solver_type = vp_choose("format", 2) ? DENSE_QR : CGNR; o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  std::unique_ptr<Evaluator> E = Evaluator::Create(o, G.get(), &err); std::unique_ptr<SparseMatrix> J = E->CreateJacobian(); Run R(W, *G, *E); R.threads = 2; R.eval(J.get(), 7, true); scramble(W, false); R.eval(J.get(), 7, true);
}
// @run unknown
extern "C" void unknown() { World W; Evaluator::Options o; ContextImpl ctx; o.context = &ctx; o.linear_solver_type = (LinearSolverType)99; std::string err; vp_check(Evaluator::Create(o, const_cast<Program*>(&W.p.mutable_impl()->program()), &err) == nullptr && !err.empty(), "unknown solver types are refused"); }
