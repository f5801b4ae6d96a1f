// The implicit Schur complement and its preconditioners act as the matrices they stand for.
#include "schur_common.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/partitioned_matrix_view.h"
namespace EigenForCeres = Eigen;
#include "ceres/partitioned_matrix_view_impl.h"
#undef Eigen
#include "ceres/power_series_expansion_preconditioner.h"
#include "ceres/schur_jacobi_preconditioner.h"
// @bound up to 4 row blocks, 2 eliminated blocks and 2 others; block sizes 1 to 3; every pattern of present blocks for the partitioned products; with and without diagonal; power series of up to 2 terms with arbitrary tolerance; 1 and 2 threads with every schedule of at most one preemption
using namespace sp;
static LinearSolver::Options options(ContextImpl* c, int ne, int nt = 1) { LinearSolver::Options o; o.context = c; o.num_threads = nt; o.elimination_groups = {ne, 1}; return o; }
static void view(PartitionedMatrixViewBase& V, const Sys& s, bool multi) {
  vp_check(V.num_col_blocks_e() == s.ne && V.num_col_blocks_f() == (int)s.cols.size() - s.ne && V.num_cols_e() == s.en && V.num_cols_f() == s.fn && V.num_rows() == s.J.rows() && V.num_cols() == s.J.cols(), "sizes"); Matrix E = s.J.leftCols(s.en), F = s.J.rightCols(s.fn); auto xe = vec(s.en, "xe"), xf = vec(s.fn, "xf"), y = vec(s.J.rows(), "y"); auto a = y, b = y, c = xe, d = xf; V.RightMultiplyAndAccumulateE(xe.data(), a.data()); V.RightMultiplyAndAccumulateF(xf.data(), b.data()); same(a, right(E, xe, y), "E x"); same(b, right(F, xf, y), "F x"); V.LeftMultiplyAndAccumulateE(y.data(), c.data()); V.LeftMultiplyAndAccumulateF(y.data(), d.data()); same(c, left(E, y, xe), "E' x"); same(d, left(F, y, xf), "F' x");
  if (multi) { c = xe; d = xf; V.LeftMultiplyAndAccumulateESingleThreaded(y.data(), c.data()); V.LeftMultiplyAndAccumulateFSingleThreaded(y.data(), d.data()); same(c, left(E, y, xe), "E' x"); same(d, left(F, y, xf), "F' x"); }
  auto diag = [&](BlockSparseMatrix& M, const Matrix& B, int from, int to, const char* id) { Matrix G = Matrix::Zero(B.cols(), B.cols()); int p = 0; for (int k = from; k < to; ++k) { for (int i = 0; i < s.cols[k]; ++i) for (int j = 0; j < s.cols[k]; ++j) for (int r = 0; r < B.rows(); ++r) G(p + i, p + j) += B(r, p + i) * B(r, p + j); p += s.cols[k]; } vp_check(M.num_rows() == B.cols() && (int)M.block_structure()->rows.size() == to - from, "blocks"); same(dense(M), G, id); };
  auto ee = V.CreateBlockDiagonalEtE(), ff = V.CreateBlockDiagonalFtF(); diag(*ee, E, 0, s.ne, "E'E"); diag(*ff, F, s.ne, s.cols.size(), "F'F"); for (int i = 0; i < ee->num_nonzeros(); ++i) ee->mutable_values()[i] = 99; V.UpdateBlockDiagonalEtE(ee.get()); V.UpdateBlockDiagonalFtF(ff.get()); diag(*ee, E, 0, s.ne, "updated E'E"); diag(*ff, F, s.ne, s.cols.size(), "updated F'F");
}
static std::vector<int> masks(int n, int m) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(vp_choose("f", m)); return v; }
// @run views jobs=8
extern "C" void views() { vp_opt("preempt", 0); int tr = vp_choose("transpose", 2); int shape = vp_choose("shape", 3); std::vector<int> f = masks(4, 4); if (f[3] == 0) vp_end(); if (shape == 2 && (f[2] == 0)) vp_end(); Sys s(shape == 0 ? std::vector<int>{1, 2, 1, 3} : std::vector<int>{2, 1, 1, 2}, shape == 1 ? std::vector<int>{2, 1, 1, 2} : std::vector<int>{1, 2, 2, 1}, 2, shape == 2 ? std::vector<int>{0, 1, -1, -1} : std::vector<int>{0, 0, 1, -1}, f, false, vp_choose("split", 2) * 2); if (tr) s.A->AddTransposeBlockStructure(); ContextImpl ctx; if (tr) ctx.EnsureMinimumThreads(2); auto V = PartitionedMatrixViewBase::Create(options(&ctx, 2, 1 + tr), *s.A); view(*V, s, true); }
// @run fixedviews jobs=8
extern "C" void fixedviews() { vp_opt("preempt", 0); int tr = vp_choose("transpose", 2); ContextImpl ctx; if (tr) ctx.EnsureMinimumThreads(2); LinearSolver::Options o = options(&ctx, 1, 1 + tr); std::vector<int> f = masks(3, 4); if (f[2] == 0) vp_end(); bool g = vp_choose("group", 2); Sys s({2, 2, 1}, {2, 2, g ? 1 : 2}, 1, {0, 0, -1}, f, false, vp_choose("split", 2)); if (tr) s.A->AddTransposeBlockStructure(); if (g) { PartitionedMatrixView<2, 2, Eigen::Dynamic> V(o, *s.A); view(V, s, true); } else { PartitionedMatrixView<2, 2, 2> V(o, *s.A); view(V, s, true); } }
static void isc(const Sys& s, LinearSolver::Options o, bool twice, bool back) {
  ImplicitSchurComplement S(o); S.Init(*s.A, s.d(), s.b.data()); if (twice) S.Init(*s.A, s.d(), s.b.data()); Matrix M; std::vector<double> e; s.schur(M, e); vp_check(S.num_rows() == s.fn && S.num_cols() == s.fn, "size"); for (int i = 0; i < s.fn; ++i) vp_check_eq(S.rhs()[i], e[i], "reduced right hand side"); auto x = vec(s.fn, "x", -10, 10); std::vector<double> y(s.fn + 1, 5.0); S.RightMultiplyAndAccumulate(x.data(), y.data()); for (int i = 0; i < s.fn; ++i) { double v = 0; for (int j = 0; j < s.fn; ++j) v += M(i, j) * x[j]; vp_check_eq(y[i], v, "S x"); } vp_check(y[s.fn] == 5, "bounds"); if (!back) return; S.LeftMultiplyAndAccumulate(x.data(), y.data()); for (int i = 0; i < s.fn; ++i) { double v = 0; for (int j = 0; j < s.fn; ++j) v += M(i, j) * x[j]; vp_check_eq(y[i], v, "S' x"); }
  std::vector<double> full(s.en + s.fn + 1, 7.0); S.BackSubstitute(x.data(), full.data()); s.backsub(x, full, "eliminated variables"); for (int i = 0; i < s.fn; ++i) vp_check_eq(full[s.en + i], x[i], "other variables"); vp_check(full.back() == 7, "bounds");
}
static Sys small(int c, bool d, bool fixed = false) { int few = fixed ? 2 : 1; double lo = fixed ? 0.5 : 0.25, hi = fixed ? 2 : 10; switch (c) { case 0: return Sys({1, 1, 1}, {1, 1, 1}, 1, {0, 0, -1}, {1, 3, 2}, d, 0, lo, hi, few); case 1: return Sys({1, 2, 1}, {1, 1, 1}, 2, {0, 1, 1}, {1, 0, 1}, d, 2, lo, hi, few); case 2: return Sys({2, 1, 1}, {2, 1}, 1, {0, 0, -1}, {1, 1, 1}, d, 0, lo, hi, few); case 3: return Sys({1, 1, 1}, {1, 2}, 1, {0, 0, -1}, {1, 1, 1}, d, 1, lo, hi, few); default: return Sys({1, 1, 1, 1}, {1, 1, 1, 1}, 2, {0, 0, 1, -1}, {1, 2, 3, 2}, d, 0, lo, hi, few); } }
// @run implicit jobs=8
extern "C" void implicit() { int c = vp_choose("case", 5); bool d = vp_choose("D", 2); ContextImpl ctx; Sys s = small(c, d); auto o = options(&ctx, s.ne); if (vp_choose("ftf", 2)) { o.preconditioner_type = ceres::JACOBI; vp_assume(d); } isc(s, o, vp_choose("twice", 2), true); }
// inverse of F'F + D^2 blockwise, and the truncated series sum_i (inv(F'F) F'E inv(E'E) E'F)^i inv(F'F)
static std::vector<double> ftfinv(const Sys& s, const std::vector<double>& x) { std::vector<double> y(s.fn); int p = 0; for (size_t k = s.ne; k < s.cols.size(); ++k) { double det; Matrix a = Sys::adjugate(s.ete(k), det); for (int i = 0; i < s.cols[k]; ++i) { double v = 0; for (int j = 0; j < s.cols[k]; ++j) v += a(i, j) * x[p + j]; y[p + i] = v / det; } p += s.cols[k]; } return y; }
static std::vector<double> power(const Sys& s, const std::vector<double>& x) { int R = s.J.rows(); std::vector<double> fx(R, 0.0), w(R, 0.0), g(s.fn, 0.0); for (int r = 0; r < R; ++r) for (int j = 0; j < s.fn; ++j) fx[r] += s.J(r, s.en + j) * x[j]; for (int k = 0; k < s.ne; ++k) { double det; Matrix a = Sys::adjugate(s.ete(k), det); int p = s.pos(k), n = s.cols[k]; std::vector<double> h(n, 0.0); for (int i = 0; i < n; ++i) for (int r = 0; r < R; ++r) h[i] += s.J(r, p + i) * fx[r]; for (int i = 0; i < n; ++i) { double v = 0; for (int j = 0; j < n; ++j) v += a(i, j) * h[j]; for (int r = 0; r < R; ++r) w[r] += s.J(r, p + i) * (v / det); } } for (int j = 0; j < s.fn; ++j) for (int r = 0; r < R; ++r) g[j] += s.J(r, s.en + j) * w[r]; return ftfinv(s, g); }
// @run series jobs=8
extern "C" void series() { int c = vp_choose("case", 4), it = vp_choose("iterations", 4); ContextImpl ctx; Sys s = small(c, true, true); auto o = options(&ctx, s.ne); o.use_spse_initialization = true; ImplicitSchurComplement S(o); S.Init(*s.A, s.d(), s.b.data()); auto x = vec(s.fn, "x", 1, 2); std::vector<double> y(s.fn, 0.0), acc = y; S.InversePowerSeriesOperatorRightMultiplyAccumulate(x.data(), y.data()); same(y, power(s, x), "power series operator"); if (it == 0) return; Preconditioner::Options po; po.context = &ctx; double tol = it < 3 ? 0 : 10; PowerSeriesExpansionPreconditioner P(&S, it == 3 ? 5 : it, tol, po); vp_check(P.num_rows() == s.fn && P.Update(*s.A, s.d()), "update"); std::vector<double> z(s.fn, 3.0), t = ftfinv(s, x), sum = t; P.RightMultiplyAndAccumulate(x.data(), z.data()); for (int k = 0; k < it && k < (it == 3 ? 1 : 9); ++k) { t = power(s, t); for (int i = 0; i < s.fn; ++i) sum[i] += t[i]; } if (it == 3) { vp_reach("tolerance"); return; } same(z, sum, "truncated power series"); }
// @run jacobi jobs=8
extern "C" void jacobi() { int c = vp_choose("case", 5); bool d = vp_choose("D", 2); ContextImpl ctx; Sys s = small(c, d, c == 2 || c == 3); Preconditioner::Options o; o.context = &ctx; o.elimination_groups = {s.ne, (int)s.cols.size() - s.ne}; SchurJacobiPreconditioner P(*s.A->block_structure(), o); for (int rep = 0; rep < 2; ++rep) vp_check(P.Update(*s.A, s.d()), "updated"); Matrix M; std::vector<double> e; s.schur(M, e); auto f = s.fblocks(); for (auto& b : f) { double det; Sys::adjugate(M.block(b.position, b.position, b.size, b.size), det); vp_assume(det > 0.01); vp_assume(M(b.position, b.position) > 0.01); } auto x = vec(s.fn, "x", -10, 10); std::vector<double> y(s.fn, 0.0); P.RightMultiplyAndAccumulate(x.data(), y.data()); vp_check(P.num_rows() == s.fn, "size"); for (auto& b : f) for (int i = 0; i < b.size; ++i) { double v = 0; for (int j = 0; j < b.size; ++j) v += M(b.position + i, b.position + j) * y[b.position + j]; vp_check_eq(v, x[b.position + i], "inverse of the diagonal blocks"); } }
// @run threads jobs=8
extern "C" void threads() { vp_opt("preempt", 1); vp_opt("race", 1); ContextImpl ctx; ctx.EnsureMinimumThreads(2); Sys s({1, 1, 1}, {1, 1, 1}, 1, {0, 0, -1}, {1, 2, 3}, false, 0); s.A->AddTransposeBlockStructure(); auto V = PartitionedMatrixViewBase::Create(options(&ctx, 1, 2), *s.A); int op = vp_choose("op", 5); Matrix E = s.J.leftCols(s.en), F = s.J.rightCols(s.fn); auto xf = vec(s.fn, "xf"), y = vec(s.J.rows(), "y"), a = y, d = xf; if (op == 0) { V->RightMultiplyAndAccumulateF(xf.data(), a.data()); same(a, right(F, xf, y), "F x"); } if (op == 1) { V->LeftMultiplyAndAccumulateF(y.data(), d.data()); same(d, left(F, y, xf), "F' x"); } if (op == 2) { auto M = V->CreateBlockDiagonalFtF(); for (int j = 0; j < s.fn; ++j) { double v = 0; for (int r = 0; r < 3; ++r) v += F(r, j) * F(r, j); vp_check_eq(dense(*M)(j, j), v, "F'F"); } } if (op == 3) { std::vector<double> xe = vec(s.en, "xe"); V->RightMultiplyAndAccumulateE(xe.data(), a.data()); same(a, right(E, xe, y), "E x"); } if (op == 4) { std::vector<double> xe = vec(s.en, "xe"), c = xe; V->LeftMultiplyAndAccumulateE(y.data(), c.data()); same(c, left(E, y, xe), "E' x"); } }
