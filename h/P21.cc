// Gram matrices, block random access matrices and block diagonal preconditioners hold exactly what they stand for.
#include "schur_common.h"
#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/inner_product_computer.h"
#include "ceres/subset_preconditioner.h"
// @bound up to 3 row blocks and 3 column blocks of sizes 1 to 3; every pattern of present blocks, every row range, upper and lower storage; repeated computation after the values changed; 1 and 2 threads with every schedule of at most one preemption (thorough: two)
using namespace sp;
using CRS = CompressedRowSparseMatrix;
static Matrix gram(const Matrix& B) { Matrix G = Matrix::Zero(B.cols(), B.cols()); for (int i = 0; i < B.cols(); ++i) for (int j = 0; j < B.cols(); ++j) for (int r = 0; r < B.rows(); ++r) G(i, j) += B(r, i) * B(r, j); return G; }
static void shape(int k, std::vector<int>& r, std::vector<int>& c) { static const int R[5][3] = {{1, 1, 1}, {2, 1, 3}, {1, 2, 1}, {3, 1, 2}, {2, 2, 2}}, C[5][3] = {{1, 1, 1}, {1, 2, 3}, {2, 1, 2}, {3, 1, 1}, {2, 2, 1}}; r.assign(R[k], R[k] + 3); c.assign(C[k], C[k] + 3); }
// every stored entry once, within its own triangle of blocks, increasing in each row, holding the sum over the chosen rows; entries absent are zero
static void gramIs(const CRS& M, const BlockSparseMatrix& A, int from, int to, bool lower) {
  const auto* bs = A.block_structure(); int r0 = bs->rows[from].block.position, r1 = to == (int)bs->rows.size() ? A.num_rows() : bs->rows[to].block.position; Matrix J = dense(A), G = gram(J.middleRows(r0, r1 - r0)); int n = A.num_cols(); vp_check(M.num_rows() == n && M.num_cols() == n && M.storage_type() == (lower ? CRS::StorageType::LOWER_TRIANGULAR : CRS::StorageType::UPPER_TRIANGULAR) && M.rows()[0] == 0 && M.rows()[n] == M.num_nonzeros() && M.row_blocks().size() == bs->cols.size() && M.col_blocks().size() == bs->cols.size(), "shape");
  std::vector<int> blk(n); for (size_t b = 0; b < bs->cols.size(); ++b) for (int i = 0; i < bs->cols[b].size; ++i) blk[bs->cols[b].position + i] = b;
  for (int i = 0; i < n; ++i) { std::vector<int> has(n, 0); for (int k = M.rows()[i]; k < M.rows()[i + 1]; ++k) { int j = M.cols()[k]; vp_check(j >= 0 && j < n && !has[j] && (k == M.rows()[i] || M.cols()[k - 1] < j), "increasing columns"); has[j] = 1; vp_check(lower ? blk[j] <= blk[i] : blk[j] >= blk[i], "triangle"); vp_check_eq(M.values()[k], G(i, j), "entry of the product"); }
    for (int j = 0; j < n; ++j) { bool both = false; for (int r = from; r < to; ++r) { bool a = false, b = false; for (auto& c : bs->rows[r].cells) { a |= c.block_id == blk[i]; b |= c.block_id == blk[j]; } both |= a && b; } bool want = both && (lower ? blk[j] <= blk[i] : blk[j] >= blk[i]); vp_check(has[j] == want, "structure of the product"); } }
}
// @run product jobs=8
extern "C" void product() { std::vector<int> r, c; shape(vp_choose("shape", 5), r, c); int mask = vp_choose("mask", 511) + 1; bool lower = vp_choose("lower", 2); BlockSparseMatrix A(structure(r, c, mask)); fill(A); auto P = InnerProductComputer::Create(A, lower ? CRS::StorageType::LOWER_TRIANGULAR : CRS::StorageType::UPPER_TRIANGULAR); P->Compute(); gramIs(P->result(), A, 0, 3, lower); for (int i = 0; i < A.num_nonzeros(); i += 2) A.mutable_values()[i] = vp_real("v"); P->Compute(); gramIs(*P->mutable_result(), A, 0, 3, lower); }
// @run ranges jobs=8
extern "C" void ranges() { std::vector<int> r, c; shape(1, r, c); int mask = vp_choose("mask", 511) + 1, from = vp_choose("from", 3), to = from + 1 + vp_choose("to", 3); if (to > 3) vp_end(); bool any = false; for (int i = from; i < to; ++i) any |= (mask >> (3 * i) & 7) != 0; if (!any) vp_end(); bool lower = vp_choose("lower", 2); BlockSparseMatrix A(structure(r, c, mask)); fill(A); auto P = InnerProductComputer::Create(A, from, to, lower ? CRS::StorageType::LOWER_TRIANGULAR : CRS::StorageType::UPPER_TRIANGULAR); P->Compute(); gramIs(P->result(), A, from, to, lower); }
static std::vector<Block> blocks(int k) { std::vector<int> r, c; shape(k, r, c); std::vector<Block> b; int p = 0; for (int s : c) { b.emplace_back(s, p); p += s; } return b; }
// @run access jobs=4
extern "C" void access() {
  auto b = blocks(vp_choose("shape", 5)); int n = b.size(), kind = vp_choose("kind", 3), mask = kind == 2 ? vp_choose("pairs", 64) : 0; ContextImpl ctx; std::unique_ptr<BlockRandomAccessMatrix> M; std::vector<std::vector<int>> pr(n, std::vector<int>(n, kind == 0)); BlockRandomAccessSparseMatrix* sm = nullptr; BlockRandomAccessDiagonalMatrix* dm = nullptr;
  if (kind == 0) M = std::make_unique<BlockRandomAccessDenseMatrix>(b, &ctx, 1); if (kind == 1) { auto u = std::make_unique<BlockRandomAccessDiagonalMatrix>(b, &ctx, 1); dm = u.get(); M = std::move(u); for (int i = 0; i < n; ++i) pr[i][i] = 1; } if (kind == 2) { absl::btree_set<std::pair<int, int>> p; int k = 0; for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j, ++k) if (mask >> k & 1) { p.insert({i, j}); pr[i][j] = 1; } auto u = std::make_unique<BlockRandomAccessSparseMatrix>(b, p, &ctx, 1); sm = u.get(); M = std::move(u); }
  M->SetZero(); int N = b.back().position + b.back().size; Matrix D = Matrix::Zero(N, N); vp_check(M->num_rows() == N && M->num_cols() == N, "size");
  auto each = [&](auto f) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int r = -1, c = -1, rs = -1, cs = -1; CellInfo* q = M->GetCell(i, j, &r, &c, &rs, &cs); vp_check((q != nullptr) == (pr[i][j] != 0), "presence"); if (!q) continue; vp_check(r >= 0 && c >= 0 && r + b[i].size <= rs && c + b[j].size <= cs, "within the dense matrix"); for (int x = 0; x < b[i].size; ++x) for (int y = 0; y < b[j].size; ++y) f(q->values[(r + x) * cs + c + y], D(b[i].position + x, b[j].position + y)); } };
  each([](double& v, double& d) { vp_check(v == 0, "zero"); v = d = vp_real_in("m", -1e3, 1e3); }); each([](double& v, double& d) { vp_check_eq(v, d, "storage of its own"); });
  auto x = vec(N, "x"), y = vec(N, "y"), z = y; if (sm) { for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int p = 0; p < b[i].size; ++p) for (int q = 0; q < b[j].size; ++q) D(b[j].position + q, b[i].position + p) = D(b[i].position + p, b[j].position + q); sm->SymmetricRightMultiplyAndAccumulate(x.data(), y.data()); same(y, right(D, x, z), "symmetric product"); }
  if (dm) { dm->RightMultiplyAndAccumulate(x.data(), y.data()); same(y, right(D, x, z), "block diagonal product"); }
  M->SetZero(); each([](double& v, double&) { vp_check(v == 0, "cleared"); });
}
// y = P x solves (blocks of A'A + D^2) y = x
static void inverse(const LinearOperator& P, const Matrix& G, const std::vector<Block>& b) { int N = G.rows(); vp_check(P.num_rows() == N && P.num_cols() == N, "size"); auto x = vec(N, "x", -10, 10); std::vector<double> y(N + 1, 0.0); P.RightMultiplyAndAccumulate(x.data(), y.data()); for (auto& k : b) for (int i = 0; i < k.size; ++i) { double v = 0; for (int j = 0; j < k.size; ++j) v += G(k.position + i, k.position + j) * y[k.position + j]; vp_check_eq(v, x[k.position + i], "inverse of the diagonal block"); } vp_check(y[N] == 0, "bounds"); }
static void values(BlockSparseMatrix& A, int step) { for (int i = 0; i < A.num_nonzeros(); ++i) A.mutable_values()[i] = i % step ? 0.5 + (i * 5 % 7) * 0.25 : vp_real_in("a", 0.25, 4); }
// @run jacobi jobs=8
extern "C" void jacobi() {
  int k = vp_choose("shape", 3); std::vector<int> r = k == 0 ? std::vector<int>{1, 1, 1} : k == 1 ? std::vector<int>{2, 1, 3} : std::vector<int>{3, 2, 2}, c = k == 0 ? std::vector<int>{1, 1, 1} : k == 1 ? std::vector<int>{1, 2, 1} : std::vector<int>{2, 1, 3}; int mask = k == 0 ? vp_choose("mask", 512) : vp_choose("mask", 32) * 16 + 7, step = k == 0 ? 1 : k == 1 ? 5 : 99; bool crs = vp_choose("crs", 2), d = vp_choose("D", 2); auto* st = structure(r, c, mask); auto cb = st->cols; BlockSparseMatrix A(st); if (!A.num_nonzeros()) vp_end(); values(A, step); int N = A.num_cols(); std::vector<double> D; if (d) for (int i = 0; i < N; ++i) D.push_back(k == 0 ? vp_real_in("D", 0.5, 5) : 0.5 + i * 0.25); ContextImpl ctx; Preconditioner::Options o; o.context = &ctx;
  if (!d) for (int j = 0; j < 3; ++j) { bool any = false; for (int i = 0; i < 3; ++i) any |= mask >> (3 * i + j) & 1 && r[i] >= c[j]; if (!any || k == 2) vp_end(); } if (crs) for (int i = 0; i < 3; ++i) if (!(mask >> (3 * i) & 7)) vp_end();
  Matrix G = gram(dense(A)); for (int i = 0; d && i < N; ++i) G(i, i) += D[i] * D[i]; if (!d) for (auto& b : cb) if (b.size == 2) vp_assume(G(b.position, b.position) * G(b.position + 1, b.position + 1) - G(b.position, b.position + 1) * G(b.position, b.position + 1) >= 0.01);
  if (crs) { auto M = A.ToCompressedRowSparseMatrix(); BlockCRSJacobiPreconditioner P(o, *M); for (int rep = 0; rep < 2; ++rep) vp_check(P.Update(*M, d ? D.data() : nullptr), "updated"); inverse(P, G, cb); } else { BlockSparseJacobiPreconditioner P(o, A); for (int rep = 0; rep < 2; ++rep) vp_check(P.Update(A, d ? D.data() : nullptr), "updated"); inverse(P, G, cb); }
}
// the simple ones
// @run identity
extern "C" void identity() { IdentityPreconditioner P(3); auto x = vec(3, "x"), y = vec(3, "y"), z = y; P.RightMultiplyAndAccumulate(x.data(), y.data()); for (int i = 0; i < 3; ++i) vp_check_eq(y[i], z[i] + x[i], "identity"); std::unique_ptr<BlockSparseMatrix> A(new BlockSparseMatrix(structure({1, 2}, {1, 2}, 11))); fill(*A); SparseMatrixPreconditionerWrapper W(A.get(), Preconditioner::Options()); vp_check(W.Update(*A, nullptr) && W.num_rows() == 3, "wrapper"); y = z; W.RightMultiplyAndAccumulate(x.data(), y.data()); same(y, right(dense(*A), x, z), "wrapped product"); }
static void threads(int pre) {
  vp_opt("preempt", pre); vp_opt("race", 1); ContextImpl ctx; ctx.EnsureMinimumThreads(2); Preconditioner::Options o; o.context = &ctx; o.num_threads = 2; BlockSparseMatrix A(structure({1, 1}, {1, 1}, 11)); fill(A, "a", 0.5, 5); std::vector<double> D{vp_real_in("D", 0.5, 5), vp_real_in("D", 0.5, 5)}; Matrix G = gram(dense(A)); for (int i = 0; i < 2; ++i) G(i, i) += D[i] * D[i]; std::vector<Block> cb = A.block_structure()->cols; if (vp_choose("crs", 2)) { auto M = A.ToCompressedRowSparseMatrix(); BlockCRSJacobiPreconditioner P(o, *M); P.Update(*M, D.data()); inverse(P, G, cb); } else { BlockSparseJacobiPreconditioner P(o, A); P.Update(A, D.data()); inverse(P, G, cb); }
}
// @run threads1 jobs=8
extern "C" void threads1() { threads(1); }
// @run threads2 jobs=8 tier=thorough time=600 max-paths=2000000
extern "C" void threads2() { threads(2); }
