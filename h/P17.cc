// Every sparse representation acts as the dense matrix it stands for.
#include "sparse_common.h"
#include <algorithm>
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/triplet_sparse_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
// @bound matrices of 3x3 blocks (sizes 1 to 3) in all 512 patterns, stored sequentially and split; scalar matrices up to 4x4 with arbitrary order of entries; 2 threads with every schedule of at most one preemption (thorough: two, and 3 threads with one); all real values in a bounded range
using namespace sp;
typedef CompressedRowSparseMatrix Crs; typedef Crs::StorageType ST;
static void acts(SparseMatrix& A, const Matrix& D, bool norms = true) {  // products, norms, scaling, clearing
  vp_check(A.num_rows() == D.rows() && A.num_cols() == D.cols(), "size"); auto x = vec(D.cols(), "x"), y = vec(D.rows(), "y");
  auto r = y, l = x; A.RightMultiplyAndAccumulate(x.data(), r.data()); same(r, right(D, x, y), "A x"); A.LeftMultiplyAndAccumulate(y.data(), l.data()); same(l, left(D, y, x), "A' x");
  std::vector<double> n(D.cols(), 7.0), s = vec(D.cols(), "s"); A.SquaredColumnNorm(n.data()); for (int j = 0; j < D.cols(); ++j) { double e = 0; for (int i = 0; i < D.rows(); ++i) e += D(i, j) * D(i, j); vp_check_eq(n[j], e, "squared column norm"); }
  A.ScaleColumns(s.data()); Matrix S = D, M; for (int j = 0; j < D.cols(); ++j) S.col(j) *= s[j]; A.ToDenseMatrix(&M); same(M, S, "scaled columns"); if (norms) { A.SetZero(); A.ToDenseMatrix(&M); same(M, Matrix::Zero(D.rows(), D.cols()), "cleared"); }
}
static Matrix dense(const Crs& A) { Matrix D = Matrix::Zero(A.num_rows(), A.num_cols()); for (int r = 0; r < A.num_rows(); ++r) for (int i = A.rows()[r]; i < A.rows()[r + 1]; ++i) D(r, A.cols()[i]) += A.values()[i]; return D; }
static void ordered(const Crs& A) { vp_check(A.rows()[0] == 0 && A.rows()[A.num_rows()] == A.num_nonzeros(), "row starts"); for (int r = 0; r < A.num_rows(); ++r) { vp_check(A.rows()[r] <= A.rows()[r + 1], "row starts increase"); for (int i = A.rows()[r]; i < A.rows()[r + 1]; ++i) { vp_check(A.cols()[i] >= 0 && A.cols()[i] < A.num_cols(), "columns in range"); if (i > A.rows()[r]) vp_check(A.cols()[i - 1] < A.cols()[i], "columns increase"); } } }
static void transposed(const CompressedRowBlockStructure& s, const CompressedRowBlockStructure& t) {
  vp_check(t.rows.size() == s.cols.size() && t.cols.size() == s.rows.size(), "transpose dimensions"); int cum = 0; for (size_t c = 0; c < s.cols.size(); ++c) { vp_check(t.rows[c].block == s.cols[c], "transpose rows"); size_t k = 0; int nnz = 0; for (size_t r = 0; r < s.rows.size(); ++r) for (auto& q : s.rows[r].cells) if (q.block_id == (int)c) { vp_check(k < t.rows[c].cells.size() && t.rows[c].cells[k].block_id == (int)r && t.rows[c].cells[k].position == q.position, "transpose cells"); ++k; nnz += s.rows[r].block.size * s.cols[c].size; } vp_check(k == t.rows[c].cells.size() && t.rows[c].nnz == nnz && t.rows[c].cumulative_nnz == (cum += nnz), "transpose counts"); } for (size_t r = 0; r < s.rows.size(); ++r) vp_check(t.cols[r] == s.rows[r].block, "transpose columns");
}
static const std::vector<int> R = {2, 1, 3}, C = {1, 2, 1};
static void convert(BlockSparseMatrix& A, const Matrix& D) {
  Matrix M; A.ToDenseMatrix(&M); same(M, D, "dense"); auto c = A.ToCompressedRowSparseMatrix(); ordered(*c); same(dense(*c), D, "row compressed"); vp_check(c->row_blocks().size() == A.block_structure()->rows.size() && c->col_blocks() == A.block_structure()->cols, "block information"); for (size_t i = 0; i < c->row_blocks().size(); ++i) vp_check(c->row_blocks()[i] == A.block_structure()->rows[i].block, "row blocks");
  auto t = A.ToCompressedRowSparseMatrixTranspose(); ordered(*t); same(dense(*t), D.transpose(), "transposed"); TripletSparseMatrix T; A.ToTripletSparseMatrix(&T); T.ToDenseMatrix(&M); same(M, D, "triplets"); vp_check(T.num_nonzeros() == A.num_nonzeros() && T.AllTripletsWithinBounds(), "triplet count");
  fill(A, "b"); Matrix E = sp::dense(A); A.UpdateCompressedRowSparseMatrix(c.get()); ordered(*c); same(dense(*c), E, "updated"); A.UpdateCompressedRowSparseMatrixTranspose(t.get()); ordered(*t); same(dense(*t), E.transpose(), "updated transpose");
}
static void go(int elim) { int m = vp_choose("pattern", 512); BlockSparseMatrix A(structure(R, C, m, elim)); int n = 0; for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) if (m >> (3 * r + c) & 1) n += R[r] * C[c]; vp_check(A.num_nonzeros() == n && A.num_rows() == 6 && A.num_cols() == 4, "sizes"); fill(A); if (elim & 1) A.AddTransposeBlockStructure(); if (A.transpose_block_structure()) transposed(*A.block_structure(), *A.transpose_block_structure()); convert(A, sp::dense(A)); acts(A, sp::dense(A)); }
// @run sequential jobs=8
extern "C" void sequential() { go(0); }
// @run split jobs=8
extern "C" void split() { go(1); }
// @run split2 jobs=8 tier=thorough
extern "C" void split2() { go(2); }
// append and delete rows, with and without the transpose structure, in either order
// @run rows jobs=8
extern "C" void rows() {
  static const int P[] = {0x1ff, 0x0aa, 0x155, 0x111, 0x007, 0x1c0, 0x000, 0x092}; int early = vp_choose("transpose", 3), split = vp_choose("split", 2); BlockSparseMatrix A(structure(R, C, P[vp_choose("a", 8)], split)); fill(A); if (early == 1) A.AddTransposeBlockStructure(); Matrix D = sp::dense(A); static const int Q[] = {0x3f, 0x15, 0x2a, 0, 0x08}; BlockSparseMatrix B(structure({1, 2}, C, Q[vp_choose("b", 5)])); fill(B, "b"); Matrix E = sp::dense(B);
  int del = vp_choose("delete", 4), first = split ? 0 : vp_choose("first", 2);  /* rows are deleted from the end of the values */
   Matrix F = D; auto rem = [&](int k) { int h = 0, n = A.block_structure()->rows.size(); for (int i = 0; i < k; ++i) h += A.block_structure()->rows[n - 1 - i].block.size; A.DeleteRowBlocks(k); F.conservativeResize(F.rows() - h, 4); }; if (first) rem(del); A.AppendRows(B); { Matrix G(F.rows() + 3, 4); G << F, E; F = G; } if (!first) rem(del); if (early == 2) A.AddTransposeBlockStructure(); vp_check(A.num_nonzeros() == [&] { int n = 0; for (auto& r : A.block_structure()->rows) for (auto& c : r.cells) n += r.block.size * C[c.block_id]; return n; }(), "nonzeros"); same(sp::dense(A), F, "rows"); if (A.transpose_block_structure()) transposed(*A.block_structure(), *A.transpose_block_structure()); Matrix M; A.ToDenseMatrix(&M); same(M, F, "dense"); auto x = vec(F.rows(), "x"), y = vec(4, "y"), r = y; A.LeftMultiplyAndAccumulate(x.data(), r.data()); same(r, left(F, x, y), "A' x"); auto c = A.ToCompressedRowSparseMatrix(); same(dense(*c), F, "row compressed");
}
// @run diagonal
extern "C" void diagonal() {
  std::vector<Block> b; int n = 0, k = 1 + vp_choose("blocks", 3); for (int i = 0; i < k; ++i) { int s = 1 + vp_choose("size", 3); b.emplace_back(s, n); n += s; } auto d = vec(n, "d"); Matrix D = Matrix::Zero(n, n); for (int i = 0; i < n; ++i) D(i, i) = d[i];
  auto c = Crs::CreateBlockDiagonalMatrix(d.data(), b); ordered(*c); same(dense(*c), D, "block diagonal"); vp_check(c->row_blocks() == b && c->col_blocks() == b, "blocks"); int nnz = 0; for (auto& q : b) nnz += q.size * q.size; vp_check(c->num_nonzeros() == nnz, "whole blocks are stored"); same(dense(*Crs::CreateBlockDiagonalMatrix(nullptr, b)), Matrix::Zero(n, n), "zero block diagonal"); Crs s(d.data(), n); ordered(s); same(dense(s), D, "diagonal"); auto t = TripletSparseMatrix::CreateSparseDiagonalMatrix(d.data(), n); Matrix M; t->ToDenseMatrix(&M); same(M, D, "triplet diagonal"); auto A = BlockSparseMatrix::CreateDiagonalMatrix(d.data(), b); same(sp::dense(*A), D, "block sparse diagonal"); A->ToDenseMatrix(&M); same(M, D, "block sparse diagonal");
}
// Arbitrary order of entries; the positions of all entries are symbolic.
// @run triplets jobs=8
extern "C" void triplets() {
  int nr = 2 + vp_choose("rows", 2), nc = 3, n = vp_choose("entries", 4); TripletSparseMatrix T(nr, nc, 4); Matrix D = Matrix::Zero(nr, nc); bool used[9] = {}; for (int i = 0; i < n; ++i) { int r = vp_choose("r", nr), c = vp_choose("c", nc); vp_assume(!used[r * 3 + c]); used[r * 3 + c] = true; T.mutable_rows()[i] = r; T.mutable_cols()[i] = c; D(r, c) = T.mutable_values()[i] = vp_real_in("v", -1e3, 1e3); } T.set_num_nonzeros(n); vp_check(T.IsValid(), "valid");
  auto c = Crs::FromTripletSparseMatrix(T), t = Crs::FromTripletSparseMatrixTransposed(T); ordered(*c); ordered(*t); same(dense(*c), D, "compressed"); same(dense(*t), D.transpose(), "compressed transpose"); vp_check(c->storage_type() == ST::UNSYMMETRIC && c->num_nonzeros() == n, "entries"); auto u = c->Transpose(); ordered(*u); same(dense(*u), D.transpose(), "transpose"); ceres::CRSMatrix m; c->ToCRSMatrix(&m); vp_check(m.num_rows == nr && m.num_cols == nc && (int)m.rows.size() == nr + 1 && (int)m.cols.size() == n && (int)m.values.size() == n, "crs sizes"); for (int i = 0; i < n; ++i) vp_check(m.cols[i] == c->cols()[i], "crs"), vp_check_eq(m.values[i], c->values()[i], "crs"); DenseSparseMatrix S(T); TripletSparseMatrix U(T), V; V = T; int nr2 = vp_choose("nr2", 3) * 2, nc2 = 2 + (nr2 + n) % 3;
  acts(*c, D); acts(S, D); { Matrix M; V.Resize(nr2, nc2); V.ToDenseMatrix(&M); vp_check(V.IsValid(), "resized within bounds"); Matrix E = Matrix::Zero(nr2, nc2); for (int i = 0; i < std::min(nr, nr2); ++i) for (int j = 0; j < std::min(nc, nc2); ++j) E(i, j) = D(i, j); same(M, E, "resized"); } U.AppendRows(T); Matrix G(2 * nr, nc), M; G << D, D; U.ToDenseMatrix(&M); same(M, G, "append rows"); U.Resize(nr, nc); U.AppendCols(T); Matrix H(nr, 2 * nc); H << D, D; U.ToDenseMatrix(&M); same(M, H, "append columns"); acts(T, D);
}
// The same with every position symbolic at once (decided over all placements).
// @run placed jobs=8
extern "C" void placed() {
  TripletSparseMatrix T(3, 3, 3); int r[3], c[3]; double v[3]; for (int i = 0; i < 3; ++i) { r[i] = vp_int("r", 0, 2); c[i] = vp_int("c", 0, 2); v[i] = vp_real_in("v", -10, 10); for (int k = 0; k < i; ++k) vp_assume(r[i] != r[k] || c[i] != c[k]); T.mutable_rows()[i] = r[i]; T.mutable_cols()[i] = c[i]; T.mutable_values()[i] = v[i]; } T.set_num_nonzeros(3); double x[3] = {2, 3, 5}, y[3] = {1, 1, 1}, z[3] = {1, 1, 1}; T.RightMultiplyAndAccumulate(x, y); T.LeftMultiplyAndAccumulate(x, z); double n[3]; T.SquaredColumnNorm(n); for (int i = 0; i < 3; ++i) { double e = 1, f = 1, g = 0; for (int k = 0; k < 3; ++k) { double xc = c[k] == 0 ? 2 : c[k] == 1 ? 3 : 5, xr = r[k] == 0 ? 2 : r[k] == 1 ? 3 : 5; e += r[k] == i ? v[k] * xc : 0; f += c[k] == i ? v[k] * xr : 0; g += c[k] == i ? v[k] * v[k] : 0; } vp_check_eq(y[i], e, "A x"); vp_check_eq(z[i], f, "A' x"); vp_check_eq(n[i], g, "norm"); }
}
// Symmetric storage: only the named triangle counts, whatever the other half of a diagonal block holds.
// @run symmetric jobs=8
extern "C" void symmetric() {
  bool up = vp_choose("upper", 2); int m = vp_choose("pattern", 64); std::vector<int> b = {2, 1, 2}; std::vector<int> rr, cc; Matrix D = Matrix::Zero(5, 5); int k = 0, pr = 0; Matrix W = Matrix::Zero(5, 5), has = W;
  for (int i = 0; i < 3; pr += b[i++]) { int pc = 0; for (int j = 0; j < 3; pc += b[j++]) if (up ? j >= i : j <= i) if (m >> k++ & 1) for (int p = 0; p < b[i]; ++p) for (int q = 0; q < b[j]; ++q) { int R = pr + p, Q = pc + q; has(R, Q) = 1; W(R, Q) = vp_real_in("a", -1e3, 1e3); if (up ? Q >= R : Q <= R) D(R, Q) = D(Q, R) = W(R, Q); } }
  int nnz = has.sum(); Crs A(5, 5, nnz); A.mutable_rows()[0] = 0; int n = 0; for (int i = 0; i < 5; ++i) { for (int j = 0; j < 5; ++j) if (has(i, j) != 0) { A.mutable_cols()[n] = j; A.mutable_values()[n++] = W(i, j); } A.mutable_rows()[i + 1] = n; } A.set_storage_type(up ? ST::UPPER_TRIANGULAR : ST::LOWER_TRIANGULAR); auto x = vec(5, "x"), y = vec(5, "y"), r = y, l = y, pr2 = y; A.RightMultiplyAndAccumulate(x.data(), r.data()); A.LeftMultiplyAndAccumulate(x.data(), l.data()); ContextImpl ctx; A.RightMultiplyAndAccumulate(x.data(), pr2.data(), &ctx, 2); same(r, right(D, x, y), "A x"); same(l, right(D, x, y), "A' x"); same(pr2, right(D, x, y), "A x with threads"); double s[5]; A.SquaredColumnNorm(s); for (int j = 0; j < 5; ++j) { double e = 0; for (int i = 0; i < 5; ++i) e += D(i, j) * D(i, j); vp_check_eq(s[j], e, "squared column norm"); } auto T = A.Transpose(); vp_check(T->storage_type() == (up ? ST::LOWER_TRIANGULAR : ST::UPPER_TRIANGULAR), "transposed storage"); ordered(*T); same(dense(*T), W.transpose(), "transpose");
}
// @run scalarrows jobs=8
extern "C" void scalarrows() {
  BlockSparseMatrix a(structure({2, 1, 1}, {1, 2}, vp_choose("a", 64))), b(structure({1, 2}, {1, 2}, vp_choose("b", 4) * 5 + vp_choose("c", 2))); fill(a, "a"); fill(b, "b"); auto A = a.ToCompressedRowSparseMatrix(), B = b.ToCompressedRowSparseMatrix(); bool blocks = vp_choose("blocks", 2); if (!blocks) { A->mutable_row_blocks()->clear(); A->mutable_col_blocks()->clear(); B->mutable_row_blocks()->clear(); } int d = vp_choose("delete", blocks ? 3 : 4); static const int cut[] = {0, 1, 2, 4}; A->DeleteRows(cut[d]); vp_check(A->num_rows() == 4 - cut[d], "rows left"); if (blocks) vp_check((int)A->row_blocks().size() == 3 - d, "row blocks left"); Matrix D = sp::dense(a).topRows(4 - cut[d]); same(dense(*A), D, "deleted"); A->AppendRows(*B); Matrix E(D.rows() + 3, 3); E << D, sp::dense(b); ordered(*A); same(dense(*A), E, "appended"); if (blocks) vp_check((int)A->row_blocks().size() == 5 - d, "row blocks"); acts(*A, E);
}
// Threads: every schedule computes the serial result.
static void par(int op, int nt) {
  static const int P[] = {0x1ff, 0x155, 0x0cb}; int p = vp_choose("pattern", op < 4 ? 3 : 2); ContextImpl ctx; ctx.EnsureMinimumThreads(nt); BlockSparseMatrix A(structure(R, C, P[p])); fill(A); if (vp_choose("transpose", 2)) A.AddTransposeBlockStructure(); Matrix D = sp::dense(A); auto x = vec(4, "x"), y = vec(6, "y");
  if (op == 0) { auto r = y; A.RightMultiplyAndAccumulate(x.data(), r.data(), &ctx, nt); same(r, right(D, x, y), "A x"); } if (op == 1) { auto r = x; A.LeftMultiplyAndAccumulate(y.data(), r.data(), &ctx, nt); same(r, left(D, y, x), "A' x"); } if (op == 2) { std::vector<double> s(4, 3.0); A.SquaredColumnNorm(s.data(), &ctx, nt); for (int j = 0; j < 4; ++j) { double e = 0; for (int i = 0; i < 6; ++i) e += D(i, j) * D(i, j); vp_check_eq(s[j], e, "norm"); } } if (op == 3) { A.ScaleColumns(x.data(), &ctx, nt); for (int j = 0; j < 4; ++j) D.col(j) *= x[j]; same(sp::dense(A), D, "scaled"); } if (op == 4) { A.SetZero(&ctx, nt); same(sp::dense(A), Matrix::Zero(6, 4), "cleared"); } if (op == 5) { auto c = A.ToCompressedRowSparseMatrix(); auto r = y; c->RightMultiplyAndAccumulate(x.data(), r.data(), &ctx, nt); same(r, right(D, x, y), "A x"); }
}
// @run threads jobs=8
extern "C" void threads() { vp_opt("preempt", 1); par(vp_choose("op", 6), 2); }
// @run threads2 jobs=8 tier=thorough time=600 max-paths=2000000
extern "C" void threads2() { par(vp_choose("op", 6), 2); }
// @run threads3 jobs=8 tier=thorough time=600 max-paths=2000000
extern "C" void threads3() { vp_opt("preempt", 1); par(vp_choose("op", 6), 3); }
// @run dynamic
extern "C" void dynamic() {
  DynamicCompressedRowSparseMatrix A(3, 3, 8); Matrix D = Matrix::Zero(3, 3); for (int k = 0; k < 4; ++k) { int r = k * 2 % 3, c = (k + vp_choose("c", 2)) % 3; double v = vp_real_in("v", 1, 2); if (D(r, c) == 0) { A.InsertEntry(r, c, v); D(r, c) = v; } } if (vp_choose("clear", 2)) { A.ClearRows(1, 2); D.row(1).setZero(); D.row(2).setZero(); } A.Finalize(vp_choose("extra", 3)); same(dense(A), D, "finalized"); acts(A, D); DynamicCompressedRowSparseMatrix B(2, 2, 0); B.Finalize(0); same(dense(B), Matrix::Zero(2, 2), "empty");
}
