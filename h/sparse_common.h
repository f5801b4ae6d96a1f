// Block sparse matrices of every sparsity pattern with arbitrary values, and their dense images.
#pragma once
#include "vp.h"
#include <memory>
#include <vector>
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/internal/eigen.h"
namespace sp {
using namespace ceres; using namespace ceres::internal;
// eliminate > 0 stores the cells of the first column blocks ahead of all others, as the Jacobian writer does
inline CompressedRowBlockStructure* structure(const std::vector<int>& rows, const std::vector<int>& cols, const std::vector<int>& rowMask, int eliminate = 0) {
  auto* s = new CompressedRowBlockStructure; int p = 0; for (int c : cols) { s->cols.emplace_back(c, p); p += c; }
  p = 0; for (int r : rows) { s->rows.emplace_back(); s->rows.back().block = Block(r, p); p += r; }
  int v = 0; for (int pass = 0; pass < 2; ++pass) for (size_t r = 0; r < rows.size(); ++r) for (size_t c = 0; c < cols.size(); ++c) if ((rowMask[r] >> c & 1) && ((int)c < eliminate) == (pass == 0)) { s->rows[r].cells.emplace_back((int)c, v); v += rows[r] * cols[c]; }
  return s;
}
inline CompressedRowBlockStructure* structure(const std::vector<int>& rows, const std::vector<int>& cols, int mask, int eliminate = 0) { std::vector<int> m; for (size_t r = 0; r < rows.size(); ++r) m.push_back(mask >> (r * cols.size()) & ((1 << cols.size()) - 1)); return structure(rows, cols, m, eliminate); }
inline void fill(BlockSparseMatrix& A, const char* name = "a", double lo = -1e3, double hi = 1e3) { for (int i = 0; i < A.num_nonzeros(); ++i) A.mutable_values()[i] = vp_real_in(name, lo, hi); }
inline Matrix dense(const BlockSparseMatrix& A) {  // independent of the class's own conversions
  Matrix D = Matrix::Zero(A.num_rows(), A.num_cols()); const auto* s = A.block_structure();
  for (const auto& r : s->rows) for (const auto& c : r.cells) for (int i = 0; i < r.block.size; ++i) for (int j = 0; j < s->cols[c.block_id].size; ++j) D(r.block.position + i, s->cols[c.block_id].position + j) = A.values()[c.position + i * s->cols[c.block_id].size + j];
  return D;
}
inline std::vector<double> vec(int n, const char* name, double lo = -1e3, double hi = 1e3) { std::vector<double> v(n); for (double& x : v) x = vp_real_in(name, lo, hi); return v; }
inline void same(const Matrix& A, const Matrix& B, const char* id) { vp_check(A.rows() == B.rows() && A.cols() == B.cols(), id); for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) vp_check_eq(A(i, j), B(i, j), id); }
// y += D x, y += D' x, written out
inline std::vector<double> right(const Matrix& D, const std::vector<double>& x, std::vector<double> y) { for (int i = 0; i < D.rows(); ++i) for (int j = 0; j < D.cols(); ++j) y[i] += D(i, j) * x[j]; return y; }
inline std::vector<double> left(const Matrix& D, const std::vector<double>& x, std::vector<double> y) { for (int i = 0; i < D.rows(); ++i) for (int j = 0; j < D.cols(); ++j) y[j] += D(i, j) * x[i]; return y; }
inline void same(const std::vector<double>& a, const std::vector<double>& b, const char* id) { for (size_t i = 0; i < a.size(); ++i) vp_check_eq(a[i], b[i], id); }
}
