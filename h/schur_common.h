// Bipartite block sparse systems [E F] with arbitrary values, and their exact Schur complements.
#pragma once
#include "sparse_common.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/context_impl.h"
namespace sp {
struct Sys {
  std::vector<int> rows, cols; int ne, en = 0, fn = 0; std::unique_ptr<BlockSparseMatrix> A; Matrix J; std::vector<double> b, D; bool haveD;
  // e[i]: eliminated block of row i or -1; f[i]: mask of the other blocks
  Sys(std::vector<int> r, std::vector<int> c, int ne, std::vector<int> e, std::vector<int> f, bool withD, int elim, double lo = -10, double hi = 10, int fewSymbols = 0) : rows(r), cols(c), ne(ne), haveD(withD) {
    int nc = c.size(); std::vector<int> mask; for (size_t i = 0; i < r.size(); ++i) { int m = f[i] << ne; if (e[i] >= 0) m |= 1 << e[i]; mask.push_back(m); } for (int i = 0; i < nc; ++i) (i < ne ? en : fn) += c[i]; A.reset(new BlockSparseMatrix(structure(r, c, mask, elim)));
    int k = 0; for (int i = 0; i < A->num_nonzeros(); ++i) A->mutable_values()[i] = fewSymbols >= 3 ? ((i * 7 + fewSymbols * (i + 2)) % 11 - 4) * 0.5 : (fewSymbols == 1 ? i % 3 != 0 : fewSymbols == 2 && i) ? 1 + (i * 7 + k++) % 5 * 0.5 : vp_real_in("a", lo, hi); J = dense(*A); b = vec(A->num_rows(), "b", -10, 10); if (withD) { for (int i = 0; i < en + fn; ++i) D.push_back((fewSymbols == 1 && i) || fewSymbols >= 2 ? 1 + i * 0.25 : vp_real_in("D", 0.5, 5)); }
  }
  const double* d() const { return haveD ? D.data() : nullptr; }
  int pos(int c) const { int p = 0; for (int i = 0; i < c; ++i) p += cols[i]; return p; }
  Matrix ete(int k) const { int p = pos(k), n = cols[k]; Matrix M = Matrix::Zero(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { for (int r = 0; r < J.rows(); ++r) M(i, j) += J(r, p + i) * J(r, p + j); if (i == j && haveD) M(i, j) += D[p + i] * D[p + i]; } return M; }
  static Matrix adjugate(const Matrix& M, double& det) { int n = M.rows(); Matrix R(n, n); if (n == 1) { det = M(0, 0); R(0, 0) = 1; } else if (n == 2) { det = M(0, 0) * M(1, 1) - M(0, 1) * M(1, 0); R(0, 0) = M(1, 1); R(1, 1) = M(0, 0); R(0, 1) = -M(0, 1); R(1, 0) = -M(1, 0); } else { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int a = (i + 1) % 3, b = (i + 2) % 3, c = (j + 1) % 3, d = (j + 2) % 3; R(j, i) = M(a, c) * M(b, d) - M(a, d) * M(b, c); } det = M(0, 0) * R(0, 0) + M(0, 1) * R(1, 0) + M(0, 2) * R(2, 0); } return R; }
  // S = F'F + Df^2 - F'E (E'E + De^2)^-1 E'F and s = F'b - F'E (E'E + De^2)^-1 E'b
  void schur(Matrix& S, std::vector<double>& s) const {
    S = Matrix::Zero(fn, fn); s.assign(fn, 0.0); int R = J.rows(); for (int i = 0; i < fn; ++i) { for (int j = 0; j < fn; ++j) for (int r = 0; r < R; ++r) S(i, j) += J(r, en + i) * J(r, en + j); if (haveD) S(i, i) += D[en + i] * D[en + i]; for (int r = 0; r < R; ++r) s[i] += J(r, en + i) * b[r]; }
    for (int k = 0; k < ne; ++k) { int p = pos(k), n = cols[k]; double det; Matrix adj = adjugate(ete(k), det), G = Matrix::Zero(n, fn); if (!haveD) vp_assume(det >= 0.01); std::vector<double> g(n, 0.0); for (int i = 0; i < n; ++i) for (int r = 0; r < R; ++r) { for (int j = 0; j < fn; ++j) G(i, j) += J(r, p + i) * J(r, en + j); g[i] += J(r, p + i) * b[r]; } for (int i = 0; i < fn; ++i) for (int a = 0; a < n; ++a) for (int c = 0; c < n; ++c) { double w = G(a, i) * adj(a, c) / det; for (int j = 0; j < fn; ++j) S(i, j) -= w * G(c, j); s[i] -= w * g[c]; } }
  }
  // E'E y + De^2 y = E'(b - F z)
  void backsub(const std::vector<double>& z, const std::vector<double>& y, const char* id) const { for (int k = 0; k < ne; ++k) { int p = pos(k), n = cols[k]; Matrix M = ete(k); for (int i = 0; i < n; ++i) { double l = 0, r = 0; for (int j = 0; j < n; ++j) l += M(i, j) * y[p + j]; for (int q = 0; q < J.rows(); ++q) { double v = b[q]; for (int j = 0; j < fn; ++j) v -= J(q, en + j) * z[j]; r += J(q, p + i) * v; } vp_check_eq(l, r, id); } } }
  std::vector<Block> fblocks() const { std::vector<Block> v; int p = 0; for (size_t i = ne; i < cols.size(); ++i) { v.emplace_back(cols[i], p); p += cols[i]; } return v; }
};
}
