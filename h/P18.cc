// Small dense kernels compute the products they name, and write nothing else.
#include "vp.h"
#include <vector>
#include <cmath>
#include "ceres/small_blas.h"
#include "ceres/invert_psd_matrix.h"
#include "ceres/eigen_vector_ops.h"
#include "ceres/internal/householder_vector.h"
// @bound all real values; dynamic sizes up to 6x6 by 6x9 (every remainder of the unrolled loops), fixed sizes 1 to 6 in combinations used by the library's specializations; add, subtract and assign; destination blocks anywhere in a larger matrix; inverses of positive definite matrices up to 3x3 given by an arbitrary Cholesky factor; the singular value path of the pseudo-inverse is outside
using namespace ceres::internal; using namespace ceres;
static std::vector<double> any(int n, const char* name) { std::vector<double> v(n); for (double& x : v) x = vp_real(name); return v; }
template <int RA, int CA, int RB, int CB, int OP> static void mm(int ra, int ca, int cb, bool naive = false) {
  int sr = vp_choose("start_row", 2), sc = vp_choose("start_col", 2), er = vp_choose("extra", 2), H = ra + sr + er, W = cb + sc + er; auto A = any(ra * ca, "A"), B = any(ca * cb, "B"), C = any(H * W, "C"), D = C; for (int i = 0; i < ra; ++i) for (int j = 0; j < cb; ++j) { double s = 0; for (int k = 0; k < ca; ++k) s += A[i * ca + k] * B[k * cb + j]; double& d = D[(i + sr) * W + j + sc]; d = OP > 0 ? d + s : OP < 0 ? d - s : s; }
  if (naive) MatrixMatrixMultiplyNaive<RA, CA, RB, CB, OP>(A.data(), ra, ca, B.data(), ca, cb, C.data(), sr, sc, H, W); else MatrixMatrixMultiply<RA, CA, RB, CB, OP>(A.data(), ra, ca, B.data(), ca, cb, C.data(), sr, sc, H, W); for (int i = 0; i < H * W; ++i) vp_check_eq(C[i], D[i], "matrix product");
}
template <int RA, int CA, int RB, int CB, int OP> static void mtm(int ra, int ca, int cb, bool naive = false) {
  int sr = vp_choose("start_row", 2), sc = vp_choose("start_col", 2), er = vp_choose("extra", 2), H = ca + sr + er, W = cb + sc + er; auto A = any(ra * ca, "A"), B = any(ra * cb, "B"), C = any(H * W, "C"), D = C; for (int i = 0; i < ca; ++i) for (int j = 0; j < cb; ++j) { double s = 0; for (int k = 0; k < ra; ++k) s += A[k * ca + i] * B[k * cb + j]; double& d = D[(i + sr) * W + j + sc]; d = OP > 0 ? d + s : OP < 0 ? d - s : s; }
  if (naive) MatrixTransposeMatrixMultiplyNaive<RA, CA, RB, CB, OP>(A.data(), ra, ca, B.data(), ra, cb, C.data(), sr, sc, H, W); else MatrixTransposeMatrixMultiply<RA, CA, RB, CB, OP>(A.data(), ra, ca, B.data(), ra, cb, C.data(), sr, sc, H, W); for (int i = 0; i < H * W; ++i) vp_check_eq(C[i], D[i], "transposed product");
}
template <int R, int C, int OP> static void mv(int r, int c) {
  auto A = any(r * c, "A"), b = any(c, "b"), y = any(r, "c"), z = y, t = any(r, "t"), u = any(c, "u"), w = u; for (int i = 0; i < r; ++i) { double s = 0; for (int j = 0; j < c; ++j) s += A[i * c + j] * b[j]; z[i] = OP > 0 ? z[i] + s : OP < 0 ? z[i] - s : s; } for (int j = 0; j < c; ++j) { double s = 0; for (int i = 0; i < r; ++i) s += A[i * c + j] * t[i]; w[j] = OP > 0 ? w[j] + s : OP < 0 ? w[j] - s : s; }
  MatrixVectorMultiply<R, C, OP>(A.data(), r, c, b.data(), y.data()); MatrixTransposeVectorMultiply<R, C, OP>(A.data(), r, c, t.data(), u.data()); for (int i = 0; i < r; ++i) vp_check_eq(y[i], z[i], "matrix vector product"); for (int j = 0; j < c; ++j) vp_check_eq(u[j], w[j], "transposed matrix vector product");
}
static const int Y = Eigen::Dynamic;
// @run gemm jobs=8
extern "C" void gemm() { int op = vp_choose("op", 3), ra = 1 + vp_choose("rows", 4), ca = 1 + vp_choose("inner", 6), cb = 1 + vp_choose("cols", 9); if (ra == 4) ra = 5; if (op == 0) mm<Y, Y, Y, Y, 1>(ra, ca, cb); if (op == 1) mm<Y, Y, Y, Y, -1>(ra, ca, cb); if (op == 2) mm<Y, Y, Y, Y, 0>(ra, ca, cb); }
// @run gemmt jobs=8
extern "C" void gemmt() { int op = vp_choose("op", 3), ra = 1 + vp_choose("rows", 6), ca = 1 + vp_choose("inner", 4), cb = 1 + vp_choose("cols", 9); if (ca == 4) ca = 5; if (op == 0) mtm<Y, Y, Y, Y, 1>(ra, ca, cb); if (op == 1) mtm<Y, Y, Y, Y, -1>(ra, ca, cb); if (op == 2) mtm<Y, Y, Y, Y, 0>(ra, ca, cb); }
// @run gemv jobs=8
extern "C" void gemv() { int op = vp_choose("op", 3), r = 1 + vp_choose("rows", 9), c = 1 + vp_choose("cols", 9); if (op == 0) mv<Y, Y, 1>(r, c); if (op == 1) mv<Y, Y, -1>(r, c); if (op == 2) mv<Y, Y, 0>(r, c); }
// @run fixed jobs=8
extern "C" void fixed() {
  switch (vp_choose("kind", 20)) {
    case 0: mm<2, 3, 3, 4, 1>(2, 3, 4); break; case 1: mm<2, 3, 3, 6, -1>(2, 3, 6); break; case 2: mm<3, 3, 3, 3, 0>(3, 3, 3); break; case 3: mm<2, Y, Y, Y, 1>(2, 3, 5); break; case 4: mm<2, 3, 3, Y, -1>(2, 3, 7); break; case 5: mm<Y, 3, 3, 4, 0>(5, 3, 4); break;
    case 6: mtm<2, 3, 2, 4, 1>(2, 3, 4); break; case 7: mtm<2, 3, 2, 9, -1>(2, 3, 9); break; case 8: mtm<4, 4, 4, 2, 0>(4, 4, 2); break; case 9: mtm<2, 3, 2, Y, 1>(2, 3, 6); break; case 10: mtm<2, Y, 2, Y, -1>(2, 4, 5); break; case 11: mtm<Y, 4, Y, 4, 0>(5, 4, 4); break;
    case 12: mv<2, 3, 1>(2, 3); break; case 13: mv<2, 3, -1>(2, 3); break; case 14: mv<4, 4, 0>(4, 4); break; case 15: mv<2, Y, 1>(2, 6); break; case 16: mv<Y, 3, -1>(7, 3); break; case 17: mv<3, 9, 1>(3, 9); break;
    case 18: mm<2, 3, 3, 4, 1>(2, 3, 4, true); mm<3, 1, 1, 6, -1>(3, 1, 6, true); mm<1, 6, 6, 5, 0>(1, 6, 5, true); break; case 19: mtm<2, 3, 2, 4, 1>(2, 3, 4, true); mtm<1, 3, 1, 7, -1>(1, 3, 7, true); mtm<6, 1, 6, 5, 0>(6, 1, 5, true); break; }
}
// Inverse of L L' for every lower triangular L with positive diagonal.
template <int N, int K> static void inv() { Eigen::Matrix<double, N, N> L = Eigen::Matrix<double, N, N>::Zero(); for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) L(i, j) = i == j ? vp_real_in("d", 0.5, 100) : vp_real_in("l", -100, 100); typename EigenTypes<K, K>::Matrix M(N, N), R; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double s = 0; for (int k = 0; k <= (i < j ? i : j); ++k) s += L(i, k) * L(j, k); M(i, j) = s; } R = InvertPSDMatrix<K>(true, M); vp_check(R.rows() == N && R.cols() == N, "size"); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double s = 0; for (int k = 0; k < N; ++k) s += M(i, k) * R(k, j); vp_check_eq(s, i == j, "inverse"); } }
// @run inverse jobs=8
extern "C" void inverse() { switch (vp_choose("size", 6)) { case 0: inv<1, 1>(); break; case 1: inv<2, 2>(); break; case 2: inv<3, 3>(); break; case 3: inv<1, Eigen::Dynamic>(); break; case 4: inv<2, Eigen::Dynamic>(); break; case 5: inv<3, Eigen::Dynamic>(); break; } }
