// Linear solvers: every one returns the minimiser of |Ax - b|^2 + |Dx|^2.
#include "schur_common.h"
#include <cmath>
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/conjugate_gradients_solver.h"
#include "ceres/dense_cholesky.h"
#include "ceres/dense_qr.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/iterative_refiner.h"
#include "ceres/linear_solver.h"
#include "ceres/sparse_cholesky.h"
// @bound dense: four 3x2 matrices with columns of rational length; sparse: two row blocks over three column blocks, ten sparsity patterns (all 63 thorough); Schur: two eliminated blocks of sizes 1 and 2 with zero to two others, eight patterns; concrete matrix entries and weights, symbolic right hand sides (concrete for two dimensional conjugate gradients), two solves in a row with changed values; exact real arithmetic
using namespace sp;
static LinearSolver::Options opts(ContextImpl* c, LinearSolverType t) { LinearSolver::Options o; o.context = c; o.type = t; o.num_threads = 1; o.dense_linear_algebra_library_type = EIGEN; o.sparse_linear_algebra_library_type = EIGEN_SPARSE; return o; }
static void normal(const Matrix& J, const std::vector<double>& b, const double* D, const double* x, const char* id) { for (int j = 0; j < J.cols(); ++j) { double v = D ? D[j] * D[j] * x[j] : 0; for (int i = 0; i < J.rows(); ++i) { double r = -b[i]; for (int k = 0; k < J.cols(); ++k) r += J(i, k) * x[k]; v += J(i, j) * r; } vp_check_eq(v, 0, id); } }
// columns whose remainders have rational lengths, so that orthogonal factors stay rational
static Matrix pythagorean(int k, double* D) { Matrix J(3, 2); D[0] = D[1] = 0; switch (k) { case 0: J << 3, 0.6, 4, 5.8, 0, 4; break; case 1: J << 2, 1, 1, -2, 0, 0; D[0] = 2; D[1] = 2; break; case 2: J << 2, 1, 1, 1, 0, 0; D[0] = 2; D[1] = 0.75; break; default: J << 0, 3, 2, 1, 0, 4; } return J; }
// @run dense jobs=8 time=300
extern "C" void dense() { int k = vp_choose("matrix", 4), qr = vp_choose("qr", 2), refine = qr ? 0 : vp_choose("refine", 3), mixed = qr ? 0 : vp_choose("mixed", 2); ContextImpl ctx; auto o = opts(&ctx, qr ? DENSE_QR : DENSE_NORMAL_CHOLESKY); o.max_num_refinement_iterations = refine; o.use_mixed_precision_solves = mixed; auto S = LinearSolver::Create(o); for (int rep = 0; rep < 2; ++rep) { double D[2]; Matrix J = pythagorean((k + rep) % 4, D); bool d = D[0] != 0; ColMajorMatrix C = J; DenseSparseMatrix A(C); auto b = vec(3, "b", -10, 10), b0 = b; double x[3] = {9, 9, 9}; LinearSolver::PerSolveOptions po; po.D = d ? D : nullptr; auto s = S->Solve(&A, b.data(), po, x); vp_check(s.termination_type == LinearSolverTerminationType::SUCCESS && s.num_iterations == 1, "solved"); normal(J, b0, po.D, x, "normal equations"); vp_check(x[2] == 9, "bounds"); for (int i = 0; i < 3; ++i) { vp_check_eq(b[i], b0[i], "right hand side untouched"); for (int j = 0; j < 2; ++j) vp_check_eq(A.matrix()(i, j), J(i, j), "matrix untouched"); } } }

static std::vector<double> solve(const char* type, LinearSolver* S, LinearOperator* A, const Matrix& J, const double* D, const std::vector<double>& b0, LinearSolverTerminationType want = LinearSolverTerminationType::SUCCESS, double q = 0, double r = 0) { int n = J.cols(); std::vector<double> b = b0, x(n + 1, 9.0); LinearSolver::PerSolveOptions po; po.D = const_cast<double*>(D); po.q_tolerance = q; po.r_tolerance = r; auto s = S->Solve(A, b.data(), po, x.data()); vp_check(s.termination_type == want, type); vp_check(x[n] == 9, "bounds"); same(b, b0, "right hand side untouched"); return x; }
static bool fullRank(const Matrix& J, const double* D) { Matrix N = J.transpose() * J; for (int i = 0; i < N.rows(); ++i) if (D) N(i, i) += D[i] * D[i]; for (int i = 0; i < N.rows(); ++i) { if (N(i, i) <= 1e-9) return false; for (int k = i + 1; k < N.rows(); ++k) { double f = N(k, i) / N(i, i); for (int j = i; j < N.cols(); ++j) N(k, j) -= f * N(i, j); } } return true; }
static void sparse(bool all) { static const int P[] = {63, 1, 10, 21, 28, 33, 42, 51, 39, 60}; int dynamic = vp_choose("dynamic", 2), amd = dynamic ? 1 : vp_choose("amd", 2), refine = dynamic ? 0 : vp_choose("refine", 2), mixed = dynamic ? 0 : vp_choose("mixed", 2), withD = vp_choose("D", 2), mask = all ? 1 + vp_choose("pattern", 63) : P[vp_choose("pattern", 10)], shape = vp_choose("shape", 2); ContextImpl ctx; auto o = opts(&ctx, SPARSE_NORMAL_CHOLESKY); o.dynamic_sparsity = dynamic; o.ordering_type = amd ? OrderingType::AMD : OrderingType::NATURAL; o.max_num_refinement_iterations = refine; o.use_mixed_precision_solves = mixed; auto S = LinearSolver::Create(o);
  std::vector<int> rows = shape ? std::vector<int>{1, 2} : std::vector<int>{2, 1}, cols = shape ? std::vector<int>{1, 1, 1} : std::vector<int>{1, 2, 1}; BlockSparseMatrix A(structure(rows, cols, mask)); std::vector<double> D; for (int rep = 0; rep < 2; ++rep) { D.clear(); for (int i = 0; i < A.num_cols(); ++i) D.push_back(1 + 0.5 * ((i + rep) % 3)); for (int i = 0; i < A.num_nonzeros(); ++i) A.mutable_values()[i] = ((i * 7 + (rep + 3) * (i + 2)) % 11 - 4) * 0.5; Matrix J = dense(A); const double* d = withD ? D.data() : nullptr; if (!fullRank(J, d)) return; auto b = vec(A.num_rows(), "b", -10, 10); std::vector<double> x;
    if (dynamic) { auto C = A.ToCompressedRowSparseMatrix(); x = solve("solved", S.get(), C.get(), J, d, b); vp_check(C->num_rows() == A.num_rows() && C->num_nonzeros() == A.num_nonzeros(), "matrix restored"); Matrix K; C->ToDenseMatrix(&K); same(K, J, "matrix restored"); } else { x = solve("solved", S.get(), &A, J, d, b); vp_check(A.num_rows() == J.rows() && (int)A.block_structure()->rows.size() == (int)rows.size(), "matrix restored"); same(dense(A), J, "matrix restored"); } normal(J, b, d, x.data(), "normal equations"); } }

// @run sparse_some jobs=8 time=300
extern "C" void sparse_some() { sparse(false); }
// @run sparse_all jobs=8 tier=thorough time=600
extern "C" void sparse_all() { sparse(true); }
// every kind of Schur solver on a system with eliminated blocks of sizes 1 and 2 and two further blocks; no block need be used by more than one row
static void schurs(int kind, int fdims, bool all = false) { static const int P[] = {0x1b, 0xff, 0x00, 0xe4, 0x39, 0x93, 0x4e, 0x2d}; int withD = vp_choose("D", 2), e1 = vp_choose("e1", 2), p = all ? vp_choose("pattern", 256) : P[vp_choose("pattern", 8)], f0 = p & 3, f1 = p >> 2 & 3, f2 = p >> 4 & 3, f3 = p >> 6; ContextImpl ctx; auto o = opts(&ctx, kind == 0 ? DENSE_SCHUR : kind == 1 ? SPARSE_SCHUR : ITERATIVE_SCHUR); if (kind < 2 && vp_choose("refine", 2)) { o.max_num_refinement_iterations = 1; o.use_mixed_precision_solves = vp_choose("mixed", 2); } int zero = fdims == 0; o.elimination_groups = {2, zero ? 1 : 2}; o.use_explicit_schur_complement = kind == 2; o.preconditioner_type = kind == 2 || kind == 5 ? SCHUR_JACOBI : kind == 3 ? IDENTITY : kind == 4 ? JACOBI : SCHUR_POWER_SERIES_EXPANSION; if (kind >= 3) { o.use_spse_initialization = vp_choose("initialise", 2); o.max_num_spse_iterations = 2; } o.min_num_iterations = kind >= 2 ? vp_choose("min", 2) : 1; o.max_num_iterations = 4; o.residual_reset_period = kind >= 2 ? 1 + vp_choose("reset", 2) : 10; auto S = LinearSolver::Create(o);
  std::vector<int> cols = zero ? std::vector<int>{1, 2} : fdims == 1 ? std::vector<int>{1, 2, 1} : std::vector<int>{1, 2, 1, 1}; int fm = zero ? 0 : fdims == 1 ? 1 : 3, always = zero ? 0 : 1; std::vector<int> rows{2, 2, 1}, e{0, 1, zero ? 1 : e1 ? 1 : -1}, f{f0 & fm, f1 & fm, e1 ? f2 & fm : (f2 & fm) | always}; if (!zero) rows.push_back(1), e.push_back(-1), f.push_back((f3 & fm) | 1);
  Sys s(rows, cols, 2, e, f, withD, 2, -10, 10, 3); if (kind >= 3) s.A->AddTransposeBlockStructure(); for (int rep = 0; rep < 2; ++rep) { for (int i = 0; i < s.A->num_nonzeros(); ++i) s.A->mutable_values()[i] = ((i * 7 + (rep + 3) * (i + 2)) % 11 - 4) * 0.5; for (size_t i = 0; i < s.D.size(); ++i) s.D[i] = 1 + 0.5 * ((i + rep) % 3); s.J = dense(*s.A); if (!fullRank(s.J, s.d())) return; s.b = vec(s.A->num_rows(), "b", -10, 10); if (kind == 0 && !zero) for (int i = 1; i < 5; ++i) s.b[i] = i - rep * 2.5; if (kind >= 2 && fdims == 2) s.b = {1, -2, 0.5, 3, -1, 2}; auto x = solve("solved", S.get(), s.A.get(), s.J, s.d(), s.b, LinearSolverTerminationType::SUCCESS, 0, kind >= 2 && fdims == 2 ? 1e-9 : 0); normal(s.J, s.b, s.d(), x.data(), "normal equations"); same(dense(*s.A), s.J, "matrix untouched"); } }
// @run schur_dense jobs=8 time=300
extern "C" void schur_dense() { schurs(0, 2); }
// @run schur_sparse jobs=8 time=300
extern "C" void schur_sparse() { schurs(1, 2); }
// @run schur_explicit jobs=8 time=300
extern "C" void schur_explicit() { schurs(2, 1); }
// @run schur_identity jobs=8 time=300
extern "C" void schur_identity() { schurs(3, 1); }
// @run schur_none jobs=8 time=300
extern "C" void schur_none() { schurs(vp_choose("kind", 7), 0); }
// @run schur_jacobi jobs=8 time=300
extern "C" void schur_jacobi() { schurs(4, 1); }
// @run schur_diagonal jobs=8 time=300
extern "C" void schur_diagonal() { schurs(5, 1); }
// @run schur_series jobs=8 time=300
extern "C" void schur_series() { schurs(6, 1); }
// @run schur_explicit2 jobs=8 time=300
extern "C" void schur_explicit2() { schurs(2, 2); }
// @run schur_implicit2 jobs=8 time=300
extern "C" void schur_implicit2() { schurs(3 + vp_choose("kind", 3), 2); }
// whatever reduced solution an iterative solver stops at, the eliminated unknowns are the best ones for it
// @run truncated jobs=8
extern "C" void truncated() { int kind = vp_choose("kind", 5); ContextImpl ctx; auto o = opts(&ctx, ITERATIVE_SCHUR); o.elimination_groups = {2, 2}; o.use_explicit_schur_complement = kind == 0; o.preconditioner_type = kind == 0 || kind == 3 ? SCHUR_JACOBI : kind == 1 ? IDENTITY : kind == 2 ? JACOBI : SCHUR_POWER_SERIES_EXPANSION; o.min_num_iterations = vp_choose("min", 2); o.max_num_iterations = 1; o.max_num_spse_iterations = 2; o.residual_reset_period = 1 + vp_choose("reset", 2); auto S = LinearSolver::Create(o); int e1 = vp_choose("e1", 2); Sys s({2, 2, 1, 1}, {1, 2, 1, 1}, 2, {0, 1, e1 ? 1 : -1, -1}, {3, 1, 2, 3}, vp_choose("D", 2), 2, -10, 10, 3); if (!fullRank(s.J, s.d())) return; if (kind) s.A->AddTransposeBlockStructure(); s.b = {1, -2, 0.5, 3, -1, 2}; std::vector<double> b = s.b, x(6, 9.0); LinearSolver::PerSolveOptions po; po.D = const_cast<double*>(s.d()); po.q_tolerance = po.r_tolerance = 0; auto r = S->Solve(s.A.get(), b.data(), po, x.data()); vp_check(r.num_iterations <= 1, "iterations"); vp_check(x[5] == 9, "bounds"); vp_assume(r.termination_type == LinearSolverTerminationType::NO_CONVERGENCE); std::vector<double> z{x[3], x[4]}; s.backsub(z, x, "eliminated unknowns fit"); }
struct Op : ConjugateGradientsLinearOperator<Vector> { Matrix M; int calls = 0; Op(double a, double b, double c) : M(2, 2) { M << a, b, b, c; } void RightMultiplyAndAccumulate(const Vector& x, Vector& y) override { ++calls; for (int i = 0; i < 2; ++i) y[i] += M(i, 0) * x[0] + M(i, 1) * x[1]; } };
static double quad(const Matrix& A, const Vector& b, const Vector& x) { double q = 0; for (int i = 0; i < 2; ++i) { q -= 2 * b[i] * x[i]; for (int j = 0; j < 2; ++j) q += x[i] * A(i, j) * x[j]; } return q; }
static double res2(const Matrix& A, const Vector& b, const Vector& x) { double s = 0; for (int i = 0; i < 2; ++i) { double r = b[i] - A(i, 0) * x[0] - A(i, 1) * x[1]; s += r * r; } return s; }
// conjugate gradients: what each termination claims is true
// @run gradients jobs=8 time=300
extern "C" void gradients() { int k = vp_choose("matrix", 4), m = vp_choose("preconditioner", 3), start = vp_choose("start", 2), tol = vp_choose("tolerance", 3); static const double K[][3] = {{2, 1, 3}, {2, 0, 2}, {1, 2, 1}, {1, 1, 1}}; Op A(K[k][0], K[k][1], K[k][2]), P(m == 2 ? 0 : m ? 0.5 : 1, 0, m == 2 ? 0 : m ? 0.25 : 1); ConjugateGradientsSolverOptions o; ContextImpl ctx; o.context = &ctx; o.min_num_iterations = vp_choose("min", 3); o.max_num_iterations = 1 + vp_choose("max", 3); o.residual_reset_period = 1 + vp_choose("reset", 2); if (tol == 1) o.r_tolerance = 0.5; if (tol == 2) o.q_tolerance = 0.25; Vector b(2), x(2), sc[4]; Vector* scratch[4]; for (int i = 0; i < 4; ++i) { sc[i] = Vector::Constant(2, 7.0); scratch[i] = &sc[i]; } b << vp_real_in("b", -2, 2), vp_choose("b1", 2); x << start, 0; Vector x0 = x; auto s = ConjugateGradientsSolver<Vector>(o, A, b, P, scratch, x);
  bool pd = k < 2; double bb = b[0] * b[0] + b[1] * b[1]; vp_check(s.num_iterations >= 0 && s.num_iterations <= o.max_num_iterations, "iteration limit"); if (bb == 0) { vp_check(s.termination_type == LinearSolverTerminationType::SUCCESS && x[0] == 0 && x[1] == 0, "zero right hand side"); return; } double rr = res2(A.M, b, x); if (m == 2) { if (s.termination_type == LinearSolverTerminationType::SUCCESS) vp_check(rr <= o.r_tolerance * o.r_tolerance * bb + 1e-18, "a useless preconditioner is an error"); else vp_check(s.termination_type == LinearSolverTerminationType::FAILURE, "a useless preconditioner is an error"); return; }
  if (s.termination_type == LinearSolverTerminationType::SUCCESS) { bool early = s.num_iterations < o.min_num_iterations; if (early) vp_check(rr <= 1e-18, "enough iterations unless solved"); bool ok = rr <= o.r_tolerance * o.r_tolerance * bb + 1e-18; if (!ok && s.num_iterations > 0) { Vector y = x0; if (s.num_iterations > 1) { auto p = o; p.max_num_iterations = s.num_iterations - 1; p.min_num_iterations = 9; p.r_tolerance = p.q_tolerance = 0; ConjugateGradientsSolver<Vector>(p, A, b, P, scratch, y); } double q1 = quad(A.M, b, x), q0 = quad(A.M, b, y), p0 = quad(A.M, b, x0); vp_assume(std::fabs(q1) > 1e-6 && std::fabs(p0) > (start ? 1e-6 : -1)); ok = s.num_iterations * (q1 - q0) / q1 < o.q_tolerance; if (o.q_tolerance == 0) ok = ok && quad(A.M, b, x0) > 0; } vp_check(ok, "success means converged"); }
  else if (pd) { vp_check(s.termination_type == LinearSolverTerminationType::NO_CONVERGENCE && s.num_iterations == o.max_num_iterations, "definite systems only run out of iterations"); vp_check(rr > o.r_tolerance * o.r_tolerance * bb - 1e-18 || s.num_iterations < o.min_num_iterations, "a solved system is a success"); }
  if (pd) { vp_check(quad(A.M, b, x) <= quad(A.M, b, x0) + 1e-12, "the model decreases"); if (s.num_iterations >= 2) { vp_check_eq(A.M(0, 0) * x[0] + A.M(0, 1) * x[1], b[0], "n iterations solve"); vp_check_eq(A.M(1, 0) * x[0] + A.M(1, 1) * x[1], b[1], "n iterations solve"); } } }
// conjugate gradients on the normal equations
// @run cgnr jobs=8
extern "C" void cgnr() { int pre = vp_choose("preconditioner", 3), withD = vp_choose("D", 2), mask = vp_choose("pattern", 64); ContextImpl ctx; auto o = opts(&ctx, CGNR); o.preconditioner_type = pre == 0 ? IDENTITY : pre == 1 ? JACOBI : SUBSET; o.subset_preconditioner_start_row_block = pre == 2 ? 1 : -1; o.min_num_iterations = vp_choose("min", 2); o.max_num_iterations = 5; o.residual_reset_period = 1 + vp_choose("reset", 2); auto S = LinearSolver::Create(o); BlockSparseMatrix A(structure({1, 2, 1}, {1, 1}, mask)); vp_assume(A.num_nonzeros() > 0); std::vector<double> D; for (int rep = 0; rep < 2; ++rep) { D = {1 + 0.5 * rep, 2.0 - rep}; for (int i = 0; i < A.num_nonzeros(); ++i) A.mutable_values()[i] = ((i * 7 + (rep + 3) * (i + 2)) % 11 - 4) * 0.5; Matrix J = dense(A); const double* d = withD ? D.data() : nullptr; if (!fullRank(J, d)) return; if (pre == 2) { Matrix T = J.bottomRows(3); if (!fullRank(T, d)) return; } std::vector<double> b{1, -2, 0.5, 3.0 - 5 * rep}; auto x = solve("solved", S.get(), &A, J, d, b, LinearSolverTerminationType::SUCCESS, 0, 1e-9); normal(J, b, d, x.data(), "normal equations"); same(dense(A), J, "matrix untouched"); } }
// the Cholesky based solvers fail exactly on the systems that are not positive definite, and recover afterwards
// @run deficient jobs=8
extern "C" void deficient() { int kind = vp_choose("kind", 4), row = vp_choose("row", 3), refine = kind == 2 ? 0 : vp_choose("refine", 2), mixed = kind == 2 ? 0 : vp_choose("mixed", 2); ContextImpl ctx; auto o = opts(&ctx, kind == 0 ? DENSE_NORMAL_CHOLESKY : kind == 3 ? DENSE_SCHUR : SPARSE_NORMAL_CHOLESKY); o.elimination_groups = {1, 2}; o.dynamic_sparsity = kind == 2; o.max_num_refinement_iterations = refine; o.use_mixed_precision_solves = mixed; auto S = LinearSolver::Create(o); for (int rep = 0; rep < 2; ++rep) { double a = rep ? 5 : vp_real_in("a", -4, 4); std::vector<double> b{1, vp_real_in("b", -3, 3), 2}; Matrix J(3, 3); J.setZero(); J(2, 0) = 1; J(0, 1) = 1; J(0, 2) = a; J(1, 1) = row == 2 ? 0 : 2; J(1, 2) = row ? row - 1 : 4; bool singular = J(0, 1) * J(1, 2) == J(0, 2) * J(1, 1); std::vector<double> x(3, 9.0); LinearSolver::PerSolveOptions po; LinearSolver::Summary s; ColMajorMatrix C = J; DenseSparseMatrix Dn(C); BlockSparseMatrix B(structure({1, 1, 1}, {1, 1, 1}, kind == 3 ? std::vector<int>{1, 6, 6} : std::vector<int>{6, 6, 1})); double* v = B.mutable_values(); std::vector<double> bb = b; if (kind == 3) { double w[] = {1, J(0, 1), J(0, 2), J(1, 1), J(1, 2)}; std::copy(w, w + 5, v); bb = {b[2], b[0], b[1]}; } else { double w[] = {J(0, 1), J(0, 2), J(1, 1), J(1, 2), 1}; std::copy(w, w + 5, v); } auto R = B.ToCompressedRowSparseMatrix(); s = S->Solve(kind == 0 ? (LinearOperator*)&Dn : kind == 2 ? (LinearOperator*)R.get() : &B, bb.data(), po, x.data()); if (singular) { vp_check(s.termination_type == LinearSolverTerminationType::FAILURE, "singular systems fail"); vp_check(!s.message.empty() && s.message != "Success.", "failures explain themselves"); } else { vp_check(s.termination_type == LinearSolverTerminationType::SUCCESS, "regular systems do not fail"); normal(J, b, nullptr, x.data(), "normal equations"); } } }
// @run types jobs=2
extern "C" void types() { LinearSolverType t = (LinearSolverType)vp_choose("type", 7); auto z = LinearSolver::LinearSolverForZeroEBlocks(t); vp_check(!IsSchurType(z), "no elimination without blocks to eliminate"); if (!IsSchurType(t)) vp_check(z == t, "others unchanged"); else vp_check(z == (t == SPARSE_SCHUR ? SPARSE_NORMAL_CHOLESKY : t == DENSE_SCHUR ? DENSE_QR : CGNR), "same kind of algebra"); }
