// Covariance estimation: blocks of the (pseudo) inverse of J'J, in the tangent or ambient space.
#include "vp.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <utility>
#include <vector>
#include "ceres/covariance.h"
#include "ceres/problem.h"
#include "ceres/cost_function.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/types.h"
#include "ceres/compressed_col_sparse_matrix_utils.h"
// @bound problems of three free parameter blocks (sizes 2, 1, 2; tangent size 1 or 2 for the first) in any order in memory and any order of addition, one constant and one unused block, three residual blocks with arbitrary Jacobians of lower triangular structure; every set of requested pairs of up to three pairs; dense: diagonal and rotated Jacobians of up to three columns with arbitrary singular values
using namespace ceres;
typedef std::vector<std::pair<const double*, const double*>> Pairs;
static double M[16];
struct Lin : CostFunction {  // constant Jacobians, zero pattern included
  std::vector<std::vector<double>> J; std::vector<double> r; bool fail = false; mutable int calls = 0;
  Lin(int nr, std::vector<int> s) { set_num_residuals(nr); for (int v : s) { mutable_parameter_block_sizes()->push_back(v); J.emplace_back(nr * v, 0.0); } r.assign(nr, 0.5); }
  bool Evaluate(double const* const*, double* o, double** Jo) const override { ++calls; for (size_t i = 0; i < r.size(); ++i) o[i] = r[i]; if (Jo) for (size_t k = 0; k < J.size(); ++k) if (Jo[k]) for (size_t i = 0; i < J[k].size(); ++i) Jo[k][i] = J[k][i]; return !fail; }
};
struct Man : Manifold { double P[2]; bool fail = false; mutable int calls = 0; mutable int failAt = 0; Man() { for (double& v : P) v = vp_real_in("P", 0.5, 2); } int AmbientSize() const override { return 2; } int TangentSize() const override { return 1; } bool Plus(const double* x, const double* d, double* o) const override { for (int i = 0; i < 2; ++i) o[i] = x[i] + P[i] * d[0]; return true; } bool PlusJacobian(const double* x, double* j) const override { ++calls; if (calls == failAt) return false; for (int i = 0; i < 2; ++i) j[i] = P[i] * x[0]; return true; } bool Minus(const double*, const double*, double*) const override { return false; } bool MinusJacobian(const double*, double*) const override { return false; } };
static int concrete = 0; static double nz(const char* n) { if (concrete) return 0.5 + 0.5 * (concrete++ % 3); return vp_real_in(n, 0.5, 2); }
struct World {  // residual blocks fbc, fab, fb make J upper triangular in the column order c, a, b
  Problem p; double *b[5], *a_, *b_, *c_; Man* man[3] = {}; Lin *fb, *fab, *fbc; int t[3], s[3], N; double J[5][5] = {}, C[5][5] = {}; double w = 1;
  double proj(const double* row, int k, int i) const { return man[k] ? (row[0] * man[k]->P[0] + row[1] * man[k]->P[1]) * at(k) : row[i]; } static double at(int k) { return k == 0 ? 1 : k == 1 ? 2 : 0.5; }
  World(int manifolds, int order, int loss = 0, bool apply = true, bool share = false) {  // bit k: block k has a manifold
    static const int at[5] = {0, 2, 6, 8, 10}; for (int i = 0; i < 5; ++i) b[i] = M + at[i]; for (int i = 0; i < 16; ++i) M[i] = i == 2 ? 2 : i == 6 ? 0.5 : 1; int sz[5] = {1, 2, 2, 2, 1}; for (int k = 0; k < 3; ++k) { bool m = manifolds >> k & 1; if (m) sz[k] = 2; s[k] = sz[k]; t[k] = m ? 1 : sz[k]; }
    for (int i = 0; i < 5; ++i) { int k = order == 0 ? i : order == 1 ? 4 - i : (i * 2 + 1) % 5; p.AddParameterBlock(b[k], sz[k]); if (k < 3 && manifolds >> k & 1) p.SetManifold(b[k], man[k] = share && man[1] ? man[1] : new Man); } p.SetParameterBlockConstant(b[3]); N = t[0] + t[1] + t[2];
    fb = new Lin(t[1], {s[1], 2}); fab = new Lin(1, {s[1], s[0]}); fbc = new Lin(t[2], {s[0], s[2]});
    auto fill = [](std::vector<double>& A, int r, int c, bool upper, const char* n) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) A[i * c + j] = upper && j < i ? 0 : nz(n); };
    fill(fb->J[0], t[1], s[1], t[1] == s[1], "b"); for (double& v : fb->J[1]) v = 1; fill(fab->J[0], 1, s[1], false, "ab"); fill(fab->J[1], 1, s[0], false, "a"); fill(fbc->J[0], t[2], s[0], false, "ac"); fill(fbc->J[1], t[2], s[2], t[2] == s[2], "c");
    w = loss && apply ? 2 : 1; LossFunction* L = loss ? new ScaledLoss(nullptr, 4, TAKE_OWNERSHIP) : nullptr; p.AddResidualBlock(fbc, nullptr, b[0], b[2]); p.AddResidualBlock(fab, L, b[1], b[0]); p.AddResidualBlock(fb, nullptr, b[1], b[3]);
    int oc = 0, oa = t[2], ob = oa + t[0]; for (int r = 0; r < t[2]; ++r) { for (int i = 0; i < t[0]; ++i) J[r][oa + i] = proj(&fbc->J[0][r * s[0]], 0, i); for (int i = 0; i < t[2]; ++i) J[r][oc + i] = proj(&fbc->J[1][r * s[2]], 2, i); } J[oa][oa] = w * proj(fab->J[1].data(), 0, 0); for (int i = 0; i < t[1]; ++i) J[oa][ob + i] = w * proj(fab->J[0].data(), 1, i); for (int r = 0; r < t[1]; ++r) for (int i = 0; i < t[1]; ++i) J[ob + r][ob + i] = proj(&fb->J[0][r * s[1]], 1, i);
    double I[5][5] = {}; for (int k = 0; k < N; ++k) for (int i = k; i >= 0; --i) { double v = i == k; for (int j = i + 1; j <= k; ++j) v -= J[i][j] * I[j][k]; I[i][k] = v / J[i][i]; } for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) C[i][j] += I[i][k] * I[j][k];
  }
  int idx(const double* q) const { for (int i = 0; i < 5; ++i) if (b[i] == q) return i; return -1; } bool zero(const double* q) const { return idx(q) > 2; } int off(int k) const { return k == 2 ? 0 : k == 0 ? t[2] : t[2] + t[0]; } int size(const double* q, bool ambient) const { int k = idx(q); return k == 3 ? 2 : k == 4 ? 1 : ambient ? s[k] : t[k]; }
  double want(const double* p, const double* q, int i, int j, bool ambient) const { if (zero(p) || zero(q)) return 0; int k = idx(p), l = idx(q); bool mk = man[k] && ambient, ml = man[l] && ambient; double v = C[off(k) + (mk ? 0 : i)][off(l) + (ml ? 0 : j)]; if (mk) v *= man[k]->P[i] * at(k); if (ml) v *= man[l]->P[j] * at(l); return v; }
  void block(const Covariance& v, const double* p, const double* q, bool ambient, bool present) const {
    double o[5]; for (double& x : o) x = 77; bool ok = ambient ? v.GetCovarianceBlock(p, q, o) : v.GetCovarianceBlockInTangentSpace(p, q, o); vp_check(ok == (present || zero(p) || zero(q)), "exactly the computed blocks are available"); int n = size(p, ambient), m = size(q, ambient);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) vp_check_eq(o[i * m + j], ok ? want(p, q, i, j, ambient) : 77, "covariance block"); for (int k = n * m; k < 5; ++k) vp_check(o[k] == 77, "nothing else is written");
  }
};
static Covariance::Options qr(int threads = 1) { Covariance::Options o; o.algorithm_type = SPARSE_QR; o.sparse_linear_algebra_library_type = EIGEN_SPARSE; o.num_threads = threads; o.column_pivot_threshold = 1e-6; return o; }
static bool has(const Pairs& P, const double* a, const double* b) { for (auto& q : P) if ((q.first == a && q.second == b) || (q.first == b && q.second == a)) return true; return false; }
static const int sets[7][3][2] = {{{0, 0}, {1, 1}, {2, 2}}, {{0, 1}, {2, 0}, {2, 1}}, {{2, 2}, {1, 0}, {-1, 0}}, {{2, 0}, {-1, 0}, {-1, 0}}, {{3, 0}, {1, 2}, {4, 4}}, {{3, 3}, {4, 0}, {-1, 0}}, {{1, 1}, {-1, 0}, {-1, 0}}};
static Pairs pairs(World& W, int s) { Pairs R; for (auto& q : sets[s]) if (q[0] >= 0) R.push_back({W.b[q[0]], W.b[q[1]]}); return R; }
// @run blocks jobs=8
extern "C" void blocks() {
  int ms = vp_choose("manifolds", 9); World W(ms == 8 ? 7 : ms, vp_choose("order", 3), vp_choose("loss", 2), true, ms == 8); Pairs R = pairs(W, vp_choose("set", 7)); Covariance v(qr()); vp_check(v.Compute(R, &W.p), "computes"); bool ambient = vp_choose("ambient", 2); for (auto* p : W.b) for (auto* q : W.b) W.block(v, p, q, ambient, has(R, p, q));
}
static int threads() { int n = 1 + vp_choose("threads", 2); vp_opt("preempt", 0); return n; }
// @run matrix jobs=8
extern "C" void matrix() {
  World W(vp_choose("manifolds", 8), 0, 0); int set = vp_choose("set", 5); static const int cs[5][5] = {{0, 1, 2, -1}, {2, 0, 1, -1}, {1, 3, 2, 0, -1}, {2, 1, -1}, {4, 0, -1}}; std::vector<const double*> c; for (int i = 0; cs[set][i] >= 0; ++i) { c.push_back(W.b[cs[set][i]]); if (i == 4) break; } Covariance v(qr(threads())); vp_check(v.Compute(c, &W.p), "computes");
  bool ambient = vp_choose("ambient", 2); static const int qs[4][4] = {{0, 1, 2, -1}, {2, 3, 0, -1}, {1, -1}, {0, 2, 1, 4}}; int q = vp_choose("query", 4); std::vector<const double*> r; for (int i = 0; i < 4 && qs[q][i] >= 0; ++i) r.push_back(W.b[qs[q][i]]); int n = 0; bool ok = true; for (auto* x : r) { n += W.size(x, ambient); bool in = W.zero(x); for (auto* y : c) in = in || x == y; if (!in) ok = false; if (W.zero(x)) continue; }
  if (!ok) { bool anyPair = false; for (auto* x : r) for (auto* y : r) { bool a = W.zero(x), b = W.zero(y); for (auto* z : c) { a = a || z == x; b = b || z == y; } if (!(a && b) && !W.zero(x) && !W.zero(y)) anyPair = true; } ok = !anyPair; }
  std::vector<double> o(n * n + 1, 77); vp_check((ambient ? v.GetCovarianceMatrix(r, o.data()) : v.GetCovarianceMatrixInTangentSpace(r, o.data())) == ok, "available exactly when every block is"); if (!ok) return; int R = 0; for (auto* x : r) { int Cc = 0; for (auto* y : r) { for (int i = 0; i < W.size(x, ambient); ++i) for (int j = 0; j < W.size(y, ambient); ++j) vp_check_eq(o[(R + i) * n + Cc + j], W.want(x, y, i, j, ambient), "covariance matrix"); Cc += W.size(y, ambient); } R += W.size(x, ambient); } vp_check(o[n * n] == 77, "nothing else is written");
}
// One object may be used again, for other blocks, another problem or a changed one.
// @run again jobs=8
extern "C" void again() {
  World W(2, 0, 0); Covariance v(qr()); Pairs R = pairs(W, vp_choose("set", 7)); vp_check(v.Compute(R, &W.p), "computes"); int s = vp_choose("second", 7); Pairs S = pairs(W, s); int how = vp_choose("between", 4);
  if (how == 1) { W.fab->fail = true; Pairs D = {{W.b[0], W.b[1]}}; vp_check(!v.Compute(D, &W.p), "a failed evaluation is reported"); W.fab->fail = false; } if (how == 2) { W.p.SetParameterBlockConstant(W.b[0]); Pairs D = {{W.b[0], W.b[0]}}; vp_check(v.Compute(D, &W.p), "constant"); double o[1] = {7}; vp_check(v.GetCovarianceBlock(W.b[0], W.b[0], o) && o[0] == 0, "a constant block does not vary"); W.p.SetParameterBlockVariable(W.b[0]); }
  if (how == 3) { World V(0, 0, 0); vp_check(v.Compute(pairs(V, s), &V.p), "another problem"); for (auto* p : V.b) for (auto* q : V.b) V.block(v, p, q, true, has(pairs(V, s), p, q)); return; } vp_check(v.Compute(S, &W.p), "computes again"); for (auto* p : W.b) for (auto* q : W.b) W.block(v, p, q, true, has(S, p, q));
}
// @run constant jobs=8
extern "C" void constant() {  // constant blocks leave the system
  concrete = 1; World W(0, 0, 0); int c = vp_choose("constant", 3); W.p.SetParameterBlockConstant(W.b[c]); Pairs R; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) R.push_back({W.b[j], W.b[i]}); Covariance v(qr()); vp_check(v.Compute(R, &W.p), "computes"); double G[5][5] = {}; std::vector<int> keep; for (int k = 0; k < 3; ++k) if (k != c) for (int i = 0; i < W.t[k]; ++i) keep.push_back(W.off(k) + i); int n = keep.size(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int r = 0; r < W.N; ++r) G[i][j] += W.J[r][keep[i]] * W.J[r][keep[j]];
  double S[5][5]; int R0 = 0; for (int k = 0; k < 3; ++k) { int C0 = 0; for (int l = 0; l < 3; ++l) { double o[4] = {7, 7, 7, 7}; vp_check(v.GetCovarianceBlock(W.b[k], W.b[l], o), "available"); for (int i = 0; i < W.t[k]; ++i) for (int j = 0; j < W.t[l]; ++j) { double x = o[i * W.t[l] + j]; if (k == c || l == c) vp_check(x == 0, "zero"); else S[R0 + i][C0 + j] = x; } if (l != c) C0 += W.t[l]; } if (k != c) R0 += W.t[k]; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double x = 0; for (int k = 0; k < n; ++k) x += S[i][k] * G[k][j]; vp_check_eq(x, i == j, "inverse of J'J of the free blocks"); }
}
// @run noloss
extern "C" void noloss() { World W(1, 0, 1, false); Covariance::Options o = qr(); o.apply_loss_function = false; Covariance v(o); Pairs R = pairs(W, vp_choose("set", 7)); vp_check(v.Compute(R, &W.p), "computes"); for (auto* p : W.b) for (auto* q : W.b) W.block(v, p, q, false, has(R, p, q)); }
// @run failing
extern "C" void failing() {
  concrete = 1; World W(vp_choose("manifold", 2) ? 7 : 0, 0, 0); int how = vp_choose("how", 5); Covariance::Options o = qr(threads()); Pairs R = {{W.b[0], W.b[1]}, {W.b[2], W.b[2]}}; if (how < 2) { (vp_choose("which", 2) ? W.fb : W.fbc)->fail = true; if (how == 1) o.algorithm_type = DENSE_SVD; } if (how == 2) o.sparse_linear_algebra_library_type = SUITE_SPARSE; if (how == 3) o.sparse_linear_algebra_library_type = ACCELERATE_SPARSE; if (how == 4) { for (double& v : W.fbc->J[1]) v = 0; }
  Covariance v(o); vp_check(!v.Compute(R, &W.p), "failures, missing libraries and rank deficient Jacobians are reported"); vp_expect_abort(1); double c[4]; v.GetCovarianceBlock(W.b[0], W.b[1], c); vp_expect_abort(0); vp_check(0, "there is nothing to read after a failure");
}
// @run lift
extern "C" void lift() { World W(7, 0, 0); Covariance v(qr()); Pairs R = {{W.b[0], W.b[0]}, {W.b[0], W.b[1]}}; vp_check(v.Compute(R, &W.p), "computes"); int k = vp_choose("which", 2); W.man[k]->calls = 0; W.man[k]->failAt = 1; double o[4]; bool flip = vp_choose("flip", 2); vp_check(!v.GetCovarianceBlock(W.b[flip], W.b[!flip], o), "a manifold failure is reported"); W.man[k]->failAt = 0; W.block(v, W.b[flip], W.b[!flip], true, true); W.man[k]->calls = 0; W.man[k]->failAt = 1; vp_check(v.GetCovarianceBlockInTangentSpace(W.b[flip], W.b[!flip], o), "which tangent blocks do not need"); std::vector<const double*> q = {W.b[1], W.b[0]}; Covariance u(qr(threads())); W.man[k]->failAt = 0; vp_check(u.Compute(q, &W.p), "computes"); W.man[k]->calls = 0; W.man[k]->failAt = 1; double m[16]; vp_check(!u.GetCovarianceMatrix(q, m), "also for the matrix"); }
// @run misuse
extern "C" void misuse() { World W(0, 0, 0); Covariance v(qr()); double o[4], stranger[1] = {0}; int how = vp_choose("how", 5); vp_expect_abort(1); if (how == 0) v.GetCovarianceBlock(W.b[0], W.b[0], o); if (how == 1) v.GetCovarianceMatrix({W.b[0]}, o); if (how == 2) v.Compute(Pairs{{W.b[0], W.b[1]}, {W.b[2], W.b[1]}, {W.b[0], W.b[1]}}, &W.p); if (how == 3) v.Compute(std::vector<const double*>{W.b[2], W.b[1], W.b[2]}, &W.p); if (how == 4) v.Compute(Pairs{{W.b[0], stranger}}, &W.p); vp_expect_abort(0); vp_check(0, "misuse is refused"); }
// Dense: singular values are kept, dropped or refused as documented.
static const double Q[3][2][2] = {{{1, 0}, {0, 1}}, {{0, 1}, {-1, 0}}, {{3, 4}, {-4, 3}}};
// @run dense jobs=8
extern "C" void dense() {
  int rank = vp_choose("null_space_rank", 4) - 1, rows = 2 + vp_choose("tall", 2), g = vp_choose("rotation", rows == 3 ? 2 : 3); double d[2] = {vp_real_in("s", 0, 4), vp_real_in("s", 0, 4)}; vp_assume(d[0] > d[1] + 0.01 || d[1] > d[0] + 0.01); Problem p; for (double& v : M) v = 1; Lin* f = new Lin(rows, {2}); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) f->J[0][2 * i + j] = d[i] * Q[g][i][j]; p.AddResidualBlock(f, nullptr, M);
  Covariance::Options o; o.algorithm_type = DENSE_SVD; o.null_space_rank = rank; o.min_reciprocal_condition_number = 1. / 16; Covariance v(o); bool ok = v.Compute(std::vector<const double*>{M}, &p); int big = d[0] > d[1] ? 0 : 1; bool deficient = d[!big] < 0.25 * d[big]; double norm = g == 2 ? 625 : 1; bool keep[2]; keep[big] = rank < 2; keep[!big] = rank < 1 && !(rank < 0 && deficient); vp_check(ok == !(rank == 0 && deficient), "near rank deficiency is refused unless a null space is allowed"); if (!ok) return;
  double c[4]; vp_check(v.GetCovarianceBlock(M, M, c), "available"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { double w = 0; for (int k = 0; k < 2; ++k) if (keep[k]) w += Q[g][k][i] * Q[g][k][j] / (norm * d[k] * d[k]); vp_check_eq(c[2 * i + j], w, "pseudo inverse of J'J"); }
}
// @run zero
extern "C" void zero() { int rank = vp_choose("null_space_rank", 4) - 1; Problem p; for (double& v : M) v = 1; p.AddResidualBlock(new Lin(2, {2}), nullptr, M); Covariance::Options o; o.algorithm_type = DENSE_SVD; o.null_space_rank = rank; Covariance v(o); bool ok = v.Compute(std::vector<const double*>{M}, &p); vp_check(ok == (rank < 0 || rank >= 2), "a vanishing Jacobian is rank deficient"); if (!ok) return; double c[4]; vp_check(v.GetCovarianceBlock(M, M, c), "available"); for (double x : c) vp_check_eq(x, 0, "zero"); }
// @run wide
extern "C" void wide() { int rank = vp_choose("null_space_rank", 4) - 1; double s = vp_real_in("s", 0.5, 4); Problem p; for (double& v : M) v = 1; Lin* f = new Lin(1, {2}); f->J[0][0] = s; p.AddResidualBlock(f, nullptr, M); Covariance::Options o; o.algorithm_type = DENSE_SVD; o.null_space_rank = rank; Covariance v(o); bool ok = v.Compute(std::vector<const double*>{M}, &p); vp_check(ok == (rank != 0), "fewer residuals than parameters are rank deficient"); if (!ok) return; double c[4]; vp_check(v.GetCovarianceBlock(M, M, c), "available"); for (int i = 0; i < 4; ++i) vp_check_eq(c[i], i == 0 && rank < 2 ? 1 / (s * s) : 0, "pseudo inverse"); }
// @run qrrank
extern "C" void qrrank() { int rows = 1 + vp_choose("rows", 3); double a = vp_real_in("a", -4, 4), b = vp_real_in("b", 0.5, 4); Problem p; for (double& v : M) v = 1; Lin* f = new Lin(rows, {2}); f->J[0][0] = a; if (rows > 1) f->J[0][3] = b; p.AddResidualBlock(f, nullptr, M); Covariance v(qr()); bool ok = v.Compute(std::vector<const double*>{M}, &p); vp_check(ok == (rows > 1 && (a >= 1e-6 || a <= -1e-6)), "full column rank is required"); double c[4]; if (ok) { vp_check(v.GetCovarianceBlock(M, M, c), "available"); for (int i = 0; i < 4; ++i) vp_check_eq(c[i], i == 0 ? 1 / (a * a) : i == 3 ? 1 / (b * b) : 0, "inverse"); } }
// The triangular solves, for every pattern.
// @run rtr jobs=8
extern "C" void rtr() {
  const int n = 4; int mask = vp_choose("pattern", 64), k = 0; double R[n][n] = {}; std::vector<int> rows, cols = {0}; std::vector<double> val; for (int c = 0; c < n; ++c) { for (int r = 0; r < c; ++r, ++k) if (mask >> k & 1) R[r][c] = vp_real_in("R", -2, 2); if (mask & 1) for (int r = c - 1; r >= 0; --r) { int q = c * (c - 1) / 2 + r; if (mask >> q & 1) { rows.push_back(r); val.push_back(R[r][c]); } } else for (int r = 0; r < c; ++r) { int q = c * (c - 1) / 2 + r; if (mask >> q & 1) { rows.push_back(r); val.push_back(R[r][c]); } } R[c][c] = vp_real_in("D", 0.5, 2); rows.push_back(c); val.push_back(R[c][c]); cols.push_back(rows.size()); }
  double b[n], x[n], y[n]; for (int i = 0; i < n; ++i) x[i] = y[i] = b[i] = vp_real("b"); internal::SolveUpperTriangularInPlace<int>(n, rows.data(), cols.data(), val.data(), x); internal::SolveUpperTriangularTransposeInPlace<int>(n, rows.data(), cols.data(), val.data(), y); for (int i = 0; i < n; ++i) { double s = 0, t = 0; for (int j = 0; j < n; ++j) { s += R[i][j] * x[j]; t += R[j][i] * y[j]; } vp_check_eq(s, b[i], "R x = b"); vp_check_eq(t, b[i], "R' x = b"); }
  int e = vp_choose("column", n); double z[n + 1]; for (double& v : z) v = 77; internal::SolveRTRWithSparseRHS<int>(n, rows.data(), cols.data(), val.data(), e, z); double w[n]; for (int i = 0; i < n; ++i) { w[i] = 0; for (int j = 0; j < n; ++j) w[i] += R[i][j] * z[j]; } for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += R[j][i] * w[j]; vp_check_eq(s, i == e, "R'R x = e"); } vp_check(z[n] == 77, "nothing else is written");
}
// @run blockutils
extern "C" void blockutils() {
  using internal::Block; static const int shapes[4][3] = {{1, 1, 1}, {2, 1, 3}, {1, 3, 2}, {3, 2, 1}}; int a = vp_choose("rows", 4), b = vp_choose("cols", 4), m = vp_choose("pattern", 512); std::vector<Block> rb, cb; int at = 0; for (int v : shapes[a]) { rb.emplace_back(v, at); at += v; } at = 0; for (int v : shapes[b]) { cb.emplace_back(v, at); at += v; } std::vector<int> r, c = {0}; for (int j = 0; j < 3; ++j) for (int k = 0; k < cb[j].size; ++k) { for (int i = 0; i < 3; ++i) if (m >> (3 * j + i) & 1) for (int l = 0; l < rb[i].size; ++l) r.push_back(rb[i].position + l); c.push_back(r.size()); }
  std::vector<int> br = {9, 9}, bc = {9}; internal::CompressedColumnScalarMatrixToBlockMatrix(r.data(), c.data(), rb, cb, &br, &bc); std::vector<int> wr, wc = {0}; for (int j = 0; j < 3; ++j) { for (int i = 0; i < 3; ++i) if (m >> (3 * j + i) & 1) wr.push_back(i); wc.push_back(wr.size()); } vp_check(br == wr && bc == wc, "block structure");
  if (m < 6 && b == 0) { static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; std::vector<int> o(P[m], P[m] + 3), so = {5}, w; internal::BlockOrderingToScalarOrdering(rb, o, &so); for (int i : o) for (int l = 0; l < rb[i].size; ++l) w.push_back(rb[i].position + l); vp_check(so == w, "scalar ordering"); }
}
// Two threads, every schedule within the bound, no data race.
// @run schedules jobs=8 time=120
extern "C" void schedules() { vp_opt("race", 1); vp_opt("preempt", 1); concrete = 1; World W(2, 0, 0); std::vector<const double*> c = {W.b[0], W.b[1], W.b[2]}; Covariance v(qr(2)); bool miss = vp_choose("missing", 2); if (miss) vp_check(v.Compute(Pairs{{W.b[0], W.b[0]}}, &W.p), "computes"); else vp_check(v.Compute(c, &W.p), "computes"); std::vector<double> m(16); vp_check(v.GetCovarianceMatrixInTangentSpace(c, m.data()) == !miss, "available"); if (!miss) for (int a = 0, r = 0; a < 3; r += W.t[a++]) for (int b = 0, k = 0; b < 3; k += W.t[b++]) for (int i = 0; i < W.t[a]; ++i) for (int j = 0; j < W.t[b]; ++j) vp_check_eq(m[(r + i) * 4 + k + j], W.want(c[a], c[b], i, j, false), "covariance matrix"); }
