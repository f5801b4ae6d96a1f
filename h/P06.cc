// Manifolds: Plus, Minus and their Jacobians belong together.
#include "vp.h"
#include <cmath>
#include <memory>
#include "ceres/manifold.h"
#include "ceres/autodiff_manifold.h"
#include "ceres/product_manifold.h"
#include "ceres/sphere_manifold.h"
#include "ceres/line_manifold.h"
#include "ceres/rotation.h"
// @bound ambient sizes up to 6; every coordinate symbolic (|x| <= 4, |delta| <= 4), spheres of arbitrary radius in dimensions 2 and 3 (points closer than 1e-7 to the pole axis without being on it are outside: the code switches to the pole there by design), every constancy mask of a 4-vector, products of up to three manifolds; exact reals
using namespace ceres;
static void fill(const char* n, double* v, int k, double r = 4) { for (int i = 0; i < k; ++i) v[i] = vp_real_in(n, -r, r); }
template <int N, int T> static void jac(const Manifold& m, const double* x, double P[N][T], double M[T][N]) {
  double p[N * T + 2], q[N * T + 2]; for (double& v : p) v = 77; for (double& v : q) v = 77;
  vp_check(m.AmbientSize() == N && m.TangentSize() == T, "sizes"); vp_check(m.PlusJacobian(x, p + 1) && m.MinusJacobian(x, q + 1), "jacobians succeed");
  vp_check(p[0] == 77 && p[N * T + 1] == 77 && q[0] == 77 && q[N * T + 1] == 77, "jacobian bounds");
  for (int i = 0; i < N; ++i) for (int j = 0; j < T; ++j) { P[i][j] = p[1 + i * T + j]; M[j][i] = q[1 + j * N + i]; }
  for (int i = 0; i < T; ++i) for (int j = 0; j < T; ++j) { double s = 0; for (int k = 0; k < N; ++k) s += M[i][k] * P[k][j]; vp_check_eq(s, i == j, "minus jacobian inverts plus jacobian"); }
  // and the product with an arbitrary matrix
  double A[2 * N], B[2 * T + 2]; fill("A", A, 2 * N); for (double& v : B) v = 77; int rows = vp_choose("rows", 2) + 1; vp_check(m.RightMultiplyByPlusJacobian(x, rows, A, B + 1), "ok");
  for (int i = 0; i < rows; ++i) for (int j = 0; j < T; ++j) { double s = 0; for (int k = 0; k < N; ++k) s += A[i * N + k] * P[k][j]; vp_check_eq(B[1 + i * T + j], s, "right multiply by plus jacobian"); }
  vp_check(B[0] == 77, "bounds"); for (int i = rows * T; i < 2 * T + 1; ++i) vp_check(B[1 + i] == 77, "bounds");
}
template <int N, int T> static void zero(const Manifold& m, const double* x) {
  double z[T] = {}, y[N + 2], d[T + 2]; for (double& v : y) v = 77; for (double& v : d) v = 77; vp_check(m.Plus(x, z, y + 1) && m.Minus(x, x, d + 1), "ok"); vp_check(y[0] == 77 && y[N + 1] == 77 && d[0] == 77 && d[T + 1] == 77, "bounds");
  for (int i = 0; i < N; ++i) vp_check_eq(y[1 + i], x[i], "x plus zero is x"); for (int i = 0; i < T; ++i) vp_check_eq(d[1 + i], 0, "x minus x is zero");
}
template <int N> static void linear(const Manifold& m, const bool* fixed, int T) {  // Plus adds on the free coordinates
  double x[N], y[N], d[N], o[N + 2], e[N + 2]; fill("x", x, N); fill("y", y, N); fill("d", d, N); for (double& v : o) v = 77; for (double& v : e) v = 77;
  vp_check(m.AmbientSize() == N && m.TangentSize() == T, "sizes"); vp_check(m.Plus(x, d, o + 1) && m.Minus(y, x, e + 1), "ok"); vp_check(o[0] == 77 && o[N + 1] == 77 && e[0] == 77 && e[T + 1] == 77, "bounds");
  double P[N * N + 2], M[N * N + 2], A[3 * N], B[3 * N + 2]; for (double& v : P) v = 77; for (double& v : M) v = 77; for (double& v : B) v = 77; fill("A", A, 3 * N); vp_check(m.PlusJacobian(x, P + 1) && m.MinusJacobian(x, M + 1) && m.RightMultiplyByPlusJacobian(x, 3, A, B + 1), "ok");
  vp_check(P[0] == 77 && P[N * T + 1] == 77 && M[0] == 77 && M[N * T + 1] == 77 && B[0] == 77 && B[3 * T + 1] == 77, "bounds");
  for (int i = 0, j = 0; i < N; ++i) {
    vp_check_eq(o[1 + i], fixed[i] ? x[i] : x[i] + d[j], "plus"); if (!fixed[i]) vp_check_eq(e[1 + j], y[i] - x[i], "minus");
    for (int k = 0; k < T; ++k) { vp_check_eq(P[1 + i * T + k], !fixed[i] && k == j, "plus jacobian"); vp_check_eq(M[1 + k * N + i], !fixed[i] && k == j, "minus jacobian"); }
    if (!fixed[i]) { for (int r = 0; r < 3; ++r) vp_check_eq(B[1 + r * T + j], A[r * N + i], "right multiply"); ++j; }
  }
}
// @run euclidean
extern "C" void euclidean() { bool f[4] = {}; if (vp_choose("dynamic", 2)) { EuclideanManifold<DYNAMIC> m(4); linear<4>(m, f, 4); } else { EuclideanManifold<4> m; linear<4>(m, f, 4); } }
// @run subset
extern "C" void subset() { int mask = vp_choose("mask", 16); bool f[4]; std::vector<int> c; int rev = vp_choose("reversed", 2); for (int i = 0; i < 4; ++i) { f[i] = mask >> i & 1; if (f[i]) c.insert(rev ? c.begin() : c.end(), i); } SubsetManifold m(4, c); linear<4>(m, f, 4 - (int)c.size()); }
template <class O, class M> static void quat() {
  double q[4]; { double x = vp_real_in("x", -1, 1), y = vp_real_in("y", -1, 1), z = vp_real_in("z", -1, 1), w = vp_real_in("w", -1, 1); vp_square_rule(w, 1 - x * x - y * y - z * z); q[O::kW] = w; q[O::kX] = x; q[O::kY] = y; q[O::kZ] = z; }
  M m; double P[4][3], J[3][4]; int part = vp_choose("part", 3);
  if (part == 0) { jac<4, 3>(m, q, P, J); zero<4, 3>(m, q); return; }
  double pj[12]; vp_check(m.PlusJacobian(q, pj), "ok"); double mj[12]; vp_check(m.MinusJacobian(q, mj), "ok");
  if (part == 1) {  // Plus is cos|d| x + sin|d|/|d| J d, and a left product with the rotation of angle 2|d|
    double d[3], o[6] = {77, 77, 77, 77, 77, 77}; fill("d", d, 3); vp_check(m.Plus(q, d, o + 1), "ok"); vp_check(o[0] == 77 && o[5] == 77, "bounds"); double r = std::hypot(d[0], d[1], d[2]); if (r == 0) return;
    double n = 0; for (int i = 0; i < 4; ++i) { double s = 0; for (int k = 0; k < 3; ++k) s += pj[3 * i + k] * d[k]; vp_check_eq(o[1 + i] * r, r * std::cos(r) * q[i] + std::sin(r) * s, "plus follows its jacobian"); n += o[1 + i] * o[1 + i]; } vp_check_eq(n, 1, "stays a unit quaternion");
    double two[3] = {2 * d[0], 2 * d[1], 2 * d[2]}, dq[4], e[4]; AngleAxisToQuaternion<O>(two, dq); QuaternionProduct<O>(dq, q, e); for (int i = 0; i < 4; ++i) vp_check_eq(o[1 + i], e[i], "plus is a rotation by twice delta");
  } else {  // Minus is the logarithm of y x^-1, consistent with its jacobian; Plus undoes it
    double y[4]; { double a = vp_real_in("x", -1, 1), b = vp_real_in("y", -1, 1), c = vp_real_in("z", -1, 1), w = vp_real_in("w", -1, 1); vp_square_rule(w, 1 - a * a - b * b - c * c); y[O::kW] = w; y[O::kX] = a; y[O::kY] = b; y[O::kZ] = c; }
    double e[5] = {77, 77, 77, 77, 77}, c = 0, u[3]; vp_check(m.Minus(y, q, e + 1), "ok"); vp_check(e[0] == 77 && e[4] == 77, "bounds"); for (int i = 0; i < 4; ++i) c += y[i] * q[i]; for (int k = 0; k < 3; ++k) { u[k] = 0; for (int i = 0; i < 4; ++i) u[k] += mj[4 * k + i] * y[i]; }
    double n = std::hypot(u[0], u[1], u[2]); if (n == 0) return; double t = std::atan2(n, c); for (int k = 0; k < 3; ++k) vp_check_eq(e[1 + k] * n, t * u[k], "minus follows its jacobian");
  }
}
// @run quat_ceres
extern "C" void quat_ceres() { quat<CeresQuaternionOrder, QuaternionManifold>(); }
// @run quat_eigen
extern "C" void quat_eigen() { quat<EigenQuaternionOrder, EigenQuaternionManifold>(); }
static void pole(double* x, int n) { if (vp_choose("pole", 2)) for (int i = 0; i < n; ++i) x[i] = 0; else { double s = 0; for (int i = 0; i < n; ++i) s += x[i] * x[i]; vp_assume(s > 1e-13); } }
template <int N, class M> static void sphere(const M& m) {
  double x[N], s = 0, n2; fill("x", x, N); pole(x, N - 1); for (int i = 0; i < N - 1; ++i) s += x[i] * x[i]; n2 = s + x[N - 1] * x[N - 1]; vp_assume(n2 > 0.01); 
  int part = vp_choose("part", 3); if (part == 0) { double P[N][N - 1], J[N - 1][N]; jac<N, N - 1>(m, x, P, J); for (int j = 0; j < N - 1; ++j) { double t = 0, u = 0; for (int i = 0; i < N; ++i) { t += x[i] * P[i][j]; u += x[i] * J[j][i]; } vp_check_eq(t, 0, "plus jacobian is tangent"); vp_check_eq(u, 0, "minus jacobian kills the normal"); } zero<N, N - 1>(m, x); return; }
  double pj[N * (N - 1)], mj[N * (N - 1)]; vp_check(m.PlusJacobian(x, pj) && m.MinusJacobian(x, mj), "ok");
  if (part == 1) { double d[N - 1], o[N + 2], r = 0, n = 0; fill("d", d, N - 1); for (double& v : o) v = 77; vp_check(m.Plus(x, d, o + 1), "ok"); vp_check(o[0] == 77 && o[N + 1] == 77, "bounds"); for (double v : d) r += v * v; r = std::sqrt(r); if (r == 0) return;
    for (int i = 0; i < N; ++i) { double t = 0; for (int k = 0; k < N - 1; ++k) t += pj[(N - 1) * i + k] * d[k]; vp_check_eq(o[1 + i] * r, r * std::cos(r) * x[i] + std::sin(r) * t, "plus follows its jacobian"); n += o[1 + i] * o[1 + i]; } vp_check_eq(n, n2, "stays on the sphere");
  } else { double y[N], e[N + 1], c = 0, u[N - 1], n = 0; fill("y", y, N); double yn = 0; for (double v : y) yn += v * v; for (double& v : e) v = 77; vp_check(m.Minus(y, x, e + 1), "ok"); vp_check(e[0] == 77 && e[N] == 77, "bounds"); for (int i = 0; i < N; ++i) c += y[i] * x[i]; for (int k = 0; k < N - 1; ++k) { u[k] = 0; for (int i = 0; i < N; ++i) u[k] += mj[N * k + i] * y[i]; n += u[k] * u[k]; }
    n = std::sqrt(n); if (n == 0) return; double t = std::atan2(n, c / n2); for (int k = 0; k < N - 1; ++k) vp_check_eq(e[1 + k] * n, t * u[k], "minus follows its jacobian"); }
}
// @run sphere2
extern "C" void sphere2() { SphereManifold<2> m; sphere<2>(m); }
// @run sphere3
extern "C" void sphere3() { SphereManifold<3> m; sphere<3>(m); }
// @run sphered
extern "C" void sphered() { SphereManifold<DYNAMIC> m(3); sphere<3>(m); }
template <int N, class M> static void line(const M& m) {  // (point, direction): the direction moves on its sphere, the point across the line
  double x[2 * N], s = 0, n2; fill("x", x, 2 * N); pole(x + N, N - 1); for (int i = 0; i < N - 1; ++i) s += x[N + i] * x[N + i]; vp_square_rule(x[2 * N - 1], 1 - s); s = 0; for (int i = 0; i < N - 1; ++i) s += x[N + i] * x[N + i]; n2 = s + x[2 * N - 1] * x[2 * N - 1]; 
  SphereManifold<N> sp; const int T = N - 1; double sj[N * T], sm[N * T]; vp_check(sp.PlusJacobian(x + N, sj) && sp.MinusJacobian(x + N, sm), "ok"); int part = vp_choose("part", 3);
  if (part == 0) { double P[2 * N][2 * T], J[2 * T][2 * N]; jac<2 * N, 2 * T>(m, x, P, J); for (int i = 0; i < N; ++i) for (int j = 0; j < T; ++j) { vp_check_eq(P[N + i][T + j], sj[i * T + j], "direction part"); vp_check_eq(P[i][j], sj[i * T + j], "point part"); vp_check_eq(P[i][T + j], 0, "parts independent"); vp_check_eq(P[N + i][j], 0, "parts independent"); vp_check_eq(J[T + j][N + i], sm[j * N + i], "direction part"); vp_check_eq(J[j][i], sm[j * N + i], "point part"); vp_check_eq(J[T + j][i], 0, "parts independent"); vp_check_eq(J[j][N + i], 0, "parts independent"); } zero<2 * N, 2 * T>(m, x); return; }
  if (part == 1) { double d[2 * T], o[2 * N + 2], e[N]; fill("d", d, 2 * T); for (double& v : o) v = 77; vp_check(m.Plus(x, d, o + 1) && sp.Plus(x + N, d + T, e), "ok"); vp_check(o[0] == 77 && o[2 * N + 1] == 77, "bounds"); for (int i = 0; i < N; ++i) { vp_check_eq(o[1 + N + i], e[i], "direction moves on its sphere"); double t = x[i]; for (int k = 0; k < T; ++k) t += sj[i * T + k] * d[k]; vp_check_eq(o[1 + i], t, "point moves across the line"); } }
  else { double y[2 * N], e[2 * T + 2], f[T]; fill("y", y, 2 * N); for (double& v : e) v = 77; vp_check(m.Minus(y, x, e + 1) && sp.Minus(y + N, x + N, f), "ok"); vp_check(e[0] == 77 && e[2 * T + 1] == 77, "bounds"); for (int k = 0; k < T; ++k) { vp_check_eq(e[1 + T + k], f[k], "direction difference"); double t = 0; for (int i = 0; i < N; ++i) t += sm[k * N + i] * (y[i] - x[i]); vp_check_eq(e[1 + k], t, "point difference"); } }
}
// @run line2
extern "C" void line2() { LineManifold<2> m; line<2>(m); }
// @run line3
extern "C" void line3() { LineManifold<3> m; line<3>(m); }
// @run lined
extern "C" void lined() { LineManifold<DYNAMIC> m(3); line<3>(m); }
// A manifold that can fail and whose parts are recognisable
struct Probe : Manifold {
  int a, t, fail; double k; Probe(int a, int t, double k, int fail) : a(a), t(t), fail(fail), k(k) {}
  int AmbientSize() const override { return a; } int TangentSize() const override { return t; }
  bool Plus(const double* x, const double* d, double* o) const override { for (int i = 0; i < a; ++i) o[i] = x[i] + (i < t ? k * d[i] : 0); return !(fail & 1); }
  bool PlusJacobian(const double* x, double* j) const override { for (int i = 0; i < a; ++i) for (int c = 0; c < t; ++c) j[i * t + c] = k * x[i] + c; return !(fail & 2); }
  bool Minus(const double* y, const double* x, double* o) const override { for (int i = 0; i < t; ++i) o[i] = (y[i] - x[i]) / k; return !(fail & 4); }
  bool MinusJacobian(const double* x, double* j) const override { for (int c = 0; c < t; ++c) for (int i = 0; i < a; ++i) j[c * a + i] = k - x[i] * c; return !(fail & 8); }
};
template <class PM> static void prod(const PM& m, const Probe** q, int n) {
  int A = 0, T = 0; for (int i = 0; i < n; ++i) { A += q[i]->a; T += q[i]->t; } double x[8], y[8], d[8], o[10], e[10], P[66], M[66]; fill("x", x, A); fill("y", y, A); fill("d", d, T); for (auto* b : {o, e}) for (int i = 0; i < 10; ++i) b[i] = 77; for (auto* b : {P, M}) for (int i = 0; i < 66; ++i) b[i] = 77;
  vp_check(m.AmbientSize() == A && m.TangentSize() == T, "sizes"); int bad = 0; for (int i = 0; i < n; ++i) bad |= q[i]->fail;
  vp_check(m.Plus(x, d, o + 1) == !(bad & 1), "plus status"); vp_check(m.PlusJacobian(x, P + 1) == !(bad & 2), "plus jacobian status"); vp_check(m.Minus(y, x, e + 1) == !(bad & 4), "minus status"); vp_check(m.MinusJacobian(x, M + 1) == !(bad & 8), "minus jacobian status");
  vp_check(o[0] == 77 && o[A + 1] == 77 && e[0] == 77 && e[T + 1] == 77 && P[0] == 77 && P[A * T + 1] == 77 && M[0] == 77 && M[A * T + 1] == 77, "bounds"); if (bad) return;
  for (int b = 0, ao = 0, to = 0; b < n; ao += q[b]->a, to += q[b]->t, ++b) { const Probe& p = *q[b]; double O[8], E[8], PJ[64], MJ[64]; p.Plus(x + ao, d + to, O); p.Minus(y + ao, x + ao, E); p.PlusJacobian(x + ao, PJ); p.MinusJacobian(x + ao, MJ);
    for (int i = 0; i < p.a; ++i) vp_check_eq(o[1 + ao + i], O[i], "plus by parts"); for (int i = 0; i < p.t; ++i) vp_check_eq(e[1 + to + i], E[i], "minus by parts");
    for (int i = 0; i < p.a; ++i) for (int c = 0; c < T; ++c) { bool in = c >= to && c < to + p.t; vp_check_eq(P[1 + (ao + i) * T + c], in ? PJ[i * p.t + c - to] : 0, "block diagonal plus jacobian"); }
    for (int c = 0; c < p.t; ++c) for (int i = 0; i < A; ++i) { bool in = i >= ao && i < ao + p.a; vp_check_eq(M[1 + (to + c) * A + i], in ? MJ[c * p.a + i - ao] : 0, "block diagonal minus jacobian"); } }
}
static int fl(const char* n) { int k = vp_choose(n, 5); return k ? 1 << (k - 1) : 0; }
// @run product2
extern "C" void product2() { double k = vp_real_in("k", 0.5, 3), l = vp_real_in("l", 0.5, 3); int sh = vp_choose("shape", 3); Probe* a = new Probe(sh == 0 ? 3 : 2, 2, k, fl("fa")); Probe* b = new Probe(2, sh == 2 ? 2 : 1, l, fl("fb")); const Probe* q[] = {a, b}; ProductManifold<std::unique_ptr<Probe>, Probe*> m(std::unique_ptr<Probe>(a), std::move(b)); prod(m, q, 2); delete q[1]; }
// @run product3
extern "C" void product3() { double k = vp_real_in("k", 0.5, 3), l = vp_real_in("l", 0.5, 3), h = vp_real_in("h", 0.5, 3); Probe a(1, 1, k, 0), b(3, 2, l, fl("fb")), c(2, 1, h, fl("fc")); const Probe* q[] = {&a, &b, &c}; ProductManifold<Probe, Probe, Probe> m(a, b, c); prod(m, q, 3); }
struct Cx {  // complex numbers acting on themselves by (1 + d) z, plus a scaled coordinate
  double a[4];
  template <class S> bool Plus(const S* x, const S* d, S* o) const { o[0] = x[0] + d[0] * a[0] + d[0] * d[1] * x[0]; o[1] = x[1] * (S(1) + d[1]) + d[0] * d[0]; o[2] = x[2] + d[0] * a[1] + d[1] * a[2]; return true; }
  template <class S> bool Minus(const S* y, const S* x, S* o) const { o[0] = (y[0] - x[0]) * a[3] + y[1] * y[2] * x[0] - x[1] * x[2] * x[0]; o[1] = y[2] * y[2] - x[2] * x[2] + y[0] * x[1] - x[0] * x[1]; return true; }
};
// @run autodiff
extern "C" void autodiff() {
  Cx* f = new Cx; fill("a", f->a, 4); double a[4]; for (int i = 0; i < 4; ++i) a[i] = f->a[i]; AutoDiffManifold<Cx, 3, 2> m(f); double x[3], y[3], d[2], o[3], e[2], P[8], M[8]; fill("x", x, 3); fill("y", y, 3); fill("d", d, 2); for (double& v : P) v = 77; for (double& v : M) v = 77;
  vp_check(m.Plus(x, d, o) && m.Minus(y, x, e) && m.PlusJacobian(x, P + 1) && m.MinusJacobian(x, M + 1), "ok"); vp_check(m.AmbientSize() == 3 && m.TangentSize() == 2, "sizes"); vp_check(P[0] == 77 && P[7] == 77 && M[0] == 77 && M[7] == 77, "bounds"); double O[3], E[2]; m.functor().Plus(x, d, O); m.functor().Minus(y, x, E); for (int i = 0; i < 3; ++i) vp_check_eq(o[i], O[i], "plus"); for (int i = 0; i < 2; ++i) vp_check_eq(e[i], E[i], "minus");
  double PJ[6] = {a[0], 0, 0, x[1], a[1], a[2]}, MJ[6] = {a[3], x[2] * x[0], x[1] * x[0], x[1], 0, 2 * x[2]}; for (int i = 0; i < 6; ++i) { vp_check_eq(P[1 + i], PJ[i], "derivative of plus at zero"); vp_check_eq(M[1 + i], MJ[i], "derivative of minus at x"); }
}

// @run antipode
extern "C" void antipode() {  // the point opposite to x is half a turn away (in some direction)
  double x[3], y[3], e[2], l = vp_real_in("l", 0.1, 4); bool two = vp_choose("two", 2); fill("x", x, 3); if (two) x[2] = 0; int N = two ? 2 : 3; pole(x, N - 1); double s = 0; for (int i = 0; i < N; ++i) s += x[i] * x[i]; vp_assume(s > 0.01);
  if (vp_choose("axis", 2)) { for (int i = 0; i < N - 1; ++i) x[i] = 0; x[N - 1] = vp_decide(x[N - 1] > 0) ? l : -l; }
  for (int i = 0; i < 3; ++i) y[i] = -x[i]; SphereManifold<2> m2; SphereManifold<3> m3; const Manifold& m = two ? (const Manifold&)m2 : m3;
  vp_check(m.Minus(y, x, e), "ok"); double n = 0; for (int i = 0; i < N - 1; ++i) n += e[i] * e[i]; vp_check_le(std::fabs(n - M_PI * M_PI), 1e-9, "half a turn");
}
// @run rmfail
extern "C" void rmfail() {  // the product with the Jacobian fails when the Jacobian does
  Probe p(3, 2, 1.5, vp_choose("fails", 2) ? 2 : 0); double x[3], A[6], B[4]; fill("x", x, 3); fill("A", A, 6); vp_check(p.RightMultiplyByPlusJacobian(x, 2, A, B) == !p.fail, "status"); if (p.fail) return;
  for (int r = 0; r < 2; ++r) for (int c = 0; c < 2; ++c) { double t = 0; for (int i = 0; i < 3; ++i) t += A[3 * r + i] * (1.5 * x[i] + c); vp_check_eq(B[2 * r + c], t, "product"); }
}
