// Applying rotations to points and composing them.
#include "vp.h"
#include <cmath>
#include "ceres/rotation.h"
#include "ceres/jet.h"
// @bound any quaternion with norm at least 1e-3 and |coefficient| <= 9, any axis-angle vector with |coordinate| <= 8 and any point with |coordinate| <= 9; both coefficient orders; dual parts arbitrary
using namespace ceres;
template <class O> static void put(double* q, double w, double x, double y, double z) { q[O::kW] = w; q[O::kX] = x; q[O::kY] = y; q[O::kZ] = z; }
static double c9(const char* n) { return vp_real_in(n, -9, 9); }
static void refR(double a, double b, double c, double d, double R[3][3]) {
  double M[3][3] = {{a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)}, {2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)}, {2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = M[i][j];
}
struct Guard { double v[5] = {77, 77, 77, 77, 77}; double* p() { return v + 1; } void done() { vp_check(v[0] == 77 && v[4] == 77, "bounds"); } };
template <class O> static void rotate() {
  double a = c9("a"), b = c9("b"), c = c9("c"), d = c9("d"), n = a * a + b * b + c * c + d * d, q[4], p[3] = {c9("p"), c9("q"), c9("r")}, E[3][3]; vp_assume(n > 1e-6); put<O>(q, a, b, c, d); refR(a, b, c, d, E);
  Guard g; QuaternionRotatePoint<O>(q, p, g.p()); g.done(); for (int i = 0; i < 3; ++i) vp_check_eq(g.p()[i] * n, E[i][0] * p[0] + E[i][1] * p[1] + E[i][2] * p[2], "rotation by any quaternion");
}
// @run rot_ceres
extern "C" void rot_ceres() { rotate<CeresQuaternionOrder>(); }
// @run rot_eigen
extern "C" void rot_eigen() { rotate<EigenQuaternionOrder>(); }
static void unit(double* w, double* x, double* y, double* z) { *x = vp_real_in("x", -1, 1); *y = vp_real_in("y", -1, 1); *z = vp_real_in("z", -1, 1); *w = vp_real_in("w", -1, 1); vp_square_rule(*w, 1 - *x * *x - *y * *y - *z * *z); }
template <class O> static void urotate() {
  double a, b, c, d, q[4], p[3] = {c9("p"), c9("q"), c9("r")}, E[3][3]; unit(&a, &b, &c, &d); put<O>(q, a, b, c, d); refR(a, b, c, d, E);
  Guard g, h; UnitQuaternionRotatePoint<O>(q, p, g.p()); g.done(); double n = 0; for (int i = 0; i < 3; ++i) { vp_check_eq(g.p()[i], E[i][0] * p[0] + E[i][1] * p[1] + E[i][2] * p[2], "rotation by a unit quaternion"); n += g.p()[i] * g.p()[i]; }
  vp_check_eq(n, p[0] * p[0] + p[1] * p[1] + p[2] * p[2], "length preserved");
  double m[4]; for (int i = 0; i < 4; ++i) m[i] = -q[i]; UnitQuaternionRotatePoint<O>(m, p, h.p()); for (int i = 0; i < 3; ++i) vp_check_eq(h.p()[i], g.p()[i], "q and -q rotate alike");
  double cj[4], back[3]; QuaternionConjugate<O>(q, cj); UnitQuaternionRotatePoint<O>(cj, g.p(), back); for (int i = 0; i < 3; ++i) vp_check_eq(back[i], p[i], "conjugate undoes");
}
// @run urot_ceres
extern "C" void urot_ceres() { urotate<CeresQuaternionOrder>(); }
// @run urot_eigen
extern "C" void urot_eigen() { urotate<EigenQuaternionOrder>(); }
template <class O> static void product() {
  double z[4], w[4], v[4]; for (double& t : z) t = c9("z"); for (double& t : w) t = c9("w"); for (double& t : v) t = c9("v");
  double o[6] = {77, 77, 77, 77, 77, 77}, *p = o + 1; QuaternionProduct<O>(z, w, p); vp_check(o[0] == 77 && o[5] == 77, "bounds");
  auto W = [](const double* q) { return q[O::kW]; }; auto X = [](const double* q) { return q[O::kX]; }; auto Y = [](const double* q) { return q[O::kY]; }; auto Z = [](const double* q) { return q[O::kZ]; };
  vp_check_eq(W(p), W(z) * W(w) - X(z) * X(w) - Y(z) * Y(w) - Z(z) * Z(w), "w"); vp_check_eq(X(p), W(z) * X(w) + X(z) * W(w) + Y(z) * Z(w) - Z(z) * Y(w), "x");
  vp_check_eq(Y(p), W(z) * Y(w) + Y(z) * W(w) + Z(z) * X(w) - X(z) * Z(w), "y"); vp_check_eq(Z(p), W(z) * Z(w) + Z(z) * W(w) + X(z) * Y(w) - Y(z) * X(w), "z");
  double nz = 0, nw = 0, np = 0; for (int i = 0; i < 4; ++i) { nz += z[i] * z[i]; nw += w[i] * w[i]; np += p[i] * p[i]; } vp_check_eq(np, nz * nw, "norms multiply");
  double c[4], e[4]; QuaternionConjugate<O>(z, c); vp_check_eq(W(c), W(z), "conjugate"); vp_check_eq(X(c), -X(z), "conjugate"); vp_check_eq(Y(c), -Y(z), "conjugate"); vp_check_eq(Z(c), -Z(z), "conjugate");
  QuaternionProduct<O>(z, c, e); vp_check_eq(W(e), nz, "inverse"); vp_check_eq(X(e), 0, "inverse"); vp_check_eq(Y(e), 0, "inverse"); vp_check_eq(Z(e), 0, "inverse");
  double l[4], r[4], t[4]; QuaternionProduct<O>(p, v, l); QuaternionProduct<O>(w, v, t); QuaternionProduct<O>(z, t, r); for (int i = 0; i < 4; ++i) vp_check_eq(l[i], r[i], "associative");
}
// @run prod_ceres
extern "C" void prod_ceres() { product<CeresQuaternionOrder>(); }
// @run prod_eigen
extern "C" void prod_eigen() { product<EigenQuaternionOrder>(); }
template <class O> static void compose() {  // rotating twice is rotating by the product
  double a, b, c, d, q[4], r[4], p[3] = {c9("p"), c9("q"), c9("r")}; unit(&a, &b, &c, &d); put<O>(q, a, b, c, d); unit(&a, &b, &c, &d); put<O>(r, a, b, c, d);
  double x[3], y[3], z[3], qr[4]; UnitQuaternionRotatePoint<O>(r, p, x); UnitQuaternionRotatePoint<O>(q, x, y); QuaternionProduct<O>(q, r, qr); UnitQuaternionRotatePoint<O>(qr, p, z); for (int i = 0; i < 3; ++i) vp_check_eq(z[i], y[i], "product composes");
}
// @run comp_ceres
extern "C" void comp_ceres() { compose<CeresQuaternionOrder>(); }
// @run comp_eigen
extern "C" void comp_eigen() { compose<EigenQuaternionOrder>(); }
// @run crossdot
extern "C" void crossdot() {
  double x[3], y[3]; for (double& t : x) t = vp_real("x"); for (double& t : y) t = vp_real("y"); Guard g; CrossProduct(x, y, g.p()); g.done(); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; vp_check_eq(g.p()[i], x[j] * y[k] - x[k] * y[j], "cross"); }
  vp_check_eq(DotProduct(x, y), x[0] * y[0] + x[1] * y[1] + x[2] * y[2], "dot"); vp_check_eq(DotProduct(x, g.p()), 0, "orthogonal"); vp_check_eq(DotProduct(g.p(), y), 0, "orthogonal");
}
// @run aarot
extern "C" void aarot() {  // Rodrigues; the same as through the matrix; in place too
  double a[3] = {vp_real_in("a", -8, 8), vp_real_in("b", -8, 8), vp_real_in("c", -8, 8)}, p[3] = {c9("p"), c9("q"), c9("r")}, R[9]; AngleAxisToRotationMatrix(a, R); Guard g;
  double t = std::hypot(a[0], a[1], a[2]); bool z = vp_decide(t == 0); 
  AngleAxisRotatePoint(a, p, g.p()); g.done(); double dot = a[0] * p[0] + a[1] * p[1] + a[2] * p[2];
  for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; vp_check_eq(g.p()[i], R[i] * p[0] + R[i + 3] * p[1] + R[i + 6] * p[2], "agrees with the matrix");
    if (z) vp_check_eq(g.p()[i], p[i], "identity"); else vp_check_eq(g.p()[i] * t * t, t * t * p[i] * std::cos(t) + t * (a[j] * p[k] - a[k] * p[j]) * std::sin(t) + a[i] * dot * (1 - std::cos(t)), "Rodrigues"); }
  if (!z) { double n = 0; for (int i = 0; i < 3; ++i) n += g.p()[i] * g.p()[i]; vp_check_eq(n, p[0] * p[0] + p[1] * p[1] + p[2] * p[2], "length preserved"); }
}
// @run aajet
extern "C" void aajet() {  // derivatives, at the origin and away from it
  typedef Jet<double, 2> J; J a[3], p[3], r[3]; int zero = vp_choose("zero", 2); for (int i = 0; i < 3; ++i) { a[i].a = zero ? 0 : vp_real_in("a", -4, 4); p[i].a = c9("p"); for (int k = 0; k < 2; ++k) { a[i].v[k] = vp_real("da"); p[i].v[k] = vp_real("dp"); } }
  if (!zero) vp_assume(a[0].a * a[0].a + a[1].a * a[1].a + a[2].a * a[2].a > 0.01);
  AngleAxisRotatePoint(a, p, r);
  if (zero) for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; vp_check_eq(r[i].a, p[i].a, "value"); for (int d = 0; d < 2; ++d) vp_check_eq(r[i].v[d], p[i].v[d] + a[j].v[d] * p[k].a - a[k].v[d] * p[j].a, "derivative at the origin"); }
  else { double A[3], P[3], R[3]; for (int i = 0; i < 3; ++i) { A[i] = a[i].a; P[i] = p[i].a; } AngleAxisRotatePoint(A, P, R); for (int i = 0; i < 3; ++i) vp_check_eq(r[i].a, R[i], "value");
    // length is preserved to first order: r.dr == p.dp
    for (int d = 0; d < 2; ++d) { double s = 0, u = 0; for (int i = 0; i < 3; ++i) { s += r[i].a * r[i].v[d]; u += p[i].a * p[i].v[d]; } vp_check_eq(s, u, "derivative preserves length"); } }
}
// @run alias
extern "C" void alias() {  // in place
  double a[3], p[3] = {c9("p"), c9("q"), c9("r")}, o[3], z[4], w[4], v[4]; int zero = vp_choose("zero", 2); for (double& t : a) t = zero ? 0 : vp_real_in("a", -4, 4); if (!zero) vp_assume(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] > 0.01);
  AngleAxisRotatePoint(a, p, o); AngleAxisRotatePoint(a, p, p); for (int k = 0; k < 3; ++k) vp_check_eq(p[k], o[k], "rotation in place");
  for (double& t : z) t = c9("z"); QuaternionConjugate<CeresQuaternionOrder>(z, w); for (int k = 0; k < 4; ++k) v[k] = z[k]; QuaternionConjugate<CeresQuaternionOrder>(v, v); for (int k = 0; k < 4; ++k) vp_check_eq(v[k], w[k], "conjugate in place");
  for (int k = 0; k < 4; ++k) v[k] = z[k]; QuaternionConjugate<EigenQuaternionOrder>(z, w); QuaternionConjugate<EigenQuaternionOrder>(v, v); for (int k = 0; k < 4; ++k) vp_check_eq(v[k], w[k], "conjugate in place");
  double i[4] = {1, 0, 0, 0}; UnitQuaternionRotatePoint(i, p, o); for (int k = 0; k < 3; ++k) vp_check_eq(o[k], p[k], "identity");
}
