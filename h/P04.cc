// Rotation representations: conversions agree with each other.
#include "vp.h"
#include <cmath>
#include "ceres/rotation.h"
#include "ceres/jet.h"
// @bound any finite quaternion with norm at least 1e-3 (unit where the function requires it), any axis-angle vector with |coordinate| <= 8 (norm-unrestricted trigonometry), any rotation matrix, all 24 Euler systems with angles in [-4, 4], both coefficient orders, row-major / column-major / 3x4 strides; exact real arithmetic with sin, cos, atan2 axiomatised (Pythagoras, parity, half and double angle, quarter-turn shifts, definition of atan2)
using namespace ceres;
template <class O> static void put(double* q, double w, double x, double y, double z) { q[O::kW] = w; q[O::kX] = x; q[O::kY] = y; q[O::kZ] = z; }
// textbook matrix of a (not necessarily unit) quaternion, times its squared norm
static void refR(double a, double b, double c, double d, double R[3][3]) {
  double M[3][3] = {{a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)}, {2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)}, {2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = M[i][j];
}
static void unit(double* w, double* x, double* y, double* z) { *x = vp_real_in("x", -1, 1); *y = vp_real_in("y", -1, 1); *z = vp_real_in("z", -1, 1); *w = vp_real_in("w", -1, 1); vp_square_rule(*w, 1 - *x * *x - *y * *y - *z * *z); }
template <class O> static void q2r() {
  double a = vp_real_in("a", -9, 9), b = vp_real_in("b", -9, 9), c = vp_real_in("c", -9, 9), d = vp_real_in("d", -9, 9), q[4], E[3][3]; put<O>(q, a, b, c, d); refR(a, b, c, d, E);
  double n = a * a + b * b + c * c + d * d; vp_assume(n > 1e-6);
  double R[14]; for (double& v : R) v = 77;
  int lay = vp_choose("layout", 4), scaled = vp_choose("scaled", 2); double s = scaled ? 1 : 1 / n;
  double* o = R + 1; auto at = [&](int i, int j) -> double& { return lay == 2 ? o[i + 3 * j] : lay == 3 ? o[4 * i + j] : o[3 * i + j]; };
  if (scaled) { switch (lay) { case 0: QuaternionToScaledRotation<O>(q, o); break; case 1: QuaternionToScaledRotation<O>(q, RowMajorAdapter3x3(o)); break; case 2: QuaternionToScaledRotation<O>(q, ColumnMajorAdapter3x3(o)); break; default: QuaternionToScaledRotation<O>(q, MatrixAdapter<double, 4, 1>(o)); } }
  else { switch (lay) { case 0: QuaternionToRotation<O>(q, o); break; case 1: QuaternionToRotation<O>(q, RowMajorAdapter3x3(o)); break; case 2: QuaternionToRotation<O>(q, ColumnMajorAdapter3x3(o)); break; default: QuaternionToRotation<O>(q, MatrixAdapter<double, 4, 1>(o)); } }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { vp_check_eq(at(i, j), s * E[i][j], "matrix of a quaternion"); at(i, j) = 77; }
  for (double v : R) vp_check(v == 77, "nothing else written");
}
// @run q2r_ceres
extern "C" void q2r_ceres() { q2r<CeresQuaternionOrder>(); }
// @run q2r_eigen
extern "C" void q2r_eigen() { q2r<EigenQuaternionOrder>(); }
template <class O> static void r2q() {
  double w, x, y, z, E[3][3]; unit(&w, &x, &y, &z); refR(w, x, y, z, E); double R[12], q[6] = {77, 77, 77, 77, 77, 77}; int lay = vp_choose("layout", 4);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) (lay == 1 ? R[3 * i + j] : lay == 3 ? R[4 * i + j] : R[i + 3 * j]) = E[i][j];
  if (lay == 0) RotationMatrixToQuaternion<O>(R, q + 1); else if (lay == 1) RotationMatrixToQuaternion<O>(MatrixAdapter<const double, 3, 1>(R), q + 1); else if (lay == 2) RotationMatrixToQuaternion<O>(MatrixAdapter<const double, 1, 3>(R), q + 1); else RotationMatrixToQuaternion<O>(MatrixAdapter<const double, 4, 1>(R), q + 1);
  vp_check(q[0] == 77 && q[5] == 77, "bounds");
  // the same rotation: q = +-(w,x,y,z)
  const double* p = q + 1; double in[4] = {w, x, y, z}, out[4] = {p[O::kW], p[O::kX], p[O::kY], p[O::kZ]};
  for (int i = 0; i < 4; ++i) for (int j = 0; j <= i; ++j) vp_check_eq(out[i] * out[j], in[i] * in[j], "quaternion of a rotation matrix");
}
// @run r2q_ceres
extern "C" void r2q_ceres() { r2q<CeresQuaternionOrder>(); }
// @run r2q_eigen
extern "C" void r2q_eigen() { r2q<EigenQuaternionOrder>(); }
template <class O> static void aaq() {  // axis-angle to quaternion: cos and sin of the half angle along the axis
  double a[3] = {vp_real_in("a", -8, 8), vp_real_in("b", -8, 8), vp_real_in("c", -8, 8)}, q[6] = {77, 77, 77, 77, 77, 77}; AngleAxisToQuaternion<O>(a, q + 1); vp_check(q[0] == 77 && q[5] == 77, "bounds");
  const double* p = q + 1; double t = std::hypot(a[0], a[1], a[2]); static const int ix[3] = {O::kX, O::kY, O::kZ};
  if (vp_decide(t == 0)) { vp_check_eq(p[O::kW], 1, "identity"); for (int i = 0; i < 3; ++i) vp_check_eq(p[ix[i]], 0, "identity"); return; }
  double h = t * 0.5; vp_check_eq(p[O::kW], std::cos(h), "w"); for (int i = 0; i < 3; ++i) vp_check_eq(p[ix[i]] * t, a[i] * std::sin(h), "axis part");
  double R[9], E[3][3]; AngleAxisToRotationMatrix(a, R); refR(p[O::kW], p[O::kX], p[O::kY], p[O::kZ], E); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_check_eq(R[i + 3 * j], E[i][j], "same rotation matrix");
}
// @run aaq_ceres
extern "C" void aaq_ceres() { aaq<CeresQuaternionOrder>(); }
// @run aaq_eigen
extern "C" void aaq_eigen() { aaq<EigenQuaternionOrder>(); }
template <class O> static void qaa() {  // quaternion to axis-angle: the same rotation, at most half a turn
  double w, x, y, z, q[4], a[5] = {77, 77, 77, 77, 77}; unit(&w, &x, &y, &z); put<O>(q, w, x, y, z); QuaternionToAngleAxis<O>(q, a + 1); vp_check(a[0] == 77 && a[4] == 77, "bounds");
  double R[9], E[3][3]; AngleAxisToRotationMatrix(a + 1, R); refR(w, x, y, z, E); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_check_eq(R[i + 3 * j], E[i][j], "same rotation matrix");
  vp_check_le(a[1] * a[1] + a[2] * a[2] + a[3] * a[3], 9.8696044011, "at most half a turn");
}
// @run qaa_ceres
extern "C" void qaa_ceres() { qaa<CeresQuaternionOrder>(); }
// @run qaa_eigen
extern "C" void qaa_eigen() { qaa<EigenQuaternionOrder>(); }
// @run raa
extern "C" void raa() {
  double w, x, y, z, E[3][3]; unit(&w, &x, &y, &z); refR(w, x, y, z, E); double R[9], S[9], a[5] = {77, 77, 77, 77, 77}; int rm = vp_choose("rowmajor", 2); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[rm ? 3 * i + j : i + 3 * j] = E[i][j];
  if (rm) { RotationMatrixToAngleAxis(MatrixAdapter<const double, 3, 1>(R), a + 1); AngleAxisToRotationMatrix(a + 1, RowMajorAdapter3x3(S)); } else { RotationMatrixToAngleAxis(R, a + 1); AngleAxisToRotationMatrix(a + 1, S); }
  vp_check(a[0] == 77 && a[4] == 77, "bounds"); for (int i = 0; i < 9; ++i) vp_check_eq(S[i], R[i], "round trip of a rotation matrix"); vp_check_le(a[1] * a[1] + a[2] * a[2] + a[3] * a[3], 9.8696044011, "at most half a turn");
}
// @run aamat
extern "C" void aamat() {  // Rodrigues
  double a[3] = {vp_real_in("a", -8, 8), vp_real_in("b", -8, 8), vp_real_in("c", -8, 8)}, R[12]; for (double& v : R) v = 77; int lay = vp_choose("layout", 3);
  if (lay == 0) AngleAxisToRotationMatrix(a, R); else if (lay == 1) AngleAxisToRotationMatrix(a, RowMajorAdapter3x3(R)); else AngleAxisToRotationMatrix(a, MatrixAdapter<double, 4, 1>(R));
  double t = std::hypot(a[0], a[1], a[2]), K[3][3] = {{0, -a[2], a[1]}, {a[2], 0, -a[0]}, {-a[1], a[0], 0}};
  bool z = vp_decide(t == 0);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double& r = lay == 0 ? R[i + 3 * j] : lay == 1 ? R[3 * i + j] : R[4 * i + j]; double kk = 0; for (int m = 0; m < 3; ++m) kk += K[i][m] * K[m][j];
    if (z) vp_check_eq(r, i == j, "zero vector is the identity"); else vp_check_eq(r * t * t, (i == j) * t * t + t * std::sin(t) * K[i][j] + (1 - std::cos(t)) * kk, "Rodrigues"); r = 77; }
  for (double v : R) vp_check(v == 77, "nothing else written");
}
static void axisrot(int ax, double t, double M[3][3]) { double c = std::cos(t), s = std::sin(t); int j = (ax + 1) % 3, k = (ax + 2) % 3; for (int i = 0; i < 3; ++i) for (int l = 0; l < 3; ++l) M[i][l] = i == l; M[j][j] = c; M[j][k] = -s; M[k][j] = s; M[k][k] = c; }
static void mul(double A[3][3], double B[3][3], double C[3][3]) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { C[i][j] = 0; for (int k = 0; k < 3; ++k) C[i][j] += A[i][k] * B[k][j]; } }
template <class S> static void euler(int a0, int a1, int a2, bool intrinsic) {
  double e[3] = {vp_real_in("e0", -4, 4), vp_real_in("e1", -4, 4), vp_real_in("e2", -4, 4)}, R[11], A[3][3], B[3][3], C[3][3], T[3][3], U[3][3]; for (double& v : R) v = 77; int cm = vp_choose("colmajor", 2);
  axisrot(a0, e[0], A); axisrot(a1, e[1], B); axisrot(a2, e[2], C);
  if (intrinsic) { mul(A, B, T); mul(T, C, U); } else { mul(C, B, T); mul(T, A, U); }
  if (cm) EulerAnglesToRotation<S>(e, ColumnMajorAdapter3x3(R + 1)); else EulerAnglesToRotation<S>(e, R + 1); vp_check(R[0] == 77 && R[10] == 77, "bounds");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_check_eq(R[1 + (cm ? i + 3 * j : 3 * i + j)], U[i][j], "product of the three axis rotations");
  // and back
  double b[5] = {77, 77, 77, 77, 77}, Q[9]; if (cm) RotationMatrixToEulerAngles<S>(MatrixAdapter<const double, 1, 3>(R + 1), b + 1); else RotationMatrixToEulerAngles<S>((const double*)R + 1, b + 1); vp_check(b[0] == 77 && b[4] == 77, "bounds");
  for (int i = 1; i < 4; ++i) { vp_check_le(b[i], 3.1415926535898, "angle range"); vp_check_le(-3.1415926535898, b[i], "angle range"); }
  EulerAnglesToRotation<S>(b + 1, Q); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_check_eq(Q[3 * i + j], U[i][j], "round trip of a rotation matrix");
}
// @run e_EXYX
extern "C" void e_EXYX() { euler<ExtrinsicXYX>(0,1,0, false); }
// @run e_IXYX
extern "C" void e_IXYX() { euler<IntrinsicXYX>(0,1,0, true); }
// @run e_EXYZ
extern "C" void e_EXYZ() { euler<ExtrinsicXYZ>(0,1,2, false); }
// @run e_IXYZ
extern "C" void e_IXYZ() { euler<IntrinsicXYZ>(0,1,2, true); }
// @run e_EXZX
extern "C" void e_EXZX() { euler<ExtrinsicXZX>(0,2,0, false); }
// @run e_IXZX
extern "C" void e_IXZX() { euler<IntrinsicXZX>(0,2,0, true); }
// @run e_EXZY
extern "C" void e_EXZY() { euler<ExtrinsicXZY>(0,2,1, false); }
// @run e_IXZY
extern "C" void e_IXZY() { euler<IntrinsicXZY>(0,2,1, true); }
// @run e_EYXY
extern "C" void e_EYXY() { euler<ExtrinsicYXY>(1,0,1, false); }
// @run e_IYXY
extern "C" void e_IYXY() { euler<IntrinsicYXY>(1,0,1, true); }
// @run e_EYXZ
extern "C" void e_EYXZ() { euler<ExtrinsicYXZ>(1,0,2, false); }
// @run e_IYXZ
extern "C" void e_IYXZ() { euler<IntrinsicYXZ>(1,0,2, true); }
// @run e_EYZX
extern "C" void e_EYZX() { euler<ExtrinsicYZX>(1,2,0, false); }
// @run e_IYZX
extern "C" void e_IYZX() { euler<IntrinsicYZX>(1,2,0, true); }
// @run e_EYZY
extern "C" void e_EYZY() { euler<ExtrinsicYZY>(1,2,1, false); }
// @run e_IYZY
extern "C" void e_IYZY() { euler<IntrinsicYZY>(1,2,1, true); }
// @run e_EZXY
extern "C" void e_EZXY() { euler<ExtrinsicZXY>(2,0,1, false); }
// @run e_IZXY
extern "C" void e_IZXY() { euler<IntrinsicZXY>(2,0,1, true); }
// @run e_EZXZ
extern "C" void e_EZXZ() { euler<ExtrinsicZXZ>(2,0,2, false); }
// @run e_IZXZ
extern "C" void e_IZXZ() { euler<IntrinsicZXZ>(2,0,2, true); }
// @run e_EZYX
extern "C" void e_EZYX() { euler<ExtrinsicZYX>(2,1,0, false); }
// @run e_IZYX
extern "C" void e_IZYX() { euler<IntrinsicZYX>(2,1,0, true); }
// @run e_EZYZ
extern "C" void e_EZYZ() { euler<ExtrinsicZYZ>(2,1,2, false); }
// @run e_IZYZ
extern "C" void e_IZYZ() { euler<IntrinsicZYZ>(2,1,2, true); }
// @run degrees
extern "C" void degrees() {
  double e[3] = {vp_real_in("e0", -200, 200), vp_real_in("e1", -200, 200), vp_real_in("e2", -200, 200)}, R[9], A[3][3], B[3][3], C[3][3], T[3][3], U[3][3]; const double d = 3.14159265358979323846 / 180.0; int cm = vp_choose("colmajor", 2);
  axisrot(0, e[0] * d, A); axisrot(1, e[1] * d, B); axisrot(2, e[2] * d, C); mul(C, B, T); mul(T, A, U);
  if (cm) EulerAnglesToRotationMatrix(e, ColumnMajorAdapter3x3(R)); else EulerAnglesToRotationMatrix(e, 3, R);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_check_eq(R[cm ? i + 3 * j : 3 * i + j], U[i][j], "Rz Ry Rx in degrees");
}
typedef Jet<double, 4> J;
// @run jets
extern "C" void jets() {  // derivatives at the origin are those of the smooth map
  J a[3], q[4], R[9], p[3], o[3]; for (int i = 0; i < 3; ++i) { a[i] = J(0.0); for (int k = 0; k < 4; ++k) a[i].v[k] = vp_real("da"); p[i] = J(vp_real("p")); for (int k = 0; k < 4; ++k) p[i].v[k] = vp_real("dp"); }
  AngleAxisToQuaternion(a, q); AngleAxisToRotationMatrix(a, R); AngleAxisRotatePoint(a, p, o); vp_check_eq(q[0].a, 1, "w");
  for (int k = 0; k < 4; ++k) { vp_check_eq(q[0].v[k], 0, "dw");
    for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, l = (i + 2) % 3; vp_check_eq(q[1 + i].v[k], 0.5 * a[i].v[k], "dq"); vp_check_eq(R[i + 3 * i].v[k], 0, "dR"); vp_check_eq(R[l + 3 * j].v[k], a[i].v[k], "dR"); vp_check_eq(R[j + 3 * l].v[k], -a[i].v[k], "dR");
      vp_check_eq(o[i].v[k], p[i].v[k] + a[j].v[k] * p[l].a - a[l].v[k] * p[j].a, "dp"); } }
  J u[4] = {J(1.0), J(0.0), J(0.0), J(0.0)}, b[3]; for (int i = 1; i < 4; ++i) for (int k = 0; k < 4; ++k) u[i].v[k] = vp_real("du"); QuaternionToAngleAxis(u, b);
  for (int i = 0; i < 3; ++i) { vp_check_eq(b[i].a, 0, "log of the identity"); for (int k = 0; k < 4; ++k) vp_check_eq(b[i].v[k], 2 * u[1 + i].v[k], "dlog"); }
}
