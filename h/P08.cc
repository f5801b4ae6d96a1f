// Robustified residuals and Jacobians.
#include "vp.h"
#include <cmath>
#include "ceres/corrector.h"
#include "ceres/loss_function.h"
// @bound 1 to 5 residuals, 1 to 2 columns, all values symbolic (|residual| <= 10); arbitrary rho' > 0 and rho'' of either sign, and the loss functions of the library
using namespace ceres; using namespace ceres::internal;
template <int R, int C> static void any() {
  double r[R + 2], J[R * C + 2], r0[R], J0[R][C], s = 0, rho[3]; r[0] = r[R + 1] = J[0] = J[R * C + 1] = 77;
  for (int i = 0; i < R; ++i) { r0[i] = vp_real_in("r", -10, 10); r[1 + i] = r0[i]; s += r0[i] * r0[i]; for (int c = 0; c < C; ++c) { J0[i][c] = vp_real_in("J", -10, 10); J[1 + i * C + c] = J0[i][c]; } }
  rho[0] = vp_real("rho0"); rho[1] = vp_real_in("rho1", 0.001, 10); rho[2] = vp_real_in("rho2", -5, 5);
  Corrector k(s, rho); k.CorrectJacobian(R, C, r + 1, J + 1); for (int i = 0; i < R; ++i) vp_check_eq(r[1 + i], r0[i], "residuals untouched by the Jacobian correction"); k.CorrectResiduals(R, r + 1);
  vp_check(r[0] == 77 && r[R + 1] == 77 && J[0] == 77 && J[R * C + 1] == 77, "bounds");
  // the gradient of 1/2 rho(|r|^2) is rho' J'r: the corrected pair must reproduce it
  for (int c = 0; c < C; ++c) { double g = 0, e = 0; for (int i = 0; i < R; ++i) { g += J[1 + i * C + c] * r[1 + i]; e += J0[i][c] * r0[i]; } vp_check_eq(g, rho[1] * e, "gradient of the robustified cost"); }
  // the Gauss-Newton matrix is rho' J'J + 2 max(rho'', 0) (J'r)(J'r)'
  bool pos = vp_decide(rho[2] > 0) && vp_decide(s > 0);
  for (int a = 0; a < C; ++a) for (int b = 0; b <= a; ++b) { double g = 0, e = 0, u = 0, v = 0; for (int i = 0; i < R; ++i) { g += J[1 + i * C + a] * J[1 + i * C + b]; e += J0[i][a] * J0[i][b]; u += J0[i][a] * r0[i]; v += J0[i][b] * r0[i]; }
    vp_check_eq(g, rho[1] * e + (pos ? 2 * rho[2] * u * v : 0), "robustified Gauss-Newton matrix"); }
  if (!pos) { double n = 0; for (int i = 0; i < R; ++i) n += r[1 + i] * r[1 + i]; vp_check_eq(n, rho[1] * s, "first order reweighting"); }
}
// @run c11
extern "C" void c11() { any<1, 1>(); }
// @run c21
extern "C" void c21() { any<2, 1>(); }
// @run c22
extern "C" void c22() { any<2, 2>(); }
// @run c31
extern "C" void c31() { any<3, 1>(); }
// @run c12
extern "C" void c12() { any<1, 2>(); }
// @run c41
extern "C" void c41() { any<4, 1>(); }
// @run c52 time=120
extern "C" void c52() { any<5, 2>(); }
// @run zero
extern "C" void zero() {  // no residual: everything scales by sqrt(rho')
  double rho[3] = {vp_real("rho0"), vp_real_in("rho1", 0, 10), vp_real_in("rho2", -5, 5)}, r[2] = {0, 0}, J[2], J0[2]; for (int i = 0; i < 2; ++i) J[i] = J0[i] = vp_real("J"); Corrector k(0, rho); k.CorrectJacobian(2, 1, r, J); k.CorrectResiduals(2, r);
  for (int i = 0; i < 2; ++i) { vp_check_eq(r[i], 0, "zero stays"); vp_check_eq(J[i] * J[i], rho[1] * J0[i] * J0[i], "scaled"); vp_check_le(0, J[i] * J0[i], "same sign"); }
}
// @run redescend
extern "C" void redescend() {  // rho' = 0 with rho'' <= 0 switches the residual off
  double rho[3] = {vp_real("rho0"), 0, vp_real_in("rho2", -5, 0)}, r[2], J[2], s = 0; for (int i = 0; i < 2; ++i) { r[i] = vp_real_in("r", -10, 10); s += r[i] * r[i]; J[i] = vp_real_in("J", -10, 10); } Corrector k(s, rho); k.CorrectJacobian(2, 1, r, J); k.CorrectResiduals(2, r); for (int i = 0; i < 2; ++i) { vp_check_eq(r[i], 0, "off"); vp_check_eq(J[i], 0, "off"); }
}
// @run huber
extern "C" void huber() {
  HuberLoss l(vp_real_in("a", 0.125, 4)); double r[2], J[2], J0[2], r0[2], s = 0, rho[3]; for (int i = 0; i < 2; ++i) { r0[i] = r[i] = vp_real_in("r", -10, 10); s += r[i] * r[i]; J0[i] = J[i] = vp_real_in("J", -10, 10); } l.Evaluate(s, rho); Corrector k(s, rho); k.CorrectJacobian(2, 1, r, J); k.CorrectResiduals(2, r);
  vp_check_eq(J[0] * r[0] + J[1] * r[1], rho[1] * (J0[0] * r0[0] + J0[1] * r0[1]), "gradient"); vp_check_le(r[0] * r[0] + r[1] * r[1], s, "never amplified");
}
