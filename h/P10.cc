// Cubic and bicubic interpolation.
#include "vp.h"
#include <cmath>
#include <vector>
#include "ceres/cubic_interpolation.h"
#include "ceres/jet.h"
// @bound grids of up to 5 values with data dimension 1 and 2, arbitrary begin index, both layouts; 2D grids 3x4 in every layout and 4x2 in two; all sample values and the position symbolic, positions up to 3 cells outside the grid on either side
using namespace ceres;
static double spline(double a, double b, double c, double d, double x) { return b + x * (0.5 * (c - a) + x * (0.5 * (2 * a - 5 * b + 4 * c - d) + x * 0.5 * (-a + 3 * b - 3 * c + d))); }
static double dspline(double a, double b, double c, double d, double x) { return 0.5 * (c - a) + x * ((2 * a - 5 * b + 4 * c - d) + x * 1.5 * (-a + 3 * b - 3 * c + d)); }
static int clampi(int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }
static int cell(double x, int lo, int hi) { for (int n = lo; n < hi; ++n) if (vp_decide(x < n + 1)) return n; return hi; }
template <bool I> static void grid1() {
  const int N = 4, D = 2; double v[N * D]; for (double& x : v) x = vp_real("v"); int begin = vp_choose("begin", 3) - 1, end = begin + N; Grid1D<double, D, I> g(v, begin, end);
  auto at = [&](int n, int k) { n = clampi(n, begin, end - 1) - begin; return I ? v[n * D + k] : v[k * N + n]; };
  double o[D + 2]; for (int n = begin - 3; n < end + 3; ++n) { o[0] = o[3] = 77; g.GetValue(n, o + 1); for (int k = 0; k < D; ++k) vp_check_eq(o[1 + k], at(n, k), "grid value, clamped at the ends"); vp_check(o[0] == 77 && o[3] == 77, "bounds"); }
  double x = vp_real_in("x", begin - 2.75, end + 1.75), f[4] = {77, 77, 77, 77}, d[4] = {77, 77, 77, 77}; int n = cell(x, begin - 3, end + 2); CubicInterpolator<Grid1D<double, D, I>> it(g); int wd = vp_choose("derivative", 2);
  it.Evaluate(x, f + 1, wd ? d + 1 : nullptr); vp_check(f[0] == 77 && f[3] == 77 && d[0] == 77 && d[3] == 77, "bounds");
  for (int k = 0; k < D; ++k) { double p[4]; for (int j = 0; j < 4; ++j) p[j] = at(n - 1 + j, k); vp_check_eq(f[1 + k], spline(p[0], p[1], p[2], p[3], x - n), "Catmull-Rom value"); if (wd) vp_check_eq(d[1 + k], dspline(p[0], p[1], p[2], p[3], x - n), "its derivative"); }
  typedef Jet<double, 2> J; J X, F[D]; X.a = x; X.v[0] = vp_real("dx"); X.v[1] = vp_real("dx"); it.Evaluate(X, F); for (int k = 0; k < D; ++k) { double p[4]; for (int j = 0; j < 4; ++j) p[j] = at(n - 1 + j, k); vp_check_eq(F[k].a, f[1 + k], "jet value"); for (int j = 0; j < 2; ++j) vp_check_eq(F[k].v[j], dspline(p[0], p[1], p[2], p[3], x - n) * X.v[j], "jet derivative"); }
}
// @run grid1i
extern "C" void grid1i() { grid1<true>(); }
// @run grid1s
extern "C" void grid1s() { grid1<false>(); }
// @run knots
extern "C" void knots() {  // interpolates the samples, with matching slope from both sides
  double v[5]; for (double& x : v) x = vp_real("v"); Grid1D<double> g(v, 0, 5); CubicInterpolator<Grid1D<double>> it(g);
  for (int n = 0; n < 5; ++n) { double f, d; it.Evaluate(n, &f, &d); vp_check_eq(f, v[n], "interpolates"); int a = clampi(n - 1, 0, 4), b = clampi(n + 1, 0, 4); vp_check_eq(d, (v[b] - v[a]) / 2, "central slope"); }
}
template <bool RM, bool I, int R = 3, int C = 4> static void grid2() {
  const int D = 2; double v[R * C * D]; for (double& x : v) x = vp_real("v"); int rb = vp_choose("row begin", 2) - 1, cb = 2; Grid2D<double, D, RM, I> g(v, rb, rb + R, cb, cb + C);
  auto at = [&](int r, int c, int k) { r = clampi(r, rb, rb + R - 1) - rb; c = clampi(c, cb, cb + C - 1) - cb; int n = RM ? r * C + c : c * R + r; return I ? v[n * D + k] : v[k * R * C + n]; };
  for (int r = rb - 2; r < rb + R + 2; ++r) for (int c = cb - 2; c < cb + C + 2; ++c) { double o[4] = {77, 77, 77, 77}; g.GetValue(r, c, o + 1); for (int k = 0; k < D; ++k) vp_check_eq(o[1 + k], at(r, c, k), "grid value, clamped at the edges"); vp_check(o[0] == 77 && o[3] == 77, "bounds"); }
  double x = vp_real_in("r", rb - 1.75, rb + R + 0.75), y = vp_real_in("c", cb - 1.75, cb + C + 0.75), f[4] = {77, 77, 77, 77}, dr[4] = {77, 77, 77, 77}, dc[4] = {77, 77, 77, 77}; int m = cell(x, rb - 2, rb + R), n = cell(y, cb - 2, cb + C); BiCubicInterpolator<Grid2D<double, D, RM, I>> it(g);
  it.Evaluate(x, y, f + 1, dr + 1, dc + 1); for (auto* b : {f, dr, dc}) vp_check(b[0] == 77 && b[3] == 77, "bounds"); double fo[D]; it.Evaluate(x, y, fo);
  typedef Jet<double, 1> J; J X, Y, F[D]; X.a = x; X.v[0] = vp_real("dr"); Y.a = y; Y.v[0] = vp_real("dc"); it.Evaluate(X, Y, F);
  for (int k = 0; k < D; ++k) { double q[4], e[4]; for (int i = 0; i < 4; ++i) { double p[4]; for (int j = 0; j < 4; ++j) p[j] = at(m - 1 + i, n - 1 + j, k); q[i] = spline(p[0], p[1], p[2], p[3], y - n); e[i] = dspline(p[0], p[1], p[2], p[3], y - n); }
    double ef = spline(q[0], q[1], q[2], q[3], x - m), er = dspline(q[0], q[1], q[2], q[3], x - m), ec = spline(e[0], e[1], e[2], e[3], x - m);
    vp_check_eq(f[1 + k], ef, "value"); vp_check_eq(fo[k], ef, "value without derivatives"); vp_check_eq(dr[1 + k], er, "row derivative"); vp_check_eq(dc[1 + k], ec, "column derivative"); vp_check_eq(F[k].a, ef, "jet value"); vp_check_eq(F[k].v[0], er * X.v[0] + ec * Y.v[0], "jet derivative"); }
}
// @run g2ri
extern "C" void g2ri() { grid2<true, true>(); }
// @run g2rs
extern "C" void g2rs() { grid2<true, false>(); }
// @run g2ci
extern "C" void g2ci() { grid2<false, true>(); }
// @run g2cs
extern "C" void g2cs() { grid2<false, false>(); }
// @run g2tall
extern "C" void g2tall() { grid2<false, false, 4, 2>(); }
// @run g2tallrow
extern "C" void g2tallrow() { grid2<true, true, 4, 2>(); }
