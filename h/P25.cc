// Polynomials of the line search: roots, interpolation and minimisation on an interval.
#include "vp.h"
#include <cmath>
#include <vector>
#include "ceres/function_sample.h"
#include "ceres/internal/eigen.h"
#include "ceres/polynomial.h"
// @bound polynomials up to degree 3 with symbolic coefficients (roots up to degree 2, leading zeros included), interpolation of up to 3 samples at fixed places with symbolic values and slopes (degree up to 5), any point of the interval; the eigenvalue route for roots of degree 3 and more is outside
using namespace ceres; using namespace ceres::internal;
static double ab(double v) { return v < 0 ? -v : v; }
static double horner(const Vector& p, double x) { double v = 0; for (int i = 0; i < p.size(); ++i) v = v * x + p[i]; return v; }
static double powers(const Vector& p, double x) { double v = 0, q = 1; for (int i = (int)p.size() - 1; i >= 0; --i) { v += p[i] * q; q *= x; } return v; }
// @run evaluate
extern "C" void evaluate() { int n = 1 + vp_choose("size", 4); Vector p(n); for (int i = 0; i < n; ++i) p[i] = vp_real("p"); double x = vp_real("x"); vp_check_eq(EvaluatePolynomial(p, x), powers(p, x), "value"); Vector d = DifferentiatePolynomial(p); vp_check(d.size() == (n > 1 ? n - 1 : 1), "degree of the derivative"); double v = 0, q = 1; for (int i = n - 2, k = 1; i >= 0; --i, ++k) { v += k * p[i] * q; q *= x; } vp_check_eq(powers(d, x), v, "derivative"); }
// @run linear
extern "C" void linear() { int z = vp_choose("leading zeros", 3); Vector p(z + 2), re, im; p.setZero(); double a = vp_real_in("a", -100, 100), b = vp_real_in("b", -100, 100); vp_assume(a != 0); p[z] = a; p[z + 1] = b; vp_check(FindPolynomialRoots(p, &re, vp_choose("imaginary", 2) ? &im : nullptr) && re.size() == 1, "one root"); vp_check_eq(a * re[0], -b, "root"); if (im.size()) vp_check(im.size() == 1 && im[0] == 0, "real"); }
// @run quadratic
extern "C" void quadratic() { int z = vp_choose("leading zeros", 2); Vector p(z + 3), re, im; p.setZero(); double a = vp_choose("sign", 2) ? vp_real_in("a", -100, -0.001) : vp_real_in("a", 0.001, 100), b = vp_real_in("b", -100, 100), c = vp_real_in("c", -100, 100); p[z] = a; p[z + 1] = b; p[z + 2] = c; vp_check(FindPolynomialRoots(p, &re, &im) && re.size() == 2 && im.size() == 2, "two roots"); double D = b * b - 4 * a * c; if (D >= 0) { vp_check(im[0] == 0 && im[1] == 0, "real"); vp_check_eq(a * (re[0] + re[1]), -b, "sum"); vp_check_eq(a * re[0] * re[1], c, "product"); } else { vp_check_eq(re[0], re[1], "conjugate"); vp_check_eq(im[0], -im[1], "conjugate"); vp_check_eq(2 * a * re[0], -b, "sum"); vp_check_eq(a * (re[0] * re[0] + im[0] * im[0]), c, "product"); } }
// @run doubleroot
extern "C" void doubleroot() { double a = vp_choose("sign", 2) ? -3 : 2, r = vp_choose("zero", 2) ? 0 : vp_real_in("r", -10, 10); Vector p(3), re, im; p << a, -2 * a * r, a * r * r; vp_check(FindPolynomialRoots(p, &re, &im) && re.size() == 2, "two roots"); for (int i = 0; i < 2; ++i) { vp_check_eq(re[i], r, "double root"); vp_check(im[i] == 0, "real"); } }
// @run constant
extern "C" void constant() { Vector p(1 + vp_choose("size", 3)), re, im, none; p.setZero(); p[p.size() - 1] = vp_choose("value", 2) ? vp_real("c") : 0; vp_check(FindPolynomialRoots(p, &re, &im) && re.size() == 0 && im.size() == 0, "no roots"); vp_check(!FindPolynomialRoots(none, &re, &im), "empty polynomial"); }
static void best(const Vector& p, double a, double b) { double x = -77, v = -77; MinimizePolynomial(p, a, b, &x, &v); vp_check_le(a, x, "in the interval"); vp_check_le(x, b, "in the interval"); vp_check_eq(v, horner(p, x), "its value"); double t = vp_real_in("t", a, b); vp_check_le(v, powers(p, t), "no point of the interval is lower"); }
// @run minimum jobs=4
extern "C" void minimum() { int n = 1 + vp_choose("size", 3); Vector p(n); for (int i = 0; i < n; ++i) p[i] = vp_real_in("p", -100, 100); if (n == 3) { double m = vp_choose("lead", 4); p[0] = m == 0 ? 0 : m == 1 ? 2 : m == 2 ? -3 : 0.125; } best(p, -1, vp_choose("width", 2) ? 2.5 : -1); }
// @run cubic jobs=8
extern "C" void cubic() { Vector p(4); p[0] = vp_choose("lead", 2) ? -1 : 2; p[1] = vp_choose("second", 2) ? 3 : -1; p[2] = vp_real_in("p", -20, 20); p[3] = vp_real_in("p", -20, 20); best(p, -1, 2); }
static const double place[3] = {0, 1, 3};
static void interp(bool minimise) { int n = 1 + vp_choose("samples", minimise ? 2 : 3); std::vector<FunctionSample> s(n); std::vector<double> v(n), g(n); std::vector<int> hv(n), hg(n); int count = 0; for (int i = 0; i < n; ++i) { s[i].x = place[i]; hv[i] = minimise ? 1 : vp_choose("value", 2); hg[i] = i < 2 ? vp_choose("slope", 2) : 0; if (minimise && i) hg[i] = 0; s[i].value_is_valid = hv[i]; s[i].gradient_is_valid = hg[i]; s[i].value = v[i] = hv[i] ? vp_real_in("v", -100, 100) : 1e9; s[i].gradient = g[i] = hg[i] ? vp_real_in("g", -100, 100) : 1e9; count += hv[i] + hg[i]; }
  int slopes = 0; for (int i = 0; i < n; ++i) slopes += hg[i]; if (count == 0 || count == slopes) vp_end(); bool gap = false; for (int i = 0; i < n; ++i) gap |= hg[i] && !hv[i]; if (gap) vp_end();
  if (!minimise) { Vector p = FindInterpolatingPolynomial(s); vp_check(p.size() == count, "degree"); for (int i = 0; i < n; ++i) { if (hv[i]) vp_check_le(ab(horner(p, place[i]) - v[i]), 1e-9, "interpolates the value"); if (hg[i]) { double d = 0; for (int k = 0; k + 1 < p.size(); ++k) d = d * place[i] + (p.size() - 1 - k) * p[k]; vp_check_le(ab(d - g[i]), 1e-9, "interpolates the slope"); } } return; }
  double x = -77, f = -77; MinimizeInterpolatingPolynomial(s, -1, 2, &x, &f); vp_check_le(-1, x, "in the interval"); vp_check_le(x, 2, "in the interval"); for (int i = 0; i < n; ++i) vp_check_le(f, v[i] + 1e-9, "no sample is lower"); Vector p = FindInterpolatingPolynomial(s); vp_check_le(f, horner(p, vp_real_in("t", -1, 2)) + 1e-6, "no point is lower"); }
// @run interpolation jobs=4
extern "C" void interpolation() { interp(false); }
// @run minimiser jobs=8
extern "C" void minimiser() { interp(true); }
// @run factorised jobs=8
extern "C" void factorised() { Vector p(4); p[0] = vp_choose("lead", 2) ? -1 : 2; for (int i = 1; i < 4; ++i) p[i] = vp_real_in("p", -20, 20); best(p, -1, 2); }
