// Jet arithmetic and elementary functions: value part equals the scalar
// function, derivative part equals the calculus derivative times the tangent.
#include "vp.h"
#include "ceres/jet.h"
#include <cmath>
#include <limits>
// @bound Jet<double,2> and Jet<double,3>; every scalar and every tangent component is symbolic over all reals of the function's domain; pow exponents: symbolic real, plus the integers -3..3; Bessel orders 0,1,2,3,5; hypot/atan2 away from the origin
using ceres::Jet;
typedef Jet<double, 2> J;
static J in(const char* n) { J x; x.a = vp_real(n); x.v[0] = vp_real("d0"); x.v[1] = vp_real("d1"); return x; }
static void eq(const J& r, double a, double d0, double d1, const char* id) { vp_check_eq(r.a, a, id); vp_check_eq(r.v[0], d0, id); vp_check_eq(r.v[1], d1, id); }
#define UN(r, val, der, id) eq(r, val, (der) * x.v[0], (der) * x.v[1], id)
// @run arith
extern "C" void arith() {
  J x = in("x"), y = in("y"); double s = vp_real("s");
  auto bin = [&](const J& r, double v, double dx, double dy, const char* id) { eq(r, v, dx * x.v[0] + dy * y.v[0], dx * x.v[1] + dy * y.v[1], id); };
  bin(+x, x.a, 1, 0, "+x"); bin(-x, -x.a, -1, 0, "-x");
  bin(x + y, x.a + y.a, 1, 1, "x+y"); bin(x - y, x.a - y.a, 1, -1, "x-y"); bin(x * y, x.a * y.a, y.a, x.a, "x*y");
  bin(x + s, x.a + s, 1, 0, "x+s"); bin(s + x, x.a + s, 1, 0, "s+x"); bin(x - s, x.a - s, 1, 0, "x-s"); bin(s - x, s - x.a, -1, 0, "s-x");
  bin(x * s, x.a * s, s, 0, "x*s"); bin(s * x, x.a * s, s, 0, "s*x");
  J z = x; z += y; bin(z, x.a + y.a, 1, 1, "+="); z = x; z -= y; bin(z, x.a - y.a, 1, -1, "-="); z = x; z *= y; bin(z, x.a * y.a, y.a, x.a, "*=");
  z = x; z += s; bin(z, x.a + s, 1, 0, "+=s"); z = x; z -= s; bin(z, x.a - s, 1, 0, "-=s"); z = x; z *= s; bin(z, x.a * s, s, 0, "*=s");
  z = x; z += z; bin(z, 2 * x.a, 2, 0, "x+=x"); z = x; z *= z; bin(z, x.a * x.a, 2 * x.a, 0, "x*=x"); z = x; z -= z; bin(z, 0, 0, 0, "x-=x");
  vp_assume(y.a != 0); vp_assume(s != 0);
  double i = 1 / y.a;
  bin(x / y, x.a * i, i, -x.a * i * i, "x/y"); bin(s / y, s * i, 0, -s * i * i, "s/y"); bin(x / s, x.a / s, 1 / s, 0, "x/s");
  z = x; z /= y; bin(z, x.a * i, i, -x.a * i * i, "/="); z = x; z /= s; bin(z, x.a / s, 1 / s, 0, "/=s");
  z = y; z /= z; eq(z, 1, 0, 0, "y/=y");
}
// @run construct
extern "C" void construct() {
  double s = vp_real("s");
  Jet<double, 3> a; vp_check_eq(a.a, 0, "default"); for (int i = 0; i < 3; ++i) vp_check_eq(a.v[i], 0, "default");
  Jet<double, 3> b(s); vp_check_eq(b.a, s, "scalar"); for (int i = 0; i < 3; ++i) vp_check_eq(b.v[i], 0, "scalar");
  int k = vp_choose("k", 3);
  Jet<double, 3> c(s, k); vp_check_eq(c.a, s, "variable"); for (int i = 0; i < 3; ++i) vp_check_eq(c.v[i], i == k ? 1 : 0, "variable");
  Eigen::Vector3d v(vp_real("v0"), vp_real("v1"), vp_real("v2"));
  Jet<double, 3> d(s, v); vp_check_eq(d.a, s, "vector"); for (int i = 0; i < 3; ++i) vp_check_eq(d.v[i], v[i], "vector");
  vp_check((Jet<double, 3>::DIMENSION) == 3, "dimension");
}
// @run compare
extern "C" void compare() {
  J x = in("x"), y = in("y"); double s = vp_real("s");
#define CMP(op, n) vp_check((x op y) == (x.a op y.a), n "JJ"); vp_check((x op s) == (x.a op s), n "Js"); vp_check((s op x) == (s op x.a), n "sJ"); vp_check((x op 2) == (x.a op 2.0), n "Ji");
  switch (vp_choose("op", 6)) { case 0: CMP(<, "<") break; case 1: CMP(<=, "<=") break; case 2: CMP(>, ">") break; case 3: CMP(>=, ">=") break; case 4: CMP(==, "==") break; default: CMP(!=, "!=") }
}
// @run classify ieee
extern "C" void classify() {
  J x; x.a = vp_double("x"); x.v[0] = vp_double("d0"); x.v[1] = vp_double("d1"); J y; y.a = vp_double("y"); y.v[0] = vp_double("e0"); y.v[1] = 0;
  double a = x.a, b = y.a;
  vp_check(ceres::isnan(x) == (a != a), "isnan"); vp_check(ceres::isinf(x) == (std::fabs(a) > 1.7976931348623157e308), "isinf");
  vp_check(ceres::isfinite(x) == (std::fabs(a) <= 1.7976931348623157e308), "isfinite"); vp_check(ceres::isnormal(x) == (std::fabs(a) <= 1.7976931348623157e308 && std::fabs(a) >= 2.2250738585072014e-308), "isnormal");
  vp_check(ceres::signbit(x) == (bool)__builtin_signbit(a), "signbit");
  vp_check(ceres::isless(x, y) == (a < b), "isless"); vp_check(ceres::isgreater(x, y) == (a > b), "isgreater"); vp_check(ceres::islessequal(x, y) == (a <= b), "islessequal"); vp_check(ceres::isgreaterequal(x, y) == (a >= b), "isgreaterequal");
  vp_check(ceres::islessgreater(x, y) == (a < b || a > b), "islessgreater"); vp_check(ceres::isunordered(x, y) == (a != a || b != b), "isunordered");
  vp_check(ceres::isless(x, b) == (a < b) && ceres::isless(a, y) == (a < b) && ceres::isgreater(x, b) == (a > b) && ceres::isgreater(a, y) == (a > b), "mixed");
  vp_check(ceres::islessequal(x, b) == (a <= b) && ceres::isgreaterequal(a, y) == (a >= b) && ceres::isunordered(x, b) == (a != a || b != b) && ceres::islessgreater(a, y) == (a < b || a > b), "mixed2");
  int c = ceres::fpclassify(x);
  vp_check((c == FP_NAN) == (a != a), "fpclassify nan"); vp_check((c == FP_ZERO) == (a == 0), "fpclassify zero"); vp_check((c == FP_INFINITE) == (std::fabs(a) > 1.7976931348623157e308), "fpclassify inf");
  vp_check((c == FP_SUBNORMAL) == (a != 0 && std::fabs(a) < 2.2250738585072014e-308), "fpclassify subnormal");
  vp_check(ceres::IsFinite(x) == ceres::isfinite(x) && ceres::IsInfinite(x) == ceres::isinf(x) && ceres::IsNaN(x) == ceres::isnan(x) && ceres::IsNormal(x) == ceres::isnormal(x), "legacy names");
}
// @run minmax
extern "C" void minmax() {
  J x = in("x"), y = in("y"); double s = y.a;
  J M = fmax(x, y), m = fmin(x, y), d = fdim(x, y);
  if (vp_decide(x.a > y.a)) { eq(M, x.a, x.v[0], x.v[1], "fmax>"); eq(m, y.a, y.v[0], y.v[1], "fmin>"); eq(d, x.a - y.a, x.v[0] - y.v[0], x.v[1] - y.v[1], "fdim>"); eq(fmax(x, s), x.a, x.v[0], x.v[1], "fmaxs"); eq(fmin(x, s), s, 0, 0, "fmins"); eq(fdim(x, s), x.a - s, x.v[0], x.v[1], "fdims"); eq(fmax(s, x), x.a, x.v[0], x.v[1], "sfmax"); eq(fmin(s, x), s, 0, 0, "sfmin"); eq(fdim(s, x), 0, 0, 0, "sfdim"); }
  else if (vp_decide(x.a < y.a)) { eq(M, y.a, y.v[0], y.v[1], "fmax<"); eq(m, x.a, x.v[0], x.v[1], "fmin<"); eq(d, 0, 0, 0, "fdim<"); eq(fmax(x, s), s, 0, 0, "fmaxs<"); eq(fmin(x, s), x.a, x.v[0], x.v[1], "fmins<"); eq(fdim(x, s), 0, 0, 0, "fdims<"); eq(fdim(s, x), s - x.a, -x.v[0], -x.v[1], "sfdim<"); }
  else { eq(M, x.a, (x.v[0] + y.v[0]) / 2, (x.v[1] + y.v[1]) / 2, "fmax="); eq(m, x.a, (x.v[0] + y.v[0]) / 2, (x.v[1] + y.v[1]) / 2, "fmin="); eq(d, 0, 0, 0, "fdim="); eq(fmax(x, s), x.a, x.v[0] / 2, x.v[1] / 2, "fmaxs="); eq(fmin(s, x), x.a, x.v[0] / 2, x.v[1] / 2, "sfmin="); }
}
// @run minmaxnan
extern "C" void minmaxnan() {
  J x = in("x"); J n(std::numeric_limits<double>::quiet_NaN()); n.v[0] = vp_real("n0"); n.v[1] = vp_real("n1");
  eq(fmax(x, n), x.a, x.v[0], x.v[1], "fmax(x,nan)"); eq(fmax(n, x), x.a, x.v[0], x.v[1], "fmax(nan,x)"); eq(fmin(x, n), x.a, x.v[0], x.v[1], "fmin(x,nan)"); eq(fmin(n, x), x.a, x.v[0], x.v[1], "fmin(nan,x)");
  vp_check(std::isnan(fdim(x, n).a) && std::isnan(fdim(n, x).a), "fdim nan");
  typedef std::numeric_limits<J> L; typedef std::numeric_limits<double> D;
  eq(L::min(), D::min(), 0, 0, "min"); eq(L::max(), D::max(), 0, 0, "max"); eq(L::lowest(), D::lowest(), 0, 0, "lowest"); eq(L::epsilon(), D::epsilon(), 0, 0, "epsilon"); eq(L::infinity(), D::infinity(), 0, 0, "infinity"); eq(L::denorm_min(), D::denorm_min(), 0, 0, "denorm_min"); eq(L::round_error(), D::round_error(), 0, 0, "round_error"); vp_check(std::isnan(L::quiet_NaN().a), "qnan");
  vp_check(L::digits == D::digits && L::is_signed && !L::is_integer && L::digits10 == D::digits10 && L::max_exponent == D::max_exponent, "limits");
}
// @run elem1
extern "C" void elem1() {
  J x = in("x"); double a = x.a;
  switch (vp_choose("fn", 15)) {
    case 0: vp_assume(a != 0); UN(abs(x), std::fabs(a), vp_decide(a > 0) ? 1.0 : -1.0, "abs"); break;
    case 1: vp_assume(a > 0); UN(log(x), std::log(a), 1 / a, "log"); break;
    case 2: vp_assume(a > 0); UN(log10(x), std::log10(a), 1 / (a * std::log(10.0)), "log10"); break;
    case 3: vp_assume(a > 0); UN(log2(x), std::log2(a), 1 / (a * std::log(2.0)), "log2"); break;
    case 4: vp_assume(a > -1); UN(log1p(x), std::log1p(a), 1 / (1 + a), "log1p"); break;
    case 5: UN(exp(x), std::exp(a), std::exp(a), "exp"); break;
    case 6: UN(expm1(x), std::expm1(a), std::exp(a), "expm1"); break;
    case 7: UN(exp2(x), std::exp2(a), std::exp2(a) * std::log(2.0), "exp2"); break;
    case 8: vp_assume(a > 0); UN(sqrt(x), std::sqrt(a), 0.5 / std::sqrt(a), "sqrt"); break;
    case 9: vp_assume(a != 0); vp_decide(a > 0); UN(cbrt(x), std::cbrt(a), 1 / (3 * std::cbrt(a * a)), "cbrt"); break;
    case 10: UN(norm(x), a * a, 2 * a, "norm"); break;
    case 11: { double lo = vp_int("k", -3, 3); int k = vp_concretize((int)lo); vp_assume(a > k); vp_assume(a < k + 1); eq(floor(x), k, 0, 0, "floor"); eq(ceil(x), k + 1, 0, 0, "ceil"); break; }
    case 12: case 13: {
      double d = x.v[1] = vp_real_in("d", -1, 1), g = std::exp(-(a * a)) * 1.1283791670955126; J e = erf(x), ec = erfc(x);
      vp_check_eq(e.a, std::erf(a), "erf"); vp_check_eq(ec.a, std::erfc(a), "erfc");
      vp_check_le(std::fabs(e.v[1] - g * d), 1e-12, "erf'"); vp_check_le(std::fabs(ec.v[1] + g * d), 1e-12, "erfc'"); break; }
    default: { J y = in("y"); vp_assume(y.a != 0); vp_assume(a != 0); double sa = vp_decide(a > 0) ? 1 : -1, sb = vp_decide(y.a > 0) ? 1 : -1; eq(copysign(x, y), sa * sb * a, sa * sb * x.v[0], sa * sb * x.v[1], "copysign"); }
  }
}
// @run trig
extern "C" void trig() {
  J x = in("x"); double a = x.a, s, c, t;
  switch (vp_choose("fn", 10)) {
    case 0: UN(cos(x), std::cos(a), -std::sin(a), "cos"); break;
    case 1: UN(sin(x), std::sin(a), std::cos(a), "sin"); break;
    case 2: c = std::cos(a); vp_assume(c != 0); UN(tan(x), std::sin(a) / c, 1 / (c * c), "tan"); break;
    case 3: vp_assume(a > -1); vp_assume(a < 1); UN(acos(x), std::acos(a), -1 / std::sqrt(1 - a * a), "acos"); break;
    case 4: vp_assume(a > -1); vp_assume(a < 1); UN(asin(x), std::asin(a), 1 / std::sqrt(1 - a * a), "asin"); break;
    case 5: UN(atan(x), std::atan(a), 1 / (1 + a * a), "atan"); break;
    case 6: UN(sinh(x), std::sinh(a), std::cosh(a), "sinh"); break;
    case 7: UN(cosh(x), std::cosh(a), std::sinh(a), "cosh"); break;
    case 8: t = std::tanh(a); c = std::cosh(a); UN(tanh(x), t, 1 / (c * c), "tanh"); break;
    default: { J y = in("y"); double r = a * a + y.a * y.a; vp_assume(r > 0); eq(atan2(y, x), std::atan2(y.a, a), (a * y.v[0] - y.a * x.v[0]) / r, (a * y.v[1] - y.a * x.v[1]) / r, "atan2"); }
  }
}
// @run multi
extern "C" void multi() {
  J x = in("x"), y = in("y"), z = in("z");
  eq(fma(x, y, z), x.a * y.a + z.a, y.a * x.v[0] + x.a * y.v[0] + z.v[0], y.a * x.v[1] + x.a * y.v[1] + z.v[1], "fma");
  vp_assume(x.a * x.a + y.a * y.a > 0);
  double h = std::sqrt(x.a * x.a + y.a * y.a);
  J r = hypot(x, y); vp_check_eq(r.a * r.a, h * h, "hypot value"); vp_check_le(0, r.a, "hypot sign"); eq(r, r.a, (x.a * x.v[0] + y.a * y.v[0]) / r.a, (x.a * x.v[1] + y.a * y.v[1]) / r.a, "hypot");
  J q = hypot(x, y, z); vp_check_eq(q.a * q.a, h * h + z.a * z.a, "hypot3 value"); vp_check_le(0, q.a, "hypot3 sign"); eq(q, q.a, (x.a * x.v[0] + y.a * y.v[0] + z.a * z.v[0]) / q.a, (x.a * x.v[1] + y.a * y.v[1] + z.a * z.v[1]) / q.a, "hypot3");
}
// @run power
extern "C" void power() {
  J x = in("x"), y = in("y"); double p = vp_real("p");
  switch (vp_choose("case", 9)) {
    case 0: vp_assume(x.a > 0); { double v = std::pow(x.a, p); UN(pow(x, p), v, p * v / x.a, "pow(J,s)"); } break;
    case 1: vp_assume(p > 0); { double v = std::pow(p, x.a); UN(pow(p, x), v, v * std::log(p), "pow(s,J)"); } break;
    case 2: vp_assume(x.a > 0); { double v = std::pow(x.a, y.a), l = std::log(x.a); J r = pow(x, y); vp_check_eq(r.a, v, "pow(J,J) value"); for (int i = 0; i < 2; ++i) vp_check_eq(r.v[i], y.a * v / x.a * x.v[i] + v * l * y.v[i], "pow(J,J)"); } break;
    case 3: { int k = vp_choose("k", 7) - 3; vp_assume(x.a != 0); double v = 1; for (int i = 0; i < std::abs(k); ++i) v *= x.a; if (k < 0) v = 1 / v; UN(pow(x, (double)k), v, k * v / x.a, "pow(J,int)"); } break;
    case 4: { int k = vp_choose("k", 7) - 3; vp_assume(x.a < 0); double v = 1; for (int i = 0; i < std::abs(k); ++i) v *= x.a; if (k < 0) v = 1 / v; J e((double)k); J r = pow(x, e); UN(r, v, k * v / x.a, "pow(neg J, const int J)");
      e.v[1] = vp_real("e1"); vp_assume(e.v[1] != 0); r = pow(x, e); vp_check_eq(r.a, v, "pow(neg,int jet) value"); vp_check_eq(r.v[0], k * v / x.a * x.v[0], "pow(neg,int jet) d0"); vp_check(std::isnan(r.v[1]), "pow(neg, varying int) is NaN"); } break;
    case 5: { J z; z.v = x.v; vp_assume(y.a > 1); eq(pow(z, y), 0, 0, 0, "0^(g>1)"); J one(1.0); one.v = y.v; eq(pow(z, one), 0, x.v[0], x.v[1], "0^1"); } break;
    case 6: vp_assume(y.a > 0); eq(pow(0.0, y), 0, 0, 0, "scalar 0^g"); break;
    case 7: { vp_assume(p < 0); int k = vp_choose("k", 5) - 2; J e((double)k); double v = 1; for (int i = 0; i < std::abs(k); ++i) v *= p; if (k < 0) v = 1 / v; eq(pow(p, e), v, 0, 0, "neg^const int"); e.v[0] = vp_real("e0"); vp_assume(e.v[0] != 0); J r = pow(p, e); vp_check_eq(r.a, v, "neg^int value"); vp_check(std::isnan(r.v[0]) && r.v[1] == 0, "neg^varying int"); } break;
    default: { J z; z.v = x.v; vp_assume(y.a > 0); vp_assume(y.a < 1); vp_assume(y.v[0] != 0); J r = pow(z, y); vp_check_eq(r.a, 0, "0^(0<g<1) value"); vp_check(!std::isfinite(r.v[0]), "0^(0<g<1) derivative not finite"); } break;
  }
}
// @run bessel
extern "C" void bessel() {
  J x = in("x"); double a = x.a; vp_assume(a >= 0);
  switch (vp_choose("n", 7)) {
    case 6: vp_assume(a > 0); UN(ceres::cyl_bessel_j(0, x), std::cyl_bessel_j(0, a), -std::cyl_bessel_j(1, a), "cyl J0"); break;
    case 4: UN(ceres::BesselJn(1, x), jn(1, a), 0.5 * (jn(0, a) - jn(2, a)), "Jn1"); break;
    case 5: UN(ceres::BesselJn(5, x), jn(5, a), 0.5 * (jn(4, a) - jn(6, a)), "Jn5"); break;
    case 0: UN(ceres::BesselJ0(x), j0(a), -j1(a), "J0"); break;
    case 1: UN(ceres::BesselJ1(x), j1(a), 0.5 * (j0(a) - jn(2, a)), "J1"); break;
    case 2: UN(ceres::BesselJn(2, x), jn(2, a), 0.5 * (jn(1, a) - jn(3, a)), "J2"); break;
    default: UN(ceres::BesselJn(3, x), jn(3, a), 0.5 * (jn(2, a) - jn(4, a)), "J3");
  }
}
// @run chain
extern "C" void chain() {  // a composite expression: the chain rule through nested functions
  J x = in("x"), y = in("y");
  J r = sin(x * y) * exp(y) / (1.0 + x * x);
  double u = x.a * y.a, e = std::exp(y.a), q = 1 + x.a * x.a, s = std::sin(u), c = std::cos(u);
  double dx = c * y.a * e / q - s * e * 2 * x.a / (q * q), dy = c * x.a * e / q + s * e / q;
  eq(r, s * e / q, dx * x.v[0] + dy * y.v[0], dx * x.v[1] + dy * y.v[1], "chain");
  Jet<J, 1> n(x, 0); n = n * n * n;   // nested jets: second derivatives
  vp_check_eq(n.v[0].a, 3 * x.a * x.a, "nested first"); vp_check_eq(n.v[0].v[0], 6 * x.a * x.v[0], "nested second");
}
