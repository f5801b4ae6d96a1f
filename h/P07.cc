// Robust loss functions: value, derivatives, ownership.
#include "vp.h"
#include <cmath>
#include <memory>
#include "ceres/loss_function.h"
// @bound squared norm s in [0, 100]; scales a in [1/8, 8] (TolerantLoss: a in [0, 4], b in [1/8, 4]); compositions and scalings of arbitrary inner losses (the three values of each are free variables)
using namespace ceres;
static double S() { return vp_real_in("s", 0, 100); }
static double A() { return vp_real_in("a", 0.125, 8); }
struct R3 { double b[5] = {77, 77, 77, 77, 77}; double operator[](int i) const { return b[i + 1]; } };
static R3 ev(const LossFunction& l, double s) { R3 r; l.Evaluate(s, r.b + 1); vp_check(r.b[0] == 77 && r.b[4] == 77, "bounds"); return r; }
static void origin(const LossFunction& l) { R3 r = ev(l, 0); vp_check_eq(r[0], 0, "rho(0) = 0"); vp_check_eq(r[1], 1, "rho'(0) = 1"); }
static void shape(const R3& r, bool strict = true) { if (strict) vp_check(r[1] > 0, "rho' positive"); else vp_check_le(0, r[1], "rho' nonnegative"); vp_check_le(r[1], 1, "rho' at most one"); vp_check_le(r[2], 0, "rho'' not positive"); }
// @run trivial
extern "C" void trivial() { TrivialLoss l; double s = S(); R3 r = ev(l, s); vp_check_eq(r[0], s, "value"); vp_check_eq(r[1], 1, "first"); vp_check_eq(r[2], 0, "second"); }
// @run huber
extern "C" void huber() {
  double a = A(), s = S(); HuberLoss l(a); origin(l); R3 r = ev(l, s); shape(r);
  if (vp_decide(s <= a * a)) { vp_check_eq(r[0], s, "inlier value"); vp_check_eq(r[1], 1, "inlier first"); vp_check_eq(r[2], 0, "inlier second"); }
  else { double q = std::sqrt(s); vp_check_eq(r[0], 2 * a * q - a * a, "outlier value"); vp_check_eq(r[1] * q, a, "first"); vp_check_eq(r[2] * 2 * s * q, -a, "second"); vp_check_le(r[0], s, "never above s"); }
}
// @run softl1
extern "C" void softl1() { double a = A(), s = S(); SoftLOneLoss l(a); origin(l); R3 r = ev(l, s); shape(r); double q = std::sqrt(1 + s / (a * a)); vp_check_eq(r[0], 2 * a * a * (q - 1), "value"); vp_check_eq(r[1] * q, 1, "first"); vp_check_eq(r[2] * 2 * a * a * q * q * q, -1, "second"); }
// @run cauchy
extern "C" void cauchy() { double a = A(), s = S(); CauchyLoss l(a); origin(l); R3 r = ev(l, s); shape(r); double q = 1 + s / (a * a); vp_check_eq(r[0], a * a * std::log(q), "value"); vp_check_eq(r[1] * q, 1, "first"); vp_check_eq(r[2] * q * q * a * a, -1, "second"); }
// @run arctan
extern "C" void arctan() { double a = A(), s = S(); ArctanLoss l(a); origin(l); R3 r = ev(l, s); shape(r); double q = 1 + s * s / (a * a); vp_check_eq(r[0], a * std::atan2(s, a), "value"); vp_check_eq(r[1] * q, 1, "first"); vp_check_eq(r[2] * q * q * a * a, -2 * s, "second"); }
// @run tolerant
extern "C" void tolerant() {
  double a = vp_real_in("a", 0, 4), b = vp_real_in("b", 0.125, 4), s = S(); TolerantLoss l(a, b); double c = b * std::log(1 + std::exp(-a / b)); { R3 z = ev(l, 0); vp_check_eq(z[0], 0, "rho(0) = 0"); }
  R3 r = ev(l, s); double x = (s - a) / b; if (vp_decide(x > 36.7)) { vp_check_eq(r[0], s - a - c, "linear tail"); vp_check_eq(r[1], 1, "first"); vp_check_eq(r[2], 0, "second"); }
  else { double e = std::exp(x); vp_check_eq(r[0], b * std::log(1 + e) - c, "value"); vp_check_eq(r[1] * (1 + e), e, "first"); vp_check_eq(r[2] * b * (1 + e) * (1 + e), e, "second"); vp_check(r[1] > 0, "increasing"); }
}
// @run tukey
extern "C" void tukey() {
  double a = A(), s = S(); TukeyLoss l(a); origin(l); R3 r = ev(l, s); shape(r, false); double q = a * a;
  if (vp_decide(s <= q)) { double v = 1 - s / q; vp_check_eq(r[0], q / 3 * (1 - v * v * v), "value"); vp_check_eq(r[1], v * v, "first"); vp_check_eq(r[2], -2 / q * v, "second"); }
  else { vp_check_eq(r[0], q / 3, "constant tail"); vp_check_eq(r[1], 0, "first"); vp_check_eq(r[2], 0, "second"); }
}
static int dead;
struct Any : LossFunction { double k[3], at = 0; mutable double seen = -1; Any() { for (double& v : k) v = vp_real("rho"); } ~Any() override { ++dead; } void Evaluate(double s, double* o) const override { seen = s; for (int i = 0; i < 3; ++i) o[i] = k[i]; } };
// @run composed
extern "C" void composed() {  // f(g(s)) by the chain rule, for any f and g; owned parts are deleted once
  Any *f = new Any, *g = new Any; int of = vp_choose("own f", 2), og = vp_choose("own g", 2); double s = S(); dead = 0;
  { ComposedLoss l(f, of ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP, g, og ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP); R3 r = ev(l, s); vp_check_eq(g->seen, s, "g sees s"); vp_check_eq(f->seen, g->k[0], "f sees g(s)");
    vp_check_eq(r[0], f->k[0], "value"); vp_check_eq(r[1], f->k[1] * g->k[1], "first"); vp_check_eq(r[2], f->k[2] * g->k[1] * g->k[1] + f->k[1] * g->k[2], "second"); }
  vp_check(dead == of + og, "owned losses deleted"); if (!of) delete f; if (!og) delete g; vp_check(dead == 2, "owned losses deleted");
}
// @run scaled
extern "C" void scaled() {
  int null = vp_choose("null", 2), own = vp_choose("own", 2); Any* f = null ? nullptr : new Any; double a = vp_real("a"), s = S(); dead = 0;
  { ScaledLoss l(f, a, own ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP); R3 r = ev(l, s); if (f) for (int i = 0; i < 3; ++i) vp_check_eq(r[i], a * f->k[i], "scaled"); else { vp_check_eq(r[0], a * s, "scaled identity"); vp_check_eq(r[1], a, "scaled identity"); vp_check_eq(r[2], 0, "scaled identity"); } }
  vp_check(dead == (f && own), "owned loss deleted"); if (f && !own) delete f;
}
// @run wrapper
extern "C" void wrapper() {
  Any *f = new Any, *g = vp_choose("second null", 2) ? nullptr : new Any; int own = vp_choose("own", 2), own2 = vp_choose("own2", 2); double s = S(); dead = 0; long live;
  { LossFunctionWrapper w(f, own ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP); R3 r = ev(w, s); for (int i = 0; i < 3; ++i) vp_check_eq(r[i], f->k[i], "forwards");
    w.Reset(g, own2 ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP); vp_check(dead == own, "the old loss goes when reset"); R3 q = ev(w, s); if (g) for (int i = 0; i < 3; ++i) vp_check_eq(q[i], g->k[i], "forwards"); else { vp_check_eq(q[0], s, "null is trivial"); vp_check_eq(q[1], 1, "null is trivial"); vp_check_eq(q[2], 0, "null is trivial"); } }
  vp_check(dead == own + (g && own2), "owned losses deleted"); if (!own) delete f; if (g && !own2) delete g;
}
// In machine arithmetic the slope stays positive however large s is.
static void slope(const LossFunction& l) { double s = vp_real("s"); vp_assume(s >= 0 && std::isfinite(s)); double o[3]; l.Evaluate(s, o); vp_check(o[1] > 0, "rho' positive"); }
// @run bits_huber ieee
extern "C" void bits_huber() { slope(HuberLoss(0.75)); }
// @run bits_softl1 ieee
extern "C" void bits_softl1() { slope(SoftLOneLoss(0.75)); }
// @run bits_cauchy ieee
extern "C" void bits_cauchy() { slope(CauchyLoss(0.75)); }
// @run bits_arctan ieee
extern "C" void bits_arctan() { slope(ArctanLoss(0.75)); }
