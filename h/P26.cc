// Search directions: the formulas, the secant equation, descent and restarts.
#include "vp.h"
#include <memory>
#include <vector>
#include "ceres/internal/eigen.h"
#include "ceres/line_search_direction.h"
#include "ceres/line_search_minimizer.h"
#include "ceres/low_rank_inverse_hessian.h"
// @bound 2 parameters, histories of up to 7 updates with ranks 1 to 3; arbitrary gradients, previous directions and step sizes for the conjugate gradient formulas and the first quasi-Newton update, fixed steps with arbitrary gradient changes along them and arbitrary query vectors for longer histories
using namespace ceres; using namespace ceres::internal;
static Vector v2(double a, double b) { Vector v(2); v << a, b; return v; }
static double dot(const Vector& a, const Vector& b) { double s = 0; for (int i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static void same(const Vector& a, const Vector& b, const char* id) { for (int i = 0; i < b.size(); ++i) vp_check_eq(a[i], b[i], id); }
static double ab(double v) { return v < 0 ? -v : v; }
static void near(const Vector& a, const Vector& b, const char* id) { for (int i = 0; i < b.size(); ++i) vp_check_le(ab(a[i] - b[i]), 1e-6, id); }
static Vector any(const char* n, double lo = -10, double hi = 10) { return v2(vp_real_in(n, lo, hi), vp_real_in(n, lo, hi)); }
static LineSearchMinimizer::State state(const Vector& g, const Vector& d, double step) { LineSearchMinimizer::State s(2, 2); s.gradient = g; s.gradient_squared_norm = dot(g, g); s.search_direction = d; s.step_size = step; return s; }
static std::unique_ptr<LineSearchDirection> make(LineSearchDirectionType t, bool scale = false, int rank = 20, NonlinearConjugateGradientType c = FLETCHER_REEVES) { LineSearchDirection::Options o; o.num_parameters = 2; o.type = t; o.nonlinear_conjugate_gradient_type = c; o.max_lbfgs_rank = rank; o.use_approximate_eigenvalue_bfgs_scaling = scale; o.function_tolerance = 0.25; return LineSearchDirection::Create(o); }
// @run steepest
extern "C" void steepest() { auto L = make(STEEPEST_DESCENT); auto p = state(any("pg"), any("pd"), 1), c = state(any("g"), any("d"), 0); Vector out(2); vp_check(L->NextDirection(p, c, &out), "always succeeds"); same(out, -c.gradient, "negative gradient"); }
// @run conjugate jobs=8
extern "C" void conjugate() { int k = vp_choose("type", 3); auto L = make(NONLINEAR_CONJUGATE_GRADIENT, false, 20, k == 0 ? FLETCHER_REEVES : k == 1 ? POLAK_RIBIERE : HESTENES_STIEFEL); auto p = state(any("pg"), any("pd"), 1), c = state(any("g"), any("d"), 0); Vector dg = c.gradient - p.gradient; double num = k == 0 ? dot(c.gradient, c.gradient) : dot(c.gradient, dg), den = k == 2 ? dot(p.search_direction, dg) : dot(p.gradient, p.gradient); vp_assume(den > 0.5 || den < -0.5); Vector out(2), ref(2); vp_check(L->NextDirection(p, c, &out), "always succeeds"); double beta = num / den; for (int i = 0; i < 2; ++i) ref[i] = -c.gradient[i] + beta * p.search_direction[i]; bool restart = dot(c.gradient, ref) > -0.25; same(out, restart ? Vector(-c.gradient) : ref, "direction"); }
static const double S[3][2] = {{1, 0}, {0, 2}, {1, 1}};
struct Pair { Vector s, y; };
// the BFGS recursion applied to a vector, oldest pair first
static Vector apply(const std::vector<Pair>& h, double gamma, const Vector& g) { if (h.empty()) return gamma * g; std::vector<Pair> old(h.begin(), h.end() - 1); const Pair& p = h.back(); double r = dot(p.s, p.y), a = dot(p.s, g) / r; Vector q = g - a * p.y; Vector z = apply(old, gamma, q); double b = dot(p.y, z) / r; return z + (a - b) * p.s; }
static double gammaOf(const Pair& p) { return dot(p.s, p.y) / dot(p.y, p.y); }
static Vector change(int i, int kind) { double a = kind == 0 ? 2 : kind == 1 ? 4 : kind == 2 ? -1 : 0; return i == 0 ? v2(a, 0.5) : i == 1 ? v2(0.25, a / 2) : v2(a / 2, a / 2); }
// @run lbfgs jobs=8
extern "C" void lbfgs() { int rank = 1 + vp_choose("rank", 3); bool scale = vp_choose("scaling", 2); LowRankInverseHessian H(2, rank, scale); std::vector<Pair> h; double gamma = 1; int n = vp_choose("updates", 4); for (int i = 0; i < n; ++i) { Pair p{v2(S[i][0], S[i][1]), change(i, vp_choose("change", 4))}; bool ok = dot(p.s, p.y) > 1e-14; vp_check(H.Update(p.s, p.y) == ok, "only curvature is used"); if (ok) { h.push_back(p); if ((int)h.size() > rank) h.erase(h.begin()); gamma = gammaOf(p); } } if (!scale) gamma = 1; Vector g = any("g"), out = v2(0, 0); H.RightMultiplyAndAccumulate(g.data(), out.data()); near(out, apply(h, gamma, g), "the limited memory recursion"); Vector l = v2(0, 0); H.LeftMultiplyAndAccumulate(g.data(), l.data()); near(l, out, "symmetric interface"); vp_check(H.num_rows() == 2 && H.num_cols() == 2, "size"); if (!h.empty()) { Vector s = v2(0, 0); H.RightMultiplyAndAccumulate(h.back().y.data(), s.data()); near(s, h.back().s, "secant equation"); } vp_assume(dot(g, g) > 1); vp_check(dot(g, out) > 0, "positive definite"); Vector e = any("e"), eo = v2(0, 0); H.RightMultiplyAndAccumulate(e.data(), eo.data()); vp_check_le(ab(dot(e, out) - dot(g, eo)), 1e-6, "symmetric"); }
// Histories that wrap around more than once keep exactly the latest pairs, in order.
// @run wrapped jobs=8
extern "C" void wrapped() { int rank = 1 + vp_choose("rank", 3); bool scale = vp_choose("scaling", 2); LowRankInverseHessian H(2, rank, scale); std::vector<Pair> h; double gamma = 1; static const double D[7][2] = {{1, 0}, {0, 2}, {1, 1}, {2, 1}, {1, 3}, {-1, 2}, {3, 0}}; int n = 4 + vp_choose("updates", 4); for (int i = 0; i < n; ++i) { Pair p{v2(D[i][0], D[i][1]), v2(0, 0)}; double k = i == 2 ? (vp_choose("skip", 2) ? -1.0 : 1.0) : 1 + 0.5 * (i % 3); p.y = v2(k * (2 * D[i][0] + 0.5 * D[i][1]), k * (0.5 * D[i][0] + D[i][1])); bool ok = dot(p.s, p.y) > 1e-14; vp_check(H.Update(p.s, p.y) == ok, "only curvature is used"); if (ok) { h.push_back(p); if ((int)h.size() > rank) h.erase(h.begin()); gamma = gammaOf(p); } } if (!scale) gamma = 1; Vector g = any("g"), out = v2(0, 0); H.RightMultiplyAndAccumulate(g.data(), out.data()); near(out, apply(h, gamma, g), "the latest pairs"); }
// @run firstupdate jobs=8
extern "C" void firstupdate() { bool scale = vp_choose("scaling", 2); LowRankInverseHessian H(2, 2, scale); Vector s = v2(1, -2), y = any("y"); bool ok = dot(s, y) > 1e-14; vp_check(H.Update(s, y) == ok, "only curvature is used"); Vector g = any("g"), out = v2(0, 0); H.RightMultiplyAndAccumulate(g.data(), out.data()); if (!ok) { same(out, g, "identity"); return; } Vector w = v2(0, 0); H.RightMultiplyAndAccumulate(y.data(), w.data()); same(w, s, "secant equation"); same(out, apply({{s, y}}, scale ? gammaOf({s, y}) : 1, g), "the recursion"); }
// directions over a history of steps; both kinds against the recursion
static void history(LineSearchDirectionType type) { bool scale = vp_choose("scaling", 2); int rank = type == LBFGS ? 1 + vp_choose("rank", 2) : 9; auto L = make(type, scale, rank); std::vector<Pair> h; double gamma = 1; bool init = false; int n = 1 + vp_choose("updates", 3); Vector g = any("g"); for (int i = 0; i < n; ++i) { Vector s = v2(S[i][0], S[i][1]), y = change(i, vp_choose("change", 4)), pd = 2 * s; auto p = state(g, pd, 0.5); g = g + y; auto c = state(g, pd, 0); if (dot(s, y) > 1e-14) { h.push_back({s, y}); if ((int)h.size() > rank) h.erase(h.begin()); if (scale && (type == LBFGS || !init)) gamma = gammaOf({s, y}); init = true; } Vector out = v2(77, 77), ref = apply(h, gamma, g); bool ok = L->NextDirection(p, c, &out); near(out, -ref, "direction"); double d = dot(out, g); vp_check(ok == (d < 0), "success is descent"); if (!ok) { vp_check_le(dot(g, g), 1e-3, "descent unless the gradient vanishes"); return; } } }
// @run lbfgsdirections jobs=8
extern "C" void lbfgsdirections() { history(LBFGS); }
// @run bfgsdirections jobs=8
extern "C" void bfgsdirections() { history(BFGS); }
// @run bfgsgeneral jobs=4
extern "C" void bfgsgeneral() { bool scale = vp_choose("scaling", 2); auto L = make(BFGS, scale); Vector g0 = any("g"), s = v2(1, -2), y = any("y"), g = g0 + y; auto p = state(g0, 2 * s, 0.5), c = state(g, 2 * s, 0); bool ok = dot(s, y) > 1e-14; Vector out = v2(77, 77); L->NextDirection(p, c, &out); same(out, ok ? Vector(-apply({{s, y}}, scale ? gammaOf({s, y}) : 1, g)) : Vector(-g), "direction"); }
// @run unknown
extern "C" void unknown() { vp_check(make(static_cast<LineSearchDirectionType>(17)) == nullptr, "unknown kind refused"); }
