// Parameter blocks: bounds, constness, manifolds and state vectors.
#include "vp.h"
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include "ceres/problem.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/parameter_block.h"
#include "ceres/context_impl.h"
#include "ceres/cost_function.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/residual_block.h"
// @bound blocks of 2 and 3 values plus a block with a manifold of tangent size 0 to 2; all values, steps and bounds symbolic (|x| <= 1e6); every combination of present and absent bounds and every constness; finiteness over all 2^64 doubles; reduced programs of 3 residual blocks over up to 5 of 6 parameter blocks, every set of constant blocks
using namespace ceres;
using namespace ceres::internal;
static const double M = std::numeric_limits<double>::max();
struct Man : Manifold {  // an arbitrary affine manifold: x + A d
  int t; double A[6]; bool fail = false, bad = false; explicit Man(int t, bool any = true) : t(t) { for (double& v : A) v = any ? vp_real_in("A", -100, 100) : 3; }
  int AmbientSize() const override { return 3; } int TangentSize() const override { return t; }
  bool Plus(const double* x, const double* d, double* o) const override { for (int i = 0; i < 3; ++i) { o[i] = x[i]; for (int k = 0; k < t; ++k) o[i] += A[2 * i + k] * d[k]; } return !fail; }
  bool PlusJacobian(const double* x, double* j) const override { for (int i = 0; i < 3; ++i) for (int k = 0; k < t; ++k) j[i * t + k] = A[2 * i + k] + x[0]; return !bad; }
  bool Minus(const double*, const double*, double*) const override { return false; } bool MinusJacobian(const double*, double*) const override { return false; }
};
// @run clamp
extern "C" void clamp() {  // Plus is the manifold's, projected onto the box
  Problem p; double x[3], d[3], o[5], lo[3], hi[3]; for (int i = 0; i < 3; ++i) { x[i] = vp_real_in("x", -1e6, 1e6); d[i] = vp_real_in("delta", -1e6, 1e6); } for (double& v : o) v = 77; p.AddParameterBlock(x, 3);
  int t = 2 * vp_choose("manifold", 2); Man* man = nullptr; if (t) { man = new Man(t); p.SetManifold(x, man); }
  int ml = vp_choose("lower bounds", 8), mh = vp_choose("upper bounds", 8), first = vp_choose("upper first", 2), inf = first;
  for (int pass = 0; pass < 2; ++pass) for (int i = 0; i < 3; ++i) { if (pass == first) { lo[i] = -M; if (ml >> i & 1) p.SetParameterLowerBound(x, i, lo[i] = vp_real_in("lower", -1e6, 1e6)); else if (inf) p.SetParameterLowerBound(x, i, -M); } else { hi[i] = M; if (mh >> i & 1) p.SetParameterUpperBound(x, i, hi[i] = vp_real_in("upper", -1e6, 1e6)); else if (inf) p.SetParameterUpperBound(x, i, M); } }
  if (first && vp_choose("lift a bound", 2)) { p.SetParameterLowerBound(x, 1, -M); lo[1] = -M; p.SetParameterUpperBound(x, 2, M); hi[2] = M; }
  for (int i = 0; i < 3; ++i) { vp_assume(lo[i] <= hi[i]); vp_check_eq(p.GetParameterLowerBound(x, i), lo[i], "lower bound"); vp_check_eq(p.GetParameterUpperBound(x, i), hi[i], "upper bound"); }
  ParameterBlock* b = p.mutable_impl()->program().parameter_blocks()[0]; bool failing = t && vp_choose("manifold fails", 2); if (failing) man->fail = true;
  bool ok = b->Plus(x, d, o + 1); vp_check(ok == !failing, "failure of the manifold is reported"); vp_check(o[0] == 77 && o[4] == 77, "writes only its block"); if (!ok) return;
  for (int i = 0; i < 3; ++i) { double e = x[i]; if (t) for (int k = 0; k < t; ++k) e += man->A[2 * i + k] * d[k]; else e += d[i]; vp_check(o[1 + i] >= lo[i] && o[1 + i] <= hi[i], "result is feasible"); if (e < lo[i]) vp_check_eq(o[1 + i], lo[i], "projected onto the lower bound"); else if (e > hi[i]) vp_check_eq(o[1 + i], hi[i], "projected onto the upper bound"); else vp_check_eq(o[1 + i], e, "kept inside the bounds"); }
}
// @run predicates
extern "C" void predicates() {  // feasibility and the presence of bounds
  Problem p; double x[2], y[1]; for (double& v : x) v = vp_real_in("x", -1e9, 1e9); y[0] = vp_real_in("y", -1e9, 1e9); p.AddParameterBlock(x, 2); p.AddParameterBlock(y, 1); int cst = vp_choose("constant", 4), mask = vp_choose("bounds", 16); double lo[2], hi[2]; double* who[2] = {x, y}; int at[2] = {1, 0};
  for (int i = 0; i < 2; ++i) { lo[i] = -M; hi[i] = M; if (mask >> (2 * i) & 1) p.SetParameterLowerBound(who[i], at[i], lo[i] = vp_real_in("lower", -1e9, 1e9)); if (mask >> (2 * i + 1) & 1) p.SetParameterUpperBound(who[i], at[i], hi[i] = vp_real_in("upper", -1e9, 1e9)); }
  if (cst & 1) p.SetParameterBlockConstant(x); if (cst & 2) p.SetParameterBlockConstant(y); const Program& g = p.mutable_impl()->program(); std::string msg; bool feasible = true, bounded = false;
  for (int i = 0; i < 2; ++i) { bool c = cst >> i & 1; double v = who[i][at[i]]; if (c) { if (v < lo[i] || v > hi[i]) feasible = false; } else { if (lo[i] >= hi[i]) feasible = false; if (mask >> (2 * i) & 3) bounded = true; } }
  vp_check(g.IsFeasible(&msg) == feasible, "feasible exactly when every box is non-empty and constants lie inside"); vp_check(g.IsBoundsConstrained() == bounded, "bounds constrained exactly when a free block is bounded"); if (!feasible) vp_check(!msg.empty(), "says why");
}
// @run finiteness ieee
extern "C" void finiteness() { Problem p; double x[2], y[1]; for (double& v : x) v = vp_double("x"); y[0] = vp_double("y"); p.AddParameterBlock(x, 2); p.AddParameterBlock(y, 1); if (vp_choose("constant", 2)) p.SetParameterBlockConstant(y); std::string msg; bool ok = true; for (double v : {x[0], x[1], y[0]}) if (!std::isfinite(v) || v == 1e302) ok = false;  // 1e302 is the documented mark of an unset value
  vp_check(p.mutable_impl()->program().ParameterBlocksAreFinite(&msg) == ok, "finite exactly when every value is"); }
// @run constness
extern "C" void constness() {  // set constant, or a manifold without tangent directions
  Problem p; double x[3] = {1, 2, 3}, y[2] = {4, 5}; p.AddParameterBlock(x, 3); p.AddParameterBlock(y, 2); bool set = false; int tan = 3;
  for (int k = 0; k < 3; ++k) { int op = vp_choose("operation", 6); if (op == 0) { p.SetParameterBlockConstant(x); set = true; } else if (op == 1) { p.SetParameterBlockVariable(x); set = false; } else if (op == 5) { p.SetManifold(x, nullptr); tan = 3; } else { tan = op - 2; p.SetManifold(x, new Man(tan, false)); } vp_check(p.IsParameterBlockConstant(x) == (set || tan == 0), "constancy"); vp_check(p.ParameterBlockTangentSize(x) == tan && p.ParameterBlockSize(x) == 3, "tangent size"); vp_check((p.mutable_impl()->program().parameter_blocks()[0]->PlusJacobian() == nullptr) == (p.GetManifold(x) == nullptr), "a plus jacobian exactly with a manifold"); vp_check(!p.IsParameterBlockConstant(y), "other blocks keep theirs"); }
}
// @run badmanifold
extern "C" void badmanifold() { Problem p; double x[2] = {vp_real("x"), vp_real("x")}; p.AddParameterBlock(x, 2); vp_expect_abort(1); p.SetManifold(x, new Man(2)); vp_check(0, "a manifold of another dimension is refused"); }
// @run states
extern "C" void states() {  // state vectors, user state and offsets
  Problem p; double a[2], b[3], c[1]; for (double& v : a) v = vp_real_in("a", -1e6, 1e6); for (double& v : b) v = vp_real_in("b", -1e6, 1e6); c[0] = vp_real_in("c", -1e6, 1e6); p.AddParameterBlock(a, 2); p.AddParameterBlock(b, 3); p.AddParameterBlock(c, 1); int t = vp_choose("tangent", 4); Man* man = nullptr; if (t < 3) { man = new Man(t); p.SetManifold(b, man); } else t = 3;
  int cst = vp_choose("constant", 8); double* u[3] = {a, b, c}; int sz[3] = {2, 3, 1}, off[3] = {0, 2, 5}, tg[3] = {2, t, 1}, doff[3] = {0, 2, 2 + t}; bool isc[3]; for (int i = 0; i < 3; ++i) { if (cst >> i & 1) p.SetParameterBlockConstant(u[i]); isc[i] = (cst >> i & 1) || tg[i] == 0; }
  Program* g = const_cast<Program*>(&p.mutable_impl()->program()); g->SetParameterOffsetsAndIndex(); vp_check(g->NumParameters() == 6 && g->NumEffectiveParameters() == 3 + t, "sizes"); for (int i = 0; i < 3; ++i) vp_check(g->parameter_blocks()[i]->index() == i && g->parameter_blocks()[i]->state_offset() == off[i] && g->parameter_blocks()[i]->delta_offset() == doff[i], "offsets"); vp_check(g->IsValid(), "valid");
  double s[8], s0[6], s2[8], d[6], o[8]; for (double& v : s) v = vp_real_in("s", -1e6, 1e6); for (double& v : s2) v = 77; for (double& v : o) v = 77; for (double& v : d) v = vp_real_in("d", -1e6, 1e6); for (int i = 0; i < 3; ++i) for (int k = 0; k < sz[i]; ++k) s0[off[i] + k] = u[i][k];
  g->ParameterBlocksToStateVector(s2 + 1); vp_check(s2[0] == 77 && s2[7] == 77, "bounds"); for (int i = 0; i < 6; ++i) vp_check_eq(s2[1 + i], s0[i], "state starts as the user's values");
  bool bad = man && t > 0 && vp_choose("jacobian fails", 2); if (bad) man->bad = true; bool ok = g->StateVectorToParameterBlocks(s + 1); vp_check(ok == !(bad && !isc[1]), "failure of a manifold is reported"); if (!ok) { for (int i = 0; i < 3; ++i) for (int k = 0; k < sz[i]; ++k) vp_check_eq(u[i][k], s0[off[i] + k], "user state untouched"); return; }
  g->ParameterBlocksToStateVector(s2 + 1); for (int i = 0; i < 3; ++i) for (int k = 0; k < sz[i]; ++k) { vp_check_eq(s2[1 + off[i] + k], isc[i] ? s0[off[i] + k] : s[1 + off[i] + k], "free blocks take the state, constant ones do not"); vp_check_eq(u[i][k], s0[off[i] + k], "user state untouched"); }
  if (man && t > 0 && !isc[1]) for (int i = 0; i < 3; ++i) for (int k = 0; k < t; ++k) vp_check_eq(g->parameter_blocks()[1]->PlusJacobian()[i * t + k], man->A[2 * i + k] + s[3], "plus jacobian follows the state");
  ContextImpl ctx; int th = cst == 0 && t == 2 && !bad ? vp_choose("threads", 2) + 1 : 1; if (th > 1) ctx.EnsureMinimumThreads(1); vp_check(g->Plus(s + 1, d, o + 1, &ctx, th), "plus"); vp_check(o[0] == 77 && o[7] == 77, "bounds"); for (int i = 0; i < 3; ++i) for (int k = 0; k < sz[i]; ++k) { double e = s[1 + off[i] + k]; if (i == 1 && man) for (int j = 0; j < t; ++j) e += man->A[2 * k + j] * d[doff[1] + j]; else e += d[doff[i] + k]; vp_check_eq(o[1 + off[i] + k], e, "plus acts block by block"); }
  if (man) { man->fail = true; vp_check(!g->Plus(s + 1, d, o + 1, &ctx, th), "failure of one block fails the step"); man->fail = false; }
  if (vp_choose("copy back", 2)) { g->CopyParameterBlockStateToUserState(); for (int i = 0; i < 3; ++i) for (int k = 0; k < sz[i]; ++k) vp_check_eq(u[i][k], isc[i] ? s0[off[i] + k] : s[1 + off[i] + k], "state copied to the user"); } else { if (man && t > 0 && vp_choose("reset fails", 2)) { man->bad = true; vp_check(g->SetParameterBlockStatePtrsToUserStatePtrs() == isc[1], "failure of a manifold is reported"); man->bad = false; } vp_check(g->SetParameterBlockStatePtrsToUserStatePtrs(), "reset"); if (man && t > 0 && !isc[1]) { for (int pass = 0; pass < 2; ++pass) { for (int i = 0; i < 3; ++i) for (int k = 0; k < t; ++k) vp_check_eq(g->parameter_blocks()[1]->PlusJacobian()[i * t + k], man->A[2 * i + k] + b[0], "plus jacobian follows the user's values"); if (pass == 0) { b[0] = s0[2] = vp_real_in("b", -1e6, 1e6); vp_check(g->SetParameterBlockStatePtrsToUserStatePtrs(), "reset"); } } } g->ParameterBlocksToStateVector(s2 + 1); for (int i = 0; i < 6; ++i) vp_check_eq(s2[1 + i], s0[i], "state is the user's again"); }
}
struct Part : CostFunction { double r; bool fail = false; mutable int calls = 0; Part(const std::vector<int>& n, double r) : r(r) { set_num_residuals(1); for (int k : n) mutable_parameter_block_sizes()->push_back(k); }
  bool Evaluate(double const* const*, double* o, double** J) const override { ++calls; o[0] = r; if (J) for (size_t k = 0; k < parameter_block_sizes().size(); ++k) if (J[k]) for (int i = 0; i < parameter_block_sizes()[k]; ++i) J[k][i] = 1; return !fail; } };
// The reduced program drops exactly what cannot change, and its cost is the fixed cost.
// @run reduced jobs=8
extern "C" void reduced() { double m[5][3], unused[2] = {1, 2}; static const int N[5] = {1, 2, 1, 3, 2}; Problem p; for (int i = 0; i < 5; ++i) for (double& v : m[i]) v = 1 + i; bool early = vp_choose("unused first", 2); if (early) p.AddParameterBlock(unused, 2); for (int i = 0; i < 5; ++i) p.AddParameterBlock(m[i], N[i]); if (!early) p.AddParameterBlock(unused, 2); int wide = 1 + vp_choose("wide", 5), mask = vp_choose("constant", 32), last = vp_choose("last", 2), frozen = vp_choose("frozen", 2), bad = vp_choose("failing", 3); std::vector<std::vector<int>> over = {{}, {1, 4}, {2}}; for (int k = 0; k < wide; ++k) over[0].push_back(last ? 4 - k : k); Part* f[3]; ResidualBlockId id[3]; double r[3];
  for (int i = 0; i < 3; ++i) { std::vector<int> n; std::vector<double*> b; for (int k : over[i]) { n.push_back(N[k]); b.push_back(m[k]); } f[i] = new Part(n, r[i] = vp_real_in("r", -10, 10)); id[i] = p.AddResidualBlock(f[i], i == 1 ? new ScaledLoss(nullptr, 3, TAKE_OWNERSHIP) : nullptr, b); } bool cst[5]; for (int i = 0; i < 5; ++i) { cst[i] = mask >> i & 1; if (cst[i]) p.SetParameterBlockConstant(m[i]); } if (frozen) { p.SetManifold(m[3], new Man(0, false)); cst[3] = true; } if (bad) f[bad]->fail = true;
  double cost = 0; bool ok = true; std::vector<ResidualBlock*> rb; std::vector<double*> pb, gone; bool use[5] = {}; for (int i = 0; i < 3; ++i) { bool fixed = true; for (int k : over[i]) if (!cst[k]) { fixed = false; use[k] = true; } if (!fixed) rb.push_back(id[i]); else if (f[i]->fail) ok = false; else cost += (i == 1 ? 1.5 : 0.5) * r[i] * r[i]; } if (early) gone.push_back(unused); for (int i = 0; i < 5; ++i) (use[i] ? pb : gone).push_back(m[i]); if (!early) gone.push_back(unused);
  Program& full = *const_cast<Program*>(&p.mutable_impl()->program()); full.SetParameterOffsetsAndIndex(); auto pb0 = full.parameter_blocks(); auto rb0 = full.residual_blocks(); std::vector<double*> removed = {unused}; double fixed = -7; std::string msg; auto g = full.CreateReducedProgram(&removed, &fixed, &msg); vp_check((g != nullptr) == ok, "fails exactly when a fixed residual block cannot be evaluated"); vp_check(full.parameter_blocks() == pb0 && full.residual_blocks() == rb0, "the program itself keeps everything"); if (!ok) { vp_check(!msg.empty(), "says why"); return; }
  vp_check(g->residual_blocks() == rb, "residual blocks that can change, in order"); std::vector<double*> now; for (auto* b : g->parameter_blocks()) now.push_back(b->mutable_user_state()); vp_check(now == pb, "free blocks in use, in order"); vp_check(removed == gone, "removed blocks"); vp_check_eq(fixed, cost, "fixed cost"); for (int i = 0; i < 3; ++i) { bool in = false; for (auto* b : rb) in |= b == id[i]; vp_check(f[i]->calls == !in, "only fixed residual blocks are evaluated, once"); } int at = 0; for (auto* b : g->parameter_blocks()) { vp_check(b->index() == at++, "indices"); } }
