// Problem bookkeeping: any history of additions and removals.
#include "vp.h"
#include <algorithm>
#include <memory>
#include <vector>
#include "ceres/problem.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/residual_block.h"
#include "ceres/parameter_block.h"
#include "ceres/cost_function.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
// @bound histories of 2 (thorough: 3) operations after 2 initial residual blocks over 3 parameter blocks (two of any size from 1 to 40), any residual counts from 0 to 50, fresh and shared cost functions, losses and manifolds, both removal modes, both ownerships; aliasing: any placement of a block of 1 to 100 values among up to 2 existing ones within 1100 cells
using namespace ceres;
using namespace ceres::internal;
static const int NB = 3; static int sizes[NB] = {1, 2, 3};
struct Obj { int* dead; };
struct MyCost : CostFunction { int* dead; MyCost(int* d, int nr, const std::vector<int>& blocks) : dead(d) { set_num_residuals(nr); for (int b : blocks) mutable_parameter_block_sizes()->push_back(sizes[b]); } ~MyCost() override { ++*dead; } bool Evaluate(double const* const*, double*, double**) const override { return true; } };
struct MyLoss : LossFunction { int* dead; explicit MyLoss(int* d) : dead(d) {} ~MyLoss() override { ++*dead; } void Evaluate(double s, double r[3]) const override { r[0] = s; r[1] = 1; r[2] = 0; } };
struct MyMan final : Manifold { SubsetManifold s; int AmbientSize() const override { return 3; } int TangentSize() const override { return 2; } bool Plus(const double* x, const double* d, double* o) const override { return s.Plus(x, d, o); } bool PlusJacobian(const double* x, double* j) const override { return s.PlusJacobian(x, j); } bool Minus(const double* y, const double* x, double* o) const override { return s.Minus(y, x, o); } bool MinusJacobian(const double* x, double* j) const override { return s.MinusJacobian(x, j); } int* dead; explicit MyMan(int* d) : s(3, {1}), dead(d) {} ~MyMan() override { ++*dead; } };
struct Res { ResidualBlockId id; MyCost* c; MyLoss* l; std::vector<int> b; int nr; };
static int deadCount[64], nDead;
static int* slot() { deadCount[nDead] = 0; return &deadCount[nDead++]; }
static double xs[NB][40];
struct Model {
  std::vector<Res> rs; bool has[NB] = {}; bool cst[NB] = {}; MyMan* man = nullptr; MyMan* manNow = nullptr; std::vector<int*> costs, losses, mans; std::vector<MyCost*> allc; std::vector<MyLoss*> alll; std::vector<MyMan*> allm;
};
static void add(Problem& p, Model& m, int want) {
  static const std::vector<std::vector<int>> sets = {{0}, {1}, {0, 1}, {2, 1}, {2, 0, 1}};
  int s = want >= 0 ? want : vp_choose("blocks", 5); const std::vector<int>& b = sets[s]; MyCost* c = nullptr; MyLoss* l = nullptr;
  for (const Res& r : m.rs) if (r.b == b && !c && vp_choose("share the cost function", 2)) { c = r.c; break; }
  if (!c) { int* d = slot(); c = new MyCost(d, vp_int("residuals", 0, 50), b); m.costs.push_back(d); m.allc.push_back(c); }
  int lk = want >= 0 ? 1 : vp_choose("loss", 3); if (lk == 2) { for (const Res& r : m.rs) if (r.l) l = r.l; if (!l) vp_end(); } if (lk == 1) { int* d = slot(); l = new MyLoss(d); m.losses.push_back(d); m.alll.push_back(l); }
  std::vector<double*> ps; for (int i : b) ps.push_back(xs[i]); Res r; r.id = p.AddResidualBlock(c, l, ps); r.c = c; r.l = l; r.b = b; r.nr = c->num_residuals(); m.rs.push_back(r); for (int i : b) m.has[i] = true;
}
static void audit(Problem& p, Model& m, const Problem::Options& o) {
  int np = 0, sz = 0, nres = 0; for (int i = 0; i < NB; ++i) { vp_check(p.HasParameterBlock(xs[i]) == m.has[i], "membership"); if (m.has[i]) { ++np; sz += sizes[i]; vp_check(p.ParameterBlockSize(xs[i]) == sizes[i], "block size"); vp_check(p.IsParameterBlockConstant(xs[i]) == m.cst[i], "constancy belongs to the block"); } } for (const Res& r : m.rs) nres += r.nr;
  vp_check(p.NumParameterBlocks() == np && p.NumParameters() == sz, "parameter counts"); vp_check(p.NumResidualBlocks() == (int)m.rs.size() && p.NumResiduals() == nres, "residual counts");
  std::vector<double*> pb; p.GetParameterBlocks(&pb); vp_check((int)pb.size() == np, "parameter blocks listed once"); for (int i = 0; i < NB; ++i) vp_check(std::count(pb.begin(), pb.end(), xs[i]) == m.has[i], "parameter blocks listed");
  std::vector<ResidualBlockId> rb; p.GetResidualBlocks(&rb); vp_check(rb.size() == m.rs.size(), "residual blocks listed once");
  for (const Res& r : m.rs) { vp_check(std::count(rb.begin(), rb.end(), r.id) == 1, "residual blocks listed"); vp_check(p.GetCostFunctionForResidualBlock(r.id) == r.c && p.GetLossFunctionForResidualBlock(r.id) == r.l, "functions of a residual block"); std::vector<double*> q; p.GetParameterBlocksForResidualBlock(r.id, &q); vp_check(q.size() == r.b.size(), "blocks of a residual block"); for (size_t k = 0; k < q.size(); ++k) vp_check(q[k] == xs[r.b[k]], "blocks of a residual block in order"); }
  for (int i = 0; i < NB; ++i) if (m.has[i]) { std::vector<ResidualBlockId> q; p.GetResidualBlocksForParameterBlock(xs[i], &q); size_t n = 0; for (const Res& r : m.rs) if (std::count(r.b.begin(), r.b.end(), i)) { ++n; vp_check(std::count(q.begin(), q.end(), r.id) == 1, "dependents of a parameter block"); } vp_check(q.size() == n, "no other dependents"); }
  if (m.has[2]) vp_check(p.GetManifold(xs[2]) == m.manNow && p.HasManifold(xs[2]) == (m.manNow != nullptr) && p.ParameterBlockTangentSize(xs[2]) == (m.manNow ? 2 : 3), "manifold");
  const Program& g = p.mutable_impl()->program(); for (int i = 0; i < g.NumResidualBlocks(); ++i) vp_check(g.residual_blocks()[i]->index() == i, "residual index invariant"); for (int i = 0; i < g.NumParameterBlocks(); ++i) vp_check(g.parameter_blocks()[i]->index() == i, "parameter index invariant");
  for (const Res& r : m.rs) { vp_check(*r.c->dead == 0, "no cost function in use is deleted"); if (r.l) vp_check(*r.l->dead == 0, "no loss in use is deleted"); } if (m.manNow && m.has[2]) vp_check(*m.manNow->dead == 0, "no manifold in use is deleted");
  for (int* d : m.mans) vp_check(*d == 0, "manifolds live as long as the problem"); if (o.cost_function_ownership != TAKE_OWNERSHIP) for (int* d : m.costs) vp_check(*d == 0, "borrowed cost functions are not deleted");
}
static void history(int nops) {
  Problem::Options o; o.enable_fast_removal = vp_choose("fast removal", 2); int own = vp_choose("ownership", 2); o.disable_all_safety_checks = vp_choose("no safety checks", 2); if (!own) { o.cost_function_ownership = o.loss_function_ownership = o.manifold_ownership = DO_NOT_TAKE_OWNERSHIP; }
  nDead = 0; sizes[0] = vp_int("size", 1, 40); sizes[1] = vp_int("size", 1, 40); { Model m; {
    Problem p(o); add(p, m, 4); add(p, m, 3);
    for (int k = 0; k < nops; ++k) {
      int op = vp_choose("operation", 6);
      if (op == 0) add(p, m, -1);
      else if (op == 1) { if (m.rs.empty()) vp_end(); int i = vp_choose("which residual", (int)m.rs.size()); p.RemoveResidualBlock(m.rs[i].id); m.rs.erase(m.rs.begin() + i); }
      else if (op == 2) { int i = vp_choose("which parameter", NB); if (!m.has[i]) vp_end(); p.RemoveParameterBlock(xs[i]); m.has[i] = false; m.cst[i] = false; if (i == 2) m.manNow = nullptr; for (size_t j = m.rs.size(); j-- > 0;) if (std::count(m.rs[j].b.begin(), m.rs[j].b.end(), i)) m.rs.erase(m.rs.begin() + j); }
      else if (op == 3) { int i = vp_choose("which parameter", NB); p.AddParameterBlock(xs[i], sizes[i]); m.has[i] = true; }
      else if (op == 4) { int kind = vp_choose("manifold", 4); MyMan* n = nullptr; if (kind == 1) { int* d = slot(); n = new MyMan(d); m.mans.push_back(d); m.allm.push_back(n); } if (kind >= 2) { if (m.allm.empty()) vp_end(); n = m.allm[0]; } if (kind == 3) { p.AddParameterBlock(xs[2], 3, n); m.has[2] = true; } else { if (!m.has[2]) vp_end(); p.SetManifold(xs[2], n); } m.manNow = n; }
      else { int i = vp_choose("which parameter", NB); if (!m.has[i]) vp_end(); if (m.cst[i]) p.SetParameterBlockVariable(xs[i]); else p.SetParameterBlockConstant(xs[i]); m.cst[i] = !m.cst[i]; }
      audit(p, m, o);
    }
    }
    for (int* d : m.costs) vp_check(*d == own, "cost functions deleted once"); for (int* d : m.losses) vp_check(*d == own, "losses deleted once"); for (int* d : m.mans) vp_check(*d == own, "manifolds deleted once");
    if (!own) { for (auto* c : m.allc) delete c; for (auto* c : m.alll) delete c; for (auto* c : m.allm) delete c; }
  }
}
// @run ops2 jobs=8
extern "C" void ops2() { history(2); }
// @run ops3 jobs=8 tier=thorough time=800
extern "C" void ops3() { history(3); }
// @run aliasing
extern "C" void aliasing() {  // a new block is accepted exactly when it overlaps no block already there
  static double a[1200]; Problem p; int off[2], len[2], n = vp_choose("existing", 2) + 1; for (int i = 0; i < n; ++i) { off[i] = vp_int("offset", 0, 1000); len[i] = vp_int("length", 1, 100); if (i == 1) vp_assume(off[1] >= off[0] + len[0] || off[0] >= off[1] + len[1]); p.AddParameterBlock(a + off[i], len[i]); }
  int o = vp_int("new offset", 0, 1000), l = vp_int("new length", 1, 100); bool same = false, clash = false; for (int i = 0; i < n; ++i) { if (o == off[i] && l == len[i]) same = true; else if (o < off[i] + len[i] && off[i] < o + l) clash = true; }
  bool bad = clash; if (bad) vp_expect_abort(1); p.AddParameterBlock(a + o, l); if (bad) vp_check(0, "overlapping blocks are refused"); vp_check(p.NumParameterBlocks() == n + !same && p.HasParameterBlock(a + o), "accepted"); vp_check(p.ParameterBlockSize(a + o) == l, "size");
}
// @run sharing jobs=8
extern "C" void sharing() {  // four residual blocks share functions, three parameter blocks interleave manifolds; blocks go in any order
  Problem::Options o; o.enable_fast_removal = vp_choose("fast removal", 2); nDead = 0; sizes[0] = sizes[1] = sizes[2] = 3; static double y[3][3]; int *dc = slot(), *dl = slot(), *dm[2] = {slot(), slot()}; bool own = vp_choose("own", 2); if (!own) o.cost_function_ownership = o.loss_function_ownership = o.manifold_ownership = DO_NOT_TAKE_OWNERSHIP;
  MyCost* c = new MyCost(dc, 2, {0, 1, 2}); MyLoss* l = new MyLoss(dl); MyMan* m[2] = {new MyMan(dm[0]), new MyMan(dm[1])};
  { Problem p(o); ResidualBlockId id[4]; int noloss = vp_choose("without loss", 5); int perm[3] = {0, 1, 2}; std::swap(perm[0], perm[vp_choose("swap", 3)]); for (int k = 0; k < 4; ++k) id[k] = p.AddResidualBlock(c, k == noloss ? nullptr : l, y[perm[0]], y[perm[1]], y[perm[2]]);
    int pat = vp_choose("manifolds", 8); for (int i = 0; i < 3; ++i) p.SetManifold(y[i], m[pat >> i & 1]); if (pat != 2 && vp_choose("again", 2)) p.SetManifold(y[0], m[1 - (pat & 1)]);
    bool gone[4] = {}; int n = pat == 2 ? vp_choose("removals", 5) : 0, users = 4, lossUsers = noloss < 4 ? 3 : 4;
    for (int q = 0; q < n; ++q) { int k = vp_choose("which", 4); if (gone[k]) vp_end(); p.RemoveResidualBlock(id[k]); gone[k] = true; --users; if (k != noloss) --lossUsers; vp_check(*dc == (own && users == 0), "the cost function lives while it is used"); vp_check(*dl == (own && lossUsers == 0), "the loss lives while it is used"); vp_check(p.NumResidualBlocks() == users, "count"); std::vector<ResidualBlockId> r; for (int i = 0; i < 3; ++i) { p.GetResidualBlocksForParameterBlock(y[i], &r); vp_check((int)r.size() == users, "dependents"); for (int a = 0; a < 4; ++a) vp_check(std::count(r.begin(), r.end(), id[a]) == !gone[a], "dependents"); } }
    if (vp_choose("remove a parameter", 2)) { int i = vp_choose("parameter", 3); p.RemoveParameterBlock(y[i]); vp_check(p.NumResidualBlocks() == 0 && p.NumParameterBlocks() == 2, "its residual blocks go with it"); vp_check(*dc == own && *dl == own, "functions without users are deleted"); for (int a = 0; a < 2; ++a) vp_check(*dm[a] == 0, "manifolds live as long as the problem"); }
  }
  vp_check(*dc == own && *dl == own, "functions deleted once"); if (own) for (int a = 0; a < 2; ++a) vp_check(*dm[a] <= 1, "manifolds deleted once"); if (!own) { vp_check(*dm[0] == 0 && *dm[1] == 0, "borrowed manifolds stay"); delete c; delete l; delete m[0]; delete m[1]; }
}
// @run misuse
extern "C" void misuse() {  // requests that name nothing in the problem, or contradict it, abort
  Problem::Options o; o.enable_fast_removal = vp_choose("fast removal", 2); Problem p(o); int* d = slot(); double y[8], z[2]; ResidualBlockId a = p.AddResidualBlock(new MyCost(d, 1, {1}), nullptr, y), b = p.AddResidualBlock(new MyCost(d, 1, {1}), nullptr, y); (void)b; ResidualBlockId gone = vp_choose("which", 2) ? a : b; p.RemoveResidualBlock(gone); MyCost* three = new MyCost(d, 1, {1, 1, 1}); MyCost* two = new MyCost(d, 1, {1, 1}); MyCost* one = new MyCost(d, 1, {0});
  std::vector<ResidualBlockId> v; vp_expect_abort(1);
  switch (vp_choose("misuse", 21)) {
    case 0: p.RemoveResidualBlock(gone); break; case 18: p.AddResidualBlock(three, nullptr, z, y, z); break; case 19: p.AddResidualBlock(three, nullptr, z, z, y); break; case 20: p.AddResidualBlock(three, nullptr, y, y + 1, z); break; case 1: p.RemoveParameterBlock(z); break; case 2: p.SetParameterBlockConstant(z); break; case 3: p.SetParameterBlockVariable(z); break; case 4: p.SetManifold(z, nullptr); break; case 5: p.GetManifold(z); break;
    case 6: p.SetParameterLowerBound(z, 0, 0); break; case 7: p.SetParameterUpperBound(z, 0, 0); break; case 8: p.GetParameterLowerBound(z, 0); break; case 9: p.GetParameterUpperBound(z, 0); break; case 10: p.AddParameterBlock(y, 3); break; case 11: p.AddResidualBlock(two, nullptr, y, y); break; case 12: p.AddResidualBlock(one, nullptr, y); break; case 13: p.AddResidualBlock(two, nullptr, y); break; case 14: p.AddParameterBlock(nullptr, 1); break; case 15: p.AddResidualBlock(nullptr, nullptr, y); break; case 16: p.ParameterBlockSize(z); break; case 17: p.GetResidualBlocksForParameterBlock(z, &v); break; }
  vp_check(0, "misuse is refused");
}
