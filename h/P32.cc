// Orderings: element groups, graphs, independent sets, spanning forests and the reordering of a program.
#include "vp.h"
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>
#include "ceres/cost_function.h"
#include "ceres/graph.h"
#include "ceres/graph_algorithms.h"
#include "ceres/ordered_groups.h"
#include "ceres/parameter_block.h"
#include "ceres/parameter_block_ordering.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/reorder_program.h"
#include "ceres/residual_block.h"
// @bound group histories of 4 operations on 3 elements with arbitrary group ids from -2 to 6; every graph of 4 vertices (thorough: 5), all edge weights; every problem of 4 blocks with pairwise residuals and every assignment to up to 3 groups
using namespace ceres; using namespace ceres::internal;
using G = OrderedGroups<int>;
static void same(const G& g, const int* m, int n) { int members = 0, groups = 0, least = -1; for (int i = 0; i < n; ++i) { vp_check(g.GroupId(i) == m[i], "group of the element"); vp_check(g.IsMember(i) == (m[i] >= 0), "membership"); if (m[i] >= 0) { ++members; int size = 0; bool first = true; for (int j = 0; j < n; ++j) if (m[j] == m[i]) { ++size; if (j < i) first = false; } groups += first; vp_check(g.GroupSize(m[i]) == size, "group size"); if (least < 0 || m[i] < least) least = m[i]; } } vp_check(g.NumElements() == members, "number of elements"); vp_check(g.NumGroups() == groups, "no empty groups"); if (groups) vp_check(g.MinNonZeroGroup() == least, "first group"); int listed = 0, last = -1; for (auto& p : g.group_to_elements()) { vp_check(p.first > last, "groups in order"); last = p.first; for (int e : p.second) { vp_check(m[e] == p.first, "listed in its group"); ++listed; } } vp_check(listed == members, "listed once"); }
static void history(int ops) { G g; int m[3] = {-1, -1, -1}; for (int k = 0; k < ops; ++k) { int op = k + 1 < ops ? vp_choose("op", 5) : 4, e = op < 2 ? vp_choose("element", 3) : 0;
  if (op == 0) { int id = vp_int("group", -2, 6); bool ok = g.AddElementToGroup(e, id); vp_check(ok == (id >= 0), "negative groups are refused"); if (id >= 0) m[e] = id; }
  if (op == 1) { bool ok = g.Remove(e); vp_check(ok == (m[e] >= 0), "removal reports presence"); m[e] = -1; }
  if (op == 2) { std::vector<int> v = {0, 2, 0}; int want = (m[0] >= 0) + (m[2] >= 0); vp_check(g.Remove(v) == want, "number removed"); m[0] = m[2] = -1; }
  if (op == 3) { g.Clear(); m[0] = m[1] = m[2] = -1; }
  if (op == 4) { int o[3], r = 0; for (int i = 0; i < 3; ++i) o[i] = m[i]; g.Reverse(); for (int i = 0; i < 3; ++i) { m[i] = g.GroupId(i); vp_check((m[i] >= 0) == (o[i] >= 0), "reversal keeps the elements"); } for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (o[i] >= 0 && o[j] >= 0) { vp_check((o[i] == o[j]) == (m[i] == m[j]), "reversal keeps the groups"); vp_check((o[i] < o[j]) == (m[i] > m[j]), "reversal reverses the order"); } (void)r; }
  same(g, m, 3); } }
// @run groups jobs=8
extern "C" void groups() { history(4); }
// @run groups5 jobs=8 tier=thorough
extern "C" void groups5() { history(5); }
static const int N = 4; static const int PU[6] = {0, 0, 0, 1, 1, 2}, PV[6] = {1, 2, 3, 2, 3, 3};
// @run graph jobs=8
extern "C" void graph() { Graph<int> g; WeightedGraph<int> w; bool v[3] = {}, a[3][3] = {}; double vw[3], ew[3][3]; for (int k = 0; k < 4; ++k) { int op = vp_choose("op", 3), i = vp_choose("i", 3), j = (i + 1 + (op == 2 ? vp_choose("j", 2) : 0)) % 3; double x = vp_real_in("weight", -5, 5); if (op == 0) { g.AddVertex(i); w.AddVertex(i, x); v[i] = true; vw[i] = x; } if (op == 1) { bool r = g.RemoveVertex(i), s = w.RemoveVertex(i); vp_check(r == v[i] && s == v[i], "removal reports presence"); v[i] = false; for (int t = 0; t < 3; ++t) a[i][t] = a[t][i] = false; } if (op == 2) { if (!v[i] || !v[j]) vp_end(); g.AddEdge(i, j); w.AddEdge(i, j, x); a[i][j] = a[j][i] = true; ew[i][j] = ew[j][i] = x; } }
  for (int i = 0; i < 3; ++i) { vp_check((g.vertices().count(i) > 0) == v[i] && (w.vertices().count(i) > 0) == v[i], "vertices"); if (!v[i]) continue; vp_check_eq(w.VertexWeight(i), vw[i], "vertex weight"); int d = 0; for (int j = 0; j < 3; ++j) { d += a[i][j]; vp_check((g.Neighbors(i).count(j) > 0) == a[i][j] && (w.Neighbors(i).count(j) > 0) == a[i][j], "neighbours"); if (i != j && v[j]) vp_check_eq(w.EdgeWeight(i, j), a[i][j] ? ew[i][j] : 0, "edge weight"); } vp_check((int)g.Neighbors(i).size() == d && (int)w.Neighbors(i).size() == d, "degree"); } }
static void independent(const std::vector<std::vector<int>>& a, const std::vector<int>& order, int size, const std::vector<int>* given) { int n = a.size(); std::vector<int> deg(n, 0), at(n, -1); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) deg[i] += a[i][j]; vp_check((int)order.size() == n, "every vertex"); for (int i = 0; i < n; ++i) at[order[i]] = i; for (int i = 0; i < n; ++i) vp_check(at[i] >= 0, "a permutation"); vp_check(size >= 1 && size <= n, "size"); auto in = [&](int v) { return at[v] < size; }; for (int i = 0; i < n; ++i) { bool touched = in(i); for (int j = 0; j < n; ++j) if (a[i][j]) { if (in(i)) vp_check(!in(j), "independent"); touched |= in(j); } vp_check(touched, "maximal"); }
  for (int i = 0; i + 1 < n; ++i) if (i + 1 != size) { int p = order[i], q = order[i + 1]; vp_check(deg[p] <= deg[q], "by degree"); if (deg[p] == deg[q]) { if (!given) vp_check(p < q, "ties by id"); else { int rp = -1, rq = -1; for (int k = 0; k < n; ++k) { if ((*given)[k] == p) rp = k; if ((*given)[k] == q) rq = k; } vp_check(rp < rq, "ties keep the given order"); } } } }
static void sets(int n) { Graph<int> g; std::vector<std::vector<int>> a(n, std::vector<int>(n, 0)); for (int i = 0; i < n; ++i) g.AddVertex(i); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (vp_int("edge", 0, 1) == 1) { g.AddEdge(j, i); a[i][j] = a[j][i] = 1; } std::vector<int> o; int s = IndependentSetOrdering(g, &o); independent(a, o, s, nullptr); std::vector<int> given = {2, 0, 3, 1}; if (n == 5) given.insert(given.begin() + 1, 4); if (vp_choose("reversed", 2)) std::reverse(given.begin(), given.end()); o = given; s = StableIndependentSetOrdering(g, &o); independent(a, o, s, &given); }
// @run independence jobs=8
extern "C" void independence() { sets(4); }
// @run independence5 jobs=8 tier=thorough
extern "C" void independence5() { sets(5); }
static void forest(int mask, int n) { WeightedGraph<int> g; double w[6], vw[N]; static const int perm[N] = {2, 0, 3, 1}; for (int i = 0; i < n; ++i) g.AddVertex(perm[i] < n ? perm[i] : i, vw[i] = vp_real_in("vertex", -5, 5)); for (int i = 0; i < n; ++i) g.AddVertex(i, vw[i]); for (int e = 0; e < 6; ++e) if (mask >> e & 1) { w[e] = vp_real_in("edge", -5, 5); g.AddEdge(PU[e], PV[e], w[e]); } auto f = Degree2MaximumSpanningForest(g); vp_check((int)f->vertices().size() == n, "all vertices"); bool in[6]; for (int e = 0; e < 6; ++e) { if (PV[e] >= n) { in[e] = false; continue; } in[e] = f->Neighbors(PU[e]).count(PV[e]) > 0; vp_check((f->Neighbors(PV[e]).count(PU[e]) > 0) == in[e], "symmetric"); vp_check(!in[e] || (mask >> e & 1), "a subgraph"); if (in[e]) vp_check_eq(f->EdgeWeight(PU[e], PV[e]), w[e], "weights kept"); }
  for (int i = 0; i < n; ++i) { vp_check(f->Neighbors(i).size() <= 2, "degree two"); vp_check_eq(f->VertexWeight(i), vw[i], "vertex weights kept"); } int root[N]; for (int i = 0; i < n; ++i) root[i] = i; for (int e = 0; e < 6; ++e) if (in[e]) { int a = root[PU[e]], b = root[PV[e]]; vp_check(a != b, "no cycle"); for (int i = 0; i < n; ++i) if (root[i] == b) root[i] = a; }
  for (int e = 0; e < 6; ++e) if ((mask >> e & 1) && !in[e]) { int du = 0, dv = 0, r[N]; for (int i = 0; i < n; ++i) r[i] = i; for (int k = 0; k < 6; ++k) if (in[k] && w[k] >= w[e]) { du += PU[k] == PU[e] || PV[k] == PU[e]; dv += PU[k] == PV[e] || PV[k] == PV[e]; int a = r[PU[k]], b = r[PV[k]]; for (int i = 0; i < n; ++i) if (r[i] == b) r[i] = a; } vp_check(du == 2 || dv == 2 || r[PU[e]] == r[PV[e]], "an edge is left out only for heavier ones"); } }
// @run forest3 jobs=8
extern "C" void forest3() { forest(vp_choose("edges", 8) & 3 | (vp_choose("last", 2) << 3), 3); }
// @run forest4 jobs=8
extern "C" void forest4() { static const int M[] = {0b000111, 0b101101, 0b011110}; forest(M[vp_choose("edges", 3)], 4); }
// @run forest45 jobs=8 tier=thorough
extern "C" void forest45() { forest(63 & ~(1 << vp_choose("missing", 6)), 4); }
struct Sized : CostFunction { explicit Sized(int k) { set_num_residuals(1); for (int i = 0; i < k; ++i) mutable_parameter_block_sizes()->push_back(1); } bool Evaluate(double const* const*, double* r, double**) const override { *r = 0; return true; } };
struct World { ProblemImpl P; double x[N]; int mask, n; std::vector<std::vector<int>> a; std::vector<ResidualBlockId> id; std::map<ResidualBlock*, std::vector<int>> uses; int cst;
  explicit World(int m, int late = 0, int cst = -1) : mask(m), n(N), a(N, std::vector<int>(N, 0)), cst(cst) { static const int order[N] = {1, 3, 0, 2}; for (int i : order) P.AddParameterBlock(x + i, 1); if (!late) unary(); for (int e = 5; e >= 0; --e) if (m >> e & 1) { std::vector<double*> q = {x + PV[e], x + PU[e]}; add(q, {PV[e], PU[e]}); a[PU[e]][PV[e]] = a[PV[e]][PU[e]] = 1; } if (late) unary(); if (cst >= 0) P.SetParameterBlockConstant(x + cst); }
  void unary() { for (int i = 0; i < N; ++i) add({x + i}, {i}); }
  void add(std::vector<double*> q, std::vector<int> u) { id.push_back(P.AddResidualBlock(new Sized(q.size()), nullptr, q.data(), q.size())); uses[id.back()] = u; }
  int at(double* p) const { return p - x; }
  std::vector<int> order(const Program& p) const { std::vector<int> o; int k = 0; for (auto* b : p.parameter_blocks()) { o.push_back(b->mutable_user_state() - x); (void)k; } return o; } };
static void numbered(World& w, Program& p) { vp_check(p.NumParameterBlocks() == w.n && p.NumResidualBlocks() == (int)w.id.size(), "nothing lost"); int seen[N] = {}; for (int i = 0; i < w.n; ++i) { auto* b = p.parameter_blocks()[i]; seen[w.at(b->mutable_user_state())]++; vp_check(b->index() == i && b->state_offset() == i && b->delta_offset() == i, "indices and offsets follow the order"); } for (int s : seen) vp_check(s == 1, "each block once"); std::map<ResidualBlock*, int> c; for (auto* r : p.residual_blocks()) c[r]++; for (auto* r : w.id) vp_check(c[r] == 1, "each residual block once"); }
static void lexicographic(World& w, Program& p, int e) { int last = 0; for (auto* r : p.residual_blocks()) { int least = e, k = 0; for (int u : w.uses[r]) for (int i = 0; i < e; ++i) if (p.parameter_blocks()[i]->mutable_user_state() == w.x + u) { ++k; least = i < least ? i : least; } vp_check(k <= 1, "one eliminated block per residual"); vp_check(least >= last, "residual blocks by eliminated block"); last = least; } }
// @run schur jobs=8
extern "C" void schur() { World w(vp_choose("edges", 64), vp_choose("late", 2)); auto* p = w.P.mutable_program(); p->SetParameterOffsetsAndIndex(); ParameterBlockOrdering o; int one = vp_choose("id", 2) * 3, sparse = vp_choose("sparse", 2); for (int i = 0; i < N; ++i) o.AddElementToGroup(w.x + i, one); std::string err; bool ok = ReorderProgramForSchurTypeLinearSolver(sparse ? SPARSE_SCHUR : DENSE_SCHUR, EIGEN_SPARSE, vp_choose("amd", 2) ? ceres::AMD : ceres::NESDIS, w.P.parameter_map(), &o, p, &err); vp_check(ok, "reordered"); numbered(w, *p); int e = o.group_to_elements().begin()->second.size(); auto ord = w.order(*p); for (int i = 0; i < N; ++i) { bool in = false, touched = false; for (int k = 0; k < e; ++k) in |= ord[k] == i; touched = in; for (int k = 0; k < e; ++k) touched |= w.a[i][ord[k]]; vp_check(touched, "the eliminated set is maximal"); bool first = o.GroupId(w.x + i) == o.MinNonZeroGroup(); vp_check(first == in, "the ordering names the eliminated blocks"); } lexicographic(w, *p, e); }
// @run user jobs=8
extern "C" void user() { static const int M[] = {0, 5, 14, 18, 33, 38, 41, 51, 63}; World w(M[vp_choose("edges", 9)]); auto* p = w.P.mutable_program(); p->SetParameterOffsetsAndIndex(); auto before = w.order(*p); ParameterBlockOrdering o; int g[N], bad = vp_choose("bad", 3); double other; for (int i = 0; i < N; ++i) { static const int ids[] = {0, 2, 7}; g[i] = ids[vp_choose("group", 3)]; o.AddElementToGroup(bad == 1 && i == 3 ? &other : w.x + i, g[i]); } if (bad == 2) o.AddElementToGroup(&other, 7); if (o.NumGroups() == 1) vp_end(); std::string err; bool sparse = vp_choose("sparse", 2), ok = ReorderProgramForSchurTypeLinearSolver(sparse ? SPARSE_SCHUR : DENSE_SCHUR, EIGEN_SPARSE, ceres::AMD, w.P.parameter_map(), &o, p, &err); int least = o.MinNonZeroGroup(), e = o.GroupSize(least); bool indep = true; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (g[i] == least && g[j] == least && w.a[i][j]) indep = false;
  if (bad == 1 && g[3] == least) { vp_check(!ok, "an unknown block is refused"); return; } vp_check(ok == (indep && !bad), "accepted exactly when it is a valid elimination order"); if (!ok) { auto now = w.order(*p); vp_check(now == before, "refusals change nothing"); return; } numbered(w, *p); auto now = w.order(*p); for (int i = 0; i < e; ++i) vp_check(g[now[i]] == least, "first group first"); for (int i = 0; i + 1 < N; ++i) if (!sparse || i + 1 < e) { vp_check(g[now[i]] <= g[now[i + 1]], "groups in order"); if (g[now[i]] == g[now[i + 1]]) { int a = std::find(before.begin(), before.end(), now[i]) - before.begin(), b = std::find(before.begin(), before.end(), now[i + 1]) - before.begin(); vp_check(a < b, "within a group the order stays"); } } for (int i = 0; i < N; ++i) vp_check(o.GroupId(w.x + i) == g[i], "the user's groups stay"); lexicographic(w, *p, e); }
// @run cholesky jobs=8
extern "C" void cholesky() { World w(vp_choose("edges", 64)); auto* p = w.P.mutable_program(); p->SetParameterOffsetsAndIndex(); ParameterBlockOrdering o; int bad = vp_choose("bad", 2); auto before = w.order(*p); for (int i = bad; i < N; ++i) o.AddElementToGroup(w.x + i, vp_choose("group", 2) && i == 3 ? 1 : 0); std::string err; bool ok = ReorderProgramForSparseCholesky(EIGEN_SPARSE, vp_choose("amd", 2) ? ceres::AMD : ceres::NESDIS, o, 2 * vp_choose("start", 2), p, &err); vp_check(ok == !bad, "refused exactly when blocks are missing"); if (ok) numbered(w, *p); else { auto now = w.order(*p); vp_check(now == before, "refusals change nothing"); } }
// @run recursive jobs=8
extern "C" void recursive() { World w(vp_choose("edges", 64)); auto* p = w.P.mutable_program(); p->SetParameterOffsetsAndIndex(); ParameterBlockOrdering o; o.AddElementToGroup(w.x + 9, 4); ComputeRecursiveIndependentSetOrdering(*p, &o); vp_check(o.NumElements() == N, "every block, nothing else"); int groups = o.NumGroups(); std::vector<int> sizes; OrderingToGroupSizes(&o, &sizes); vp_check((int)sizes.size() == groups, "group sizes"); for (int i = 0; i < N; ++i) { int g = o.GroupId(w.x + i); vp_check(g >= 0 && g < groups, "groups are numbered from zero"); vp_check(sizes[g] == o.GroupSize(g), "group sizes"); for (int lower = 0; lower < g; ++lower) { bool touched = false; for (int j = 0; j < N; ++j) touched |= w.a[i][j] && o.GroupId(w.x + j) == lower; vp_check(touched, "each group is maximal"); } for (int j = 0; j < N; ++j) if (w.a[i][j]) vp_check(o.GroupId(w.x + j) != g, "each group is independent"); } }
// @run hessian jobs=8
extern "C" void hessian() { World w(vp_choose("edges", 64), 0, vp_choose("constant", N + 1) - 1); auto* p = w.P.mutable_program(); auto g = CreateHessianGraph(*p); std::map<int, ParameterBlock*> b; for (auto* q : p->parameter_blocks()) b[w.at(q->mutable_user_state())] = q; vp_check((int)g->vertices().size() == N - (w.cst >= 0), "one vertex per varying block"); for (int i = 0; i < N; ++i) { vp_check((g->vertices().count(b[i]) > 0) == (i != w.cst), "vertices"); if (i == w.cst) continue; for (int j = 0; j < N; ++j) vp_check((g->Neighbors(b[i]).count(b[j]) > 0) == (w.a[i][j] && j != w.cst), "edges where residuals share blocks"); } std::vector<ParameterBlock*> o; int s = vp_choose("stable", 2) ? ComputeStableSchurOrdering(*p, &o) : ComputeSchurOrdering(*p, &o); vp_check((int)o.size() == N, "every block"); int seen[N] = {}; for (auto* q : o) seen[w.at(q->mutable_user_state())]++; for (int q : seen) vp_check(q == 1, "a permutation"); if (w.cst >= 0) vp_check(o[N - 1] == b[w.cst], "constant blocks last"); for (int i = 0; i < N - (w.cst >= 0); ++i) { bool touched = i < s; int u = w.at(o[i]->mutable_user_state()); for (int k = 0; k < s; ++k) { bool e = w.a[u][w.at(o[k]->mutable_user_state())]; if (i < s) vp_check(!e, "independent"); touched |= e; } vp_check(touched, "maximal"); } std::set<double*> set; int pick = vp_choose("pick", 4); static const int sets[4] = {1, 3, 6, 13}; bool indep = true; for (int i = 0; i < N; ++i) if (sets[pick] >> i & 1) set.insert(w.x + i); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (w.a[i][j] && (sets[pick] >> i & 1) && (sets[pick] >> j & 1) && i != w.cst && j != w.cst) indep = false; if (w.cst < 0) vp_check(p->IsParameterBlockSetIndependent(set) == indep, "independence of a set"); }
// @run partition
extern "C" void partition() { World w(63); auto* p = w.P.mutable_program(); int m = vp_choose("bottom", 1 << 6), n = 0; std::unordered_set<ResidualBlockId> bottom; for (int i = 0; i < 6; ++i) if (m >> i & 1) bottom.insert(w.id[i + 2]), ++n; int k = ReorderResidualBlocksByPartition(bottom, p); p->SetParameterOffsetsAndIndex(); vp_check(k == (int)w.id.size() - n, "size of the top"); for (int i = 0; i < (int)w.id.size(); ++i) vp_check((bottom.count(p->residual_blocks()[i]) > 0) == (i >= k), "top and bottom"); numbered(w, *p); }
// @run ordered
extern "C" void ordered() { int s = vp_int("solver", 0, 6), pc = vp_int("preconditioner", 0, 5), o = vp_int("ordering", 0, 1), l = vp_choose("library", 5); auto S = (LinearSolverType)s; auto Q = (PreconditionerType)pc; auto L = (SparseLinearAlgebraLibraryType)l; bool r = AreJacobianColumnsOrdered(S, Q, L, (LinearSolverOrderingType)o); bool chol = s == SPARSE_NORMAL_CHOLESKY || (s == CGNR && pc == SUBSET), want = (l == SUITE_SPARSE && (chol || (s == SPARSE_SCHUR && o == ceres::AMD))) || (l == EIGEN_SPARSE && (chol || s == SPARSE_SCHUR)); vp_check(r == want, "columns are ordered exactly where Ceres orders them"); }
