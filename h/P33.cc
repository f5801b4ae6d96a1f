// Visibility clustering and the preconditioners built on it.
#include "schur_common.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include "absl/container/btree_set.h"
#include "ceres/canonical_views_clustering.h"
#include "ceres/graph.h"
#include "ceres/single_linkage_clustering.h"
#include "ceres/sparse_cholesky.h"
#include "ceres/visibility.h"
#include "ceres/visibility_based_preconditioner.h"
// @bound similarity graphs of up to 4 views with arbitrary edge and vertex weights and thresholds; up to 3 points and 3 cameras in every pattern of observations; block sizes 1 and 2 with fixed values and one arbitrary value where stated; all vectors the preconditioner is applied to
using namespace sp;
namespace ceres::internal { class VisibilityBasedPreconditionerTest { public: using V = VisibilityBasedPreconditioner; static const std::vector<int>& member(const V& v) { return v.cluster_membership_; } static int clusters(const V& v) { return v.num_clusters_; } static bool pair(const V& v, int a, int b) { return v.cluster_pairs_.count(std::make_pair(std::min(a, b), std::max(a, b))) > 0; } static bool has(const V& v, int a, int b) { return v.block_pairs_.count(std::make_pair(a, b)) > 0; } }; }
using T = VisibilityBasedPreconditionerTest;
static void linkage(int n, int mask) { WeightedGraph<int> g; double t = vp_real_in("threshold", 0, 1), w[4][4]; static const int order[4] = {2, 0, 3, 1}; for (int i : order) if (i < n) g.AddVertex(i); if (vp_choose("self", 2)) for (int i = 0; i < n; ++i) g.AddEdge(i, i, 1.0); bool e[4][4] = {}; int k = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++k) if (mask >> k & 1) { w[i][j] = w[j][i] = vp_real_in("similarity", 0, 1); e[i][j] = e[j][i] = true; g.AddEdge(j, i, w[i][j]); } absl::flat_hash_map<int, int> m; m[77] = 3; SingleLinkageClusteringOptions o; o.min_similarity = t; int c = ComputeSingleLinkageClustering(o, g, &m); vp_check((int)m.size() == n, "every view once"); bool con[4][4]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) con[i][j] = i == j || (e[i][j] && w[i][j] >= t); for (int q = 0; q < n; ++q) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) con[i][j] |= con[i][q] & con[q][j]; int heads = 0; for (int i = 0; i < n; ++i) { vp_check(m[i] >= 0 && m[i] < n, "a view as label"); vp_check(m[m[i]] == m[i], "the label is in the cluster"); heads += m[i] == i; for (int j = 0; j < n; ++j) vp_check((m[i] == m[j]) == con[i][j], "same cluster exactly when linked"); } vp_check(c == heads, "number of clusters"); }
// @run single jobs=8
extern "C" void single() { linkage(3, vp_choose("edges", 8)); }
// @run single4 jobs=8
extern "C" void single4() { static const int M[] = {63, 45, 30, 53}; linkage(4, M[vp_choose("edges", 4)]); }
static void views(int n, bool weights, int invalid) { WeightedGraph<int> g; double w[4][4] = {}, vw[4]; CanonicalViewsClusteringOptions o; o.min_views = vp_choose("min", n + 2); o.size_penalty_weight = weights ? vp_real_in("size", 0, 4) : 0.5; o.similarity_penalty_weight = weights ? 0 : 0.25; o.view_score_weight = weights ? 1 : invalid ? 0.5 : 0; for (int i = 0; i < n; ++i) { vw[i] = weights ? vp_real_in("score", -2, 2) : 1; if (invalid >> i & 1) vw[i] = WeightedGraph<int>::InvalidWeight(); g.AddVertex(i, vw[i]); } for (int i = 0; i < n; ++i) { w[i][i] = 1; g.AddEdge(i, i, 1.0); for (int j = i + 1; j < n; ++j) { if (n > 2 && weights && !(i == 0 && j == 1)) { w[i][j] = w[j][i] = 0.25 * (i + j); } else if (invalid) w[i][j] = w[j][i] = 0.125 * (1 + i * 2 + j); else w[i][j] = w[j][i] = vp_real_in("similarity", 0, 1); g.AddEdge(i, j, w[i][j]); } }
  std::vector<int> c = {9}; absl::flat_hash_map<int, int> m; m[44] = 4; ComputeCanonicalViewsClustering(o, g, &c, &m); vp_check((int)m.size() == n, "every view once"); double sim[4] = {}; int own[4] = {-1, -1, -1, -1}; bool used[4] = {}; int valid = 0; for (int i = 0; i < n; ++i) valid += !(invalid >> i & 1);
  auto gain = [&](int v, int upto) { double d = o.view_score_weight * vw[v] - o.size_penalty_weight; for (int i = 0; i < n; ++i) { double up = w[v][i] - sim[i]; d += up > 0 ? up : 0; } for (int k = 0; k < upto; ++k) d -= o.similarity_penalty_weight * w[c[k]][v]; return d; };
  for (size_t k = 0; k <= c.size(); ++k) { double best = -1e9; bool any = false; for (int v = 0; v < n; ++v) if (!used[v] && !(invalid >> v & 1)) { double d = gain(v, k); if (!any || d > best) best = d; any = true; } if (k == c.size()) { vp_check(!any || (best <= 0 && (int)k >= o.min_views), "stops only when nothing helps and there are enough"); break; } int v = c[k]; if (v < 0 || v >= n || used[v]) { vp_check(0, "distinct views"); return; } vp_check(!(invalid >> v & 1), "views of invalid weight are never canonical"); vp_check(gain(v, k) >= best, "the best view is added"); vp_check(best > 0 || (int)k < o.min_views, "added only when it helps or is needed"); used[v] = true; for (int i = 0; i < n; ++i) if (w[v][i] > sim[i]) { sim[i] = w[v][i]; own[i] = k; } }
  for (int i = 0; i < n; ++i) vp_check(m[i] == own[i], "each view is with the most similar canonical view"); (void)valid; }
// @run canonical jobs=8
extern "C" void canonical() { views(3, false, 0); }
// @run scored jobs=8
extern "C" void scored() { views(3, true, 0); }
// @run invalid
extern "C" void invalid() { views(3, false, vp_choose("invalid", 8)); }
struct Scene { int seen[3]; std::unique_ptr<Sys> s; int n, m; };
// m points, n cameras; one row per observation, and a row per camera of its own
static Scene scene(int m, int n, int mask, int ps, const std::vector<int>& cs, bool priors = true) { Scene S; S.n = n; S.m = m; std::vector<int> rows, cols, e, f; for (int p = 0; p < m; ++p) cols.push_back(ps); for (int c = 0; c < n; ++c) cols.push_back(cs[c]); for (int p = 0; p < m; ++p) { S.seen[p] = mask >> (p * n) & ((1 << n) - 1); for (int c = 0; c < n; ++c) if (S.seen[p] >> c & 1) { rows.push_back(2); e.push_back(p); f.push_back(1 << c); } } if (priors) for (int c = 0; c < n; ++c) { rows.push_back(1); e.push_back(-1); f.push_back(1 << c); } S.s.reset(new Sys(rows, cols, m, e, f, true, 0, 0.5, 2, 2)); S.s->A->mutable_values()[0] = 1.5; S.s->J = dense(*S.s->A); return S; }
// @run visible jobs=8
extern "C" void visible() { int m = 1 + vp_choose("points", 2), n = 1 + vp_choose("cameras", 3), mask = vp_choose("mask", 1 << (m * n)); for (int p = 0; p < m; ++p) if (!(mask >> (p * n) & ((1 << n) - 1))) vp_end(); Scene S = scene(m, n, mask, 1, {1, 1, 1}); std::vector<absl::btree_set<int>> v(7); ComputeVisibility(*S.s->A->block_structure(), m, &v); vp_check((int)v.size() == n, "one set per camera"); int cnt[3] = {}; for (int c = 0; c < n; ++c) { for (int p = 0; p < m; ++p) { bool see = S.seen[p] >> c & 1; cnt[c] += see; vp_check((v[c].count(p) > 0) == see, "the points a camera sees"); } vp_check((int)v[c].size() == cnt[c], "only points"); } auto g = CreateSchurComplementGraph(v); vp_check((int)g->vertices().size() == n, "one vertex per camera"); for (int a = 0; a < n; ++a) { vp_check(g->EdgeWeight(a, a) == 1 && g->VertexWeight(a) == 1, "self edges"); for (int b = a + 1; b < n; ++b) { int common = 0; for (int p = 0; p < m; ++p) common += (S.seen[p] >> a & 1) && (S.seen[p] >> b & 1); vp_check((g->Neighbors(a).count(b) > 0) == (common > 0), "edges between cameras that share points"); double w = g->EdgeWeight(a, b); vp_check(w >= 0, "similarity"); vp_check_eq(w * w * (cnt[a] * cnt[b]), common * common, "similarity is the cosine of the visibility sets"); } } }
static Preconditioner::Options options(ContextImpl* c, const Scene& S, int type, int clustering) { Preconditioner::Options o; o.context = c; o.type = type ? CLUSTER_TRIDIAGONAL : CLUSTER_JACOBI; o.visibility_clustering_type = clustering ? SINGLE_LINKAGE : CANONICAL_VIEWS; o.sparse_linear_algebra_library_type = EIGEN_SPARSE; o.elimination_groups = {S.m, S.n}; o.ordering_type = OrderingType::AMD; return o; }
static void apply(int m, int n, int mask, int ps, std::vector<int> cs, int type, int clustering, int few) { for (int p = 0; p < m; ++p) if (!(mask >> (p * n) & ((1 << n) - 1))) vp_end(); Scene S = scene(m, n, mask, ps, cs); ContextImpl ctx; VisibilityBasedPreconditioner V(*S.s->A->block_structure(), options(&ctx, S, type, clustering)); const auto& mem = T::member(V); int k = T::clusters(V); vp_check((int)mem.size() == n && k >= 1 && k <= n, "clusters"); for (int c : mem) vp_check(c >= 0 && c < k, "every camera has a cluster"); int shared[3][3] = {}; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int p = 0; p < m; ++p) shared[a][b] += (S.seen[p] >> a & 1) && (S.seen[p] >> b & 1);
  if (clustering) for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (100 * shared[a][b] * shared[a][b] >= 81 * shared[a][a] * shared[b][b] && shared[a][b]) vp_check(mem[a] == mem[b], "very similar cameras are together");
  for (int a = 0; a < k; ++a) { vp_check(T::pair(V, a, a), "each cluster with itself"); int d = 0; for (int b = 0; b < k; ++b) if (b != a && T::pair(V, a, b)) { ++d; vp_check(type == 1, "clusters stand alone"); bool pts = false; for (int p = 0; p < m; ++p) { bool ia = false, ib = false; for (int c = 0; c < n; ++c) if (S.seen[p] >> c & 1) { ia |= mem[c] == a; ib |= mem[c] == b; } pts |= ia && ib; } vp_check(pts, "only clusters that share points are coupled"); } vp_check(d <= 2, "a chain of clusters"); }
  Matrix M; std::vector<double> e; S.s->schur(M, e); auto f = S.s->fblocks(); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { bool in = T::pair(V, mem[a], mem[b]); if (a <= b && shared[a][b] && a != b) vp_check(T::has(V, a, b) == in, "cells of coupled clusters"); if (!in) M.block(f[a].position, f[b].position, f[a].size, f[b].size).setZero(); }
  auto x = vec(S.s->fn, "x", -10, 10); for (int rep = 0; rep < few; ++rep) { vp_check(V.Update(*S.s->A, S.s->d()), "updated"); std::vector<double> y(S.s->fn, 0.0); V.RightMultiplyAndAccumulate(x.data(), y.data()); vp_check(V.num_rows() == S.s->fn, "size"); for (int i = 0; i < S.s->fn; ++i) { double v = 0; for (int j = 0; j < S.s->fn; ++j) v += M(i, j) * y[j]; vp_check_eq(v, x[i], "inverse of the chosen part of the Schur complement"); } } }
// @run jacobi2 jobs=8
extern "C" void jacobi2() { apply(2, 3, vp_choose("mask", 64), 1, {1, 1, 1}, vp_choose("type", 2), vp_choose("clustering", 2), 2); }
// @run jacobi3 jobs=8
extern "C" void jacobi3() { static const int M[] = {0b001011110, 0b110011101, 0b100010001, 0b111111111, 0b011011110, 0b101011111}; apply(3, 3, M[vp_choose("mask", 6)], 2, {2, 1, 2}, vp_choose("type", 2), vp_choose("clustering", 2), 1); }
// Points of two coordinates seen in one coordinate each: leaving out the coupling of the outer cameras makes the matrix indefinite unless the couplings are scaled.
// @run definite
extern "C" void definite() { int strong = vp_choose("strong", 2); Sys s({1, 1, 1, 1, 1, 1, 1}, {2, 2, 2, 1, 1, 1}, 3, {0, 0, 0, 1, 1, 2, 2}, {1, 2, 4, 1, 2, 2, 4}, true, 0, 0.5, 2, 2); double v[21] = {1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 1, 0, 1, 0, 1, 1}; for (int i = 0; i < 21; ++i) s.A->mutable_values()[i] = v[i]; for (double& d : s.D) d = strong ? 2 : 0.125; ContextImpl ctx; Preconditioner::Options o; o.context = &ctx; o.type = CLUSTER_TRIDIAGONAL; o.visibility_clustering_type = SINGLE_LINKAGE; o.sparse_linear_algebra_library_type = EIGEN_SPARSE; o.elimination_groups = {3, 3}; VisibilityBasedPreconditioner V(*s.A->block_structure(), o); vp_check(T::clusters(V) == 3 && !T::pair(V, T::member(V)[0], T::member(V)[2]), "a chain of three cameras"); vp_check(V.Update(*s.A, s.d()), "updated"); auto x = vec(3, "x", -10, 10); std::vector<double> y(3, 0.0); V.RightMultiplyAndAccumulate(x.data(), y.data()); vp_assume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] >= 1); vp_check(x[0] * y[0] + x[1] * y[1] + x[2] * y[2] > 0, "positive definite"); }
