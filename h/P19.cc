// Schur elimination computes the exact reduced system, and back substitution the exact eliminated variables.
#include "schur_common.h"
#include "ceres/schur_eliminator.h"
namespace EigenForCeres = Eigen;  // the header renames the namespace
#include "ceres/schur_eliminator_impl.h"
#undef Eigen
#include "ceres/linear_solver.h"
// @bound up to 4 row blocks, 2 eliminated blocks and 3 others; block sizes 1 to 3 with fixed and dynamic instantiations; every pattern of present blocks; with and without diagonal and right hand side; dense, sparse and diagonal left hand sides; 1 and 2 threads with every schedule of at most one preemption (thorough: two); the pseudo-inverse for rank deficient eliminated blocks is outside
using namespace sp;
static void lhsIs(BlockRandomAccessMatrix& L, const Sys& s, const Matrix& S, int kind) {
  auto f = s.fblocks(); for (size_t i = 0; i < f.size(); ++i) for (size_t j = i; j < f.size(); ++j) { int r, c, rs, cs; CellInfo* q = L.GetCell(i, j, &r, &c, &rs, &cs); if (!q) { vp_check(kind == 2 && i != j, "cell present"); continue; } for (int a = 0; a < f[i].size; ++a) for (int b = 0; b < f[j].size; ++b) vp_check_eq(q->values[(r + a) * cs + c + b], S(f[i].position + a, f[j].position + b), "reduced matrix"); }
}
static std::unique_ptr<BlockRandomAccessMatrix> make(const Sys& s, int kind, ContextImpl* ctx, int nt) { auto f = s.fblocks(); if (kind == 0) return std::make_unique<BlockRandomAccessDenseMatrix>(f, ctx, nt); if (kind == 2) return std::make_unique<BlockRandomAccessDiagonalMatrix>(f, ctx, nt); absl::btree_set<std::pair<int, int>> p; for (size_t i = 0; i < f.size(); ++i) for (size_t j = i; j < f.size(); ++j) p.insert({(int)i, (int)j}); return std::make_unique<BlockRandomAccessSparseMatrix>(f, p, ctx, nt); }
static void run(SchurEliminatorBase& E, const Sys& s, int kind, bool withb, ContextImpl* ctx, int nt = 1, bool back = true) {
  auto L = make(s, kind, ctx, nt); Matrix S; std::vector<double> e, r(s.fn + 1, 77.0); s.schur(S, e); E.Init(s.ne, true, s.A->block_structure());
  for (int rep = 0; rep < (nt > 1 ? 1 : 2); ++rep) { E.Eliminate(BlockSparseMatrixData(*s.A), withb ? s.b.data() : nullptr, s.d(), L.get(), withb ? r.data() : nullptr); lhsIs(*L, s, S, kind); if (withb) for (int i = 0; i < s.fn; ++i) vp_check_eq(r[i], e[i], "reduced right hand side"); vp_check(r[s.fn] == 77, "bounds"); }
  if (withb && back) { auto z = vec(s.fn, "z", -10, 10); std::vector<double> y(s.en + 1, 0.0); E.BackSubstitute(BlockSparseMatrixData(*s.A), s.b.data(), s.d(), z.data(), y.data()); s.backsub(z, y, "eliminated variables"); vp_check(y[s.en] == 0, "bounds"); }
}
static LinearSolver::Options options(ContextImpl* c, int nt = 1) { LinearSolver::Options o; o.context = c; o.num_threads = nt; return o; }
// every pattern, scalar blocks
// @run patterns jobs=8
extern "C" void patterns() { int nf = 1 + vp_choose("others", 2), M = 1 << nf; std::vector<int> f; for (int i = 0; i < 4; ++i) f.push_back(vp_choose("f", M)); if (f[3] == 0) vp_end(); int one = vp_choose("shared", 2); Sys s({1, 1, 1, 1}, nf == 2 ? std::vector<int>{1, 1, 1, 2} : std::vector<int>{1, 1, 1}, 2, {0, one ? 0 : 1, 1, -1}, f, vp_choose("D", 2) || f[3] == 99, vp_choose("split", 2) * 2, 0.25, 10, true); ContextImpl ctx; SchurEliminator<> E(options(&ctx)); run(E, s, vp_choose("lhs", 2) * 1, true, &ctx); }
// sizes, instantiations and left hand sides
template <class E> static void sized(std::vector<int> r, std::vector<int> c, int ne, std::vector<int> e, std::vector<int> f) { int mode = vp_choose("mode", 6); Sys s(r, c, ne, e, f, mode % 2 == 0, mode < 3 ? ne : 0, 0.25, 10, true); ContextImpl ctx; E el(options(&ctx)); run(el, s, mode == 5 ? 2 : mode % 2, mode != 4, &ctx); }
// @run dynamic jobs=8
extern "C" void dynamic() { switch (vp_choose("case", 4)) { case 0: sized<SchurEliminator<>>({2, 1, 2}, {1, 1, 2, 1}, 2, {0, 1, 1}, {3, 2, 1}); break; case 1: sized<SchurEliminator<>>({2, 2, 1}, {2, 1, 2}, 1, {0, 0, -1}, {1, 3, 3}); break; case 2: sized<SchurEliminator<>>({1, 2, 1, 3}, {1, 2, 1, 1}, 1, {0, 0, -1, -1}, {4, 3, 5, 6}); break; case 3: sized<SchurEliminator<>>({2, 1}, {1, 3}, 1, {0, -1}, {0, 1}); break; } }
// @run fixed jobs=8
extern "C" void fixed() { switch (vp_choose("case", 4)) { case 0: sized<SchurEliminator<2, 2, Eigen::Dynamic>>({2, 2, 1}, {2, 1, 2}, 1, {0, 0, -1}, {1, 3, 2}); break; case 1: sized<SchurEliminator<2, 2, 2>>({2, 2, 1}, {2, 2, 2}, 1, {0, 0, -1}, {1, 3, 2}); break; case 2: sized<SchurEliminator<2, 3, Eigen::Dynamic>>({2, 2}, {3, 1, 2}, 1, {0, 0}, {1, 2}); break; case 3: sized<SchurEliminator<2, Eigen::Dynamic, Eigen::Dynamic>>({2, 2, 1}, {1, 2, 1, 1}, 2, {0, 1, -1}, {1, 3, 2}); break; } }
// @run oneblock jobs=8
extern "C" void oneblock() { int c = vp_choose("case", 4); bool d = vp_choose("D", 2); if (c == 2) d = true; static const int F[4][3] = {{1, 1, 1}, {1, 0, 1}, {0, 1, 1}, {1, 1, 0}}; std::vector<int> e = c == 3 ? std::vector<int>{0, 0, 0} : std::vector<int>{0, c == 1 ? 0 : 1, -1}; Sys s({2, 2, c == 3 ? 2 : 1}, c == 1 || c == 3 ? std::vector<int>{2, 2} : std::vector<int>{2, 2, 2}, c == 1 || c == 3 ? 1 : 2, e, {F[c][0], F[c][1], F[c][2]}, d, 1, 0.25, 10, true); ContextImpl ctx; SchurEliminatorForOneFBlock<2, 2, 2> E; run(E, s, 0, true, &ctx); }
// @run created jobs=8
extern "C" void created() { ContextImpl ctx; LinearSolver::Options o = options(&ctx); static const int B[][3] = {{2, 2, 2}, {2, 3, 6}, {-1, -1, -1}, {2, 3, -1}, {4, 4, 2}, {2, 2, 1}, {1, 1, 1}}; int k = vp_choose("sizes", 7); o.row_block_size = B[k][0]; o.e_block_size = B[k][1]; o.f_block_size = B[k][2]; auto E = SchurEliminatorBase::Create(o); vp_check(E != nullptr, "an eliminator exists for every structure"); int r = std::max(1, B[k][0]), e = std::max(1, B[k][1]), f = B[k][2] < 0 ? 2 : B[k][2]; if (e > 2) { vp_reach("large"); vp_end(); } Sys s({r, r}, {e, f, f}, 1, {0, 0}, {1, 3}, true, 0, 0.25, 10, true); run(*E, s, 0, true, &ctx); }
static void par(int rhs) { vp_opt("race", 1); bool d = rhs < 0 || vp_choose("D", 2); rhs = rhs < 0 ? 0 : rhs; ContextImpl ctx; ctx.EnsureMinimumThreads(2); Sys s({1, 1, 1, 1}, {1, 1, 1, 1}, 2, {0, 0, 1, -1}, {vp_choose("f", 2) ? 3 : 1, 2, 3, 3}, d, 0, 0.25, 10, true); SchurEliminator<> E(options(&ctx, 2)); run(E, s, rhs, true, &ctx, 2); }
// @run threads jobs=8
extern "C" void threads() { vp_opt("preempt", 1); par(-1); }
// @run threads2 jobs=8 tier=thorough time=600 max-paths=2000000
extern "C" void threads2() { par(vp_choose("lhs", 2)); }
