// A problem whose residual blocks return arbitrary residuals and Jacobians.
#pragma once
#include "vp.h"
#include <vector>
#include <cmath>
#include "ceres/problem.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/parameter_block.h"
#include "ceres/residual_block.h"
#include "ceres/cost_function.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/crs_matrix.h"
#include "ceres/evaluation_callback.h"
namespace ev {
using namespace ceres;
static const int NB = 3, SZ[NB] = {2, 1, 3};
static double X[NB][3]; static bool positive = false; static double anyJ() { return positive ? vp_real_in("J", 0.5, 1e3) : vp_real_in("J", -1e3, 1e3); }
struct Any : CostFunction {
  std::vector<int> b; std::vector<double> r; std::vector<std::vector<double>> J; int fail = 0; mutable int calls = 0; const int* gate = nullptr; mutable int gateSeen = -1; mutable std::vector<std::vector<double>> seen;
  Any(int nr, std::vector<int> blocks, double scale = 0) : b(blocks) { set_num_residuals(nr); for (int i : b) mutable_parameter_block_sizes()->push_back(SZ[i]); for (int i = 0; i < nr; ++i) r.push_back(vp_real_in("r", -1e3, 1e3)); J.resize(b.size()); for (size_t k = 0; k < b.size(); ++k) for (int i = 0; i < nr * SZ[b[k]]; ++i) J[k].push_back(anyJ()); seen.resize(b.size()); }
  bool Evaluate(double const* const* p, double* o, double** Jo) const override {
    ++calls; if (gate) gateSeen = *gate; for (size_t k = 0; k < b.size(); ++k) seen[k].assign(p[k], p[k] + SZ[b[k]]); if (fail) return false;
    for (int i = 0; i < num_residuals(); ++i) o[i] = r[i]; if (Jo) for (size_t k = 0; k < b.size(); ++k) if (Jo[k]) for (size_t i = 0; i < J[k].size(); ++i) Jo[k][i] = J[k][i]; return true;
  }
};
// an arbitrary loss value with arbitrary positive slope w^2 and no curvature
struct Loss : LossFunction { double v, w; mutable double s = -1; Loss() { v = vp_real_in("rho", 0, 1e3); w = vp_real_in("w", 0.01, 30); } void Evaluate(double sq, double o[3]) const override { s = sq; o[0] = v; o[1] = w * w; o[2] = 0; } };
struct Man : Manifold {  // ambient 3, tangent t, arbitrary constant Jacobian
  int t; double A[6]; bool fail = false; explicit Man(int t) : t(t) { for (double& v : A) v = vp_real_in("A", -1e2, 1e2); }
  int AmbientSize() const override { return 3; } int TangentSize() const override { return t; }
  bool Plus(const double* x, const double* d, double* o) const override { for (int i = 0; i < 3; ++i) { o[i] = x[i]; for (int k = 0; k < t; ++k) o[i] += A[2 * i + k] * d[k]; } return !fail; }
  bool PlusJacobian(const double*, double* j) const override { for (int i = 0; i < 3; ++i) for (int k = 0; k < t; ++k) j[i * t + k] = A[2 * i + k]; return !fail; }
  bool Minus(const double*, const double*, double*) const override { return false; } bool MinusJacobian(const double*, double*) const override { return false; }
};
struct World {
  Problem p; std::vector<Any*> f; std::vector<Loss*> l; std::vector<ResidualBlockId> id; Man* man = nullptr; int tg[NB] = {2, 1, 3}; bool cst[NB] = {};
  explicit World(const Problem::Options& o = Problem::Options(), int tangent = 3, int losses = 2, int nrMax = 2) : p(o) {
    for (int i = 0; i < NB; ++i) for (int k = 0; k < SZ[i]; ++k) X[i][k] = vp_real_in("x", -1e3, 1e3); for (int i = 0; i < NB; ++i) p.AddParameterBlock(X[i], SZ[i]);
    if (tangent < 3) { man = new Man(tangent); p.SetManifold(X[2], man); tg[2] = tangent; if (tangent == 0) cst[2] = true; }
    const std::vector<std::vector<int>> bs = {{1, 0}, {2}, {2, 0, 1}}; int nr[3] = {nrMax, 1, 1};
    for (int k = 0; k < 3; ++k) { f.push_back(new Any(nr[k], bs[k])); l.push_back(losses >> k & 1 ? new Loss : nullptr); std::vector<double*> q; for (int i : bs[k]) q.push_back(X[i]); id.push_back(p.AddResidualBlock(f[k], l[k], q)); }
  }
  void constant(int i) { p.SetParameterBlockConstant(X[i]); cst[i] = true; }
  double w(int k, bool apply) const { return l[k] && apply ? l[k]->w : 1; }
  double cost(int k, bool apply) const { if (l[k] && apply) return 0.5 * l[k]->v; double s = 0; for (double v : f[k]->r) s += v * v; return 0.5 * s; }
  double jac(int k, int i, int j, int c) const {  // d residual i of block k / d tangent coordinate c of its j-th parameter block, loss not applied
    int b = f[k]->b[j]; if (b == 2 && man) { double s = 0; for (int a = 0; a < 3; ++a) s += f[k]->J[j][i * 3 + a] * man->A[2 * a + c]; return s; } return f[k]->J[j][i * SZ[b] + c];
  }
};
}
