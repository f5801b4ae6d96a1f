// Names of options: every enumerator has its own name, names are read back in any letter case, and nothing else is.
#include "vp.h"
#include <cstring>
#include <string>
#include <vector>
#include "ceres/types.h"
// @bound every family of names and every member; every mixture of letter cases; every byte at every position; one character too few or too many; every integer as an enumerator
using namespace ceres;
static int up(int c) { return c >= 97 && c <= 122 ? c - 32 : c; }
template <class T> struct Family { const char* (*name)(T); bool (*read)(std::string, T*); std::vector<std::pair<const char*, T>> members; };
#define M(x) {#x, x}
template <class F> static void each(int which, F f) { switch (which) {
  case 0: return f(Family<LinearSolverType>{LinearSolverTypeToString, StringToLinearSolverType, {M(DENSE_NORMAL_CHOLESKY), M(DENSE_QR), M(SPARSE_NORMAL_CHOLESKY), M(DENSE_SCHUR), M(SPARSE_SCHUR), M(ITERATIVE_SCHUR), M(CGNR)}});
  case 1: return f(Family<PreconditionerType>{PreconditionerTypeToString, StringToPreconditionerType, {M(IDENTITY), M(JACOBI), M(SCHUR_JACOBI), M(SCHUR_POWER_SERIES_EXPANSION), M(CLUSTER_JACOBI), M(CLUSTER_TRIDIAGONAL), M(SUBSET)}});
  case 2: return f(Family<VisibilityClusteringType>{VisibilityClusteringTypeToString, StringToVisibilityClusteringType, {M(CANONICAL_VIEWS), M(SINGLE_LINKAGE)}});
  case 3: return f(Family<SparseLinearAlgebraLibraryType>{SparseLinearAlgebraLibraryTypeToString, StringToSparseLinearAlgebraLibraryType, {M(SUITE_SPARSE), M(EIGEN_SPARSE), M(ACCELERATE_SPARSE), M(CUDA_SPARSE), M(NO_SPARSE)}});
  case 4: return f(Family<LinearSolverOrderingType>{LinearSolverOrderingTypeToString, StringToLinearSolverOrderingType, {M(AMD), M(NESDIS)}});
  case 5: return f(Family<DenseLinearAlgebraLibraryType>{DenseLinearAlgebraLibraryTypeToString, StringToDenseLinearAlgebraLibraryType, {M(EIGEN), M(LAPACK), M(CUDA)}});
  case 6: return f(Family<LoggingType>{LoggingTypeToString, StringToLoggingType, {M(SILENT), M(PER_MINIMIZER_ITERATION)}});
  case 7: return f(Family<MinimizerType>{MinimizerTypeToString, StringToMinimizerType, {M(LINE_SEARCH), M(TRUST_REGION)}});
  case 8: return f(Family<LineSearchDirectionType>{LineSearchDirectionTypeToString, StringToLineSearchDirectionType, {M(STEEPEST_DESCENT), M(NONLINEAR_CONJUGATE_GRADIENT), M(LBFGS), M(BFGS)}});
  case 9: return f(Family<NonlinearConjugateGradientType>{NonlinearConjugateGradientTypeToString, StringToNonlinearConjugateGradientType, {M(FLETCHER_REEVES), M(POLAK_RIBIERE), M(HESTENES_STIEFEL)}});
  case 10: return f(Family<LineSearchType>{LineSearchTypeToString, StringToLineSearchType, {M(ARMIJO), M(WOLFE)}});
  case 11: return f(Family<TrustRegionStrategyType>{TrustRegionStrategyTypeToString, StringToTrustRegionStrategyType, {M(LEVENBERG_MARQUARDT), M(DOGLEG)}});
  case 12: return f(Family<DoglegType>{DoglegTypeToString, StringToDoglegType, {M(TRADITIONAL_DOGLEG), M(SUBSPACE_DOGLEG)}});
  case 13: return f(Family<DumpFormatType>{DumpFormatTypeToString, StringToDumpFormatType, {M(CONSOLE), M(TEXTFILE)}});
  case 14: return f(Family<NumericDiffMethodType>{NumericDiffMethodTypeToString, StringToNumericDiffMethodType, {M(CENTRAL), M(FORWARD), M(RIDDERS)}});
  case 15: return f(Family<LineSearchInterpolationType>{LineSearchInterpolationTypeToString, StringToLineSearchInterpolationType, {M(BISECTION), M(QUADRATIC), M(CUBIC)}});
  case 16: return f(Family<CovarianceAlgorithmType>{CovarianceAlgorithmTypeToString, StringToCovarianceAlgorithmType, {M(DENSE_SVD), M(SPARSE_QR)}});
  default: return f(Family<TerminationType>{TerminationTypeToString, nullptr, {M(CONVERGENCE), M(NO_CONVERGENCE), M(FAILURE), M(USER_SUCCESS), M(USER_FAILURE)}}); } }
enum { FAMILIES = 18 };
// Any mixture of letter cases is read back; the names differ.
// @run letters jobs=8
extern "C" void letters() { each(vp_choose("family", FAMILIES), [](auto f) { int m = vp_choose("member", f.members.size()); auto [name, value] = f.members[m]; vp_check(!strcmp(f.name(value), name), "the name of the enumerator"); if (!f.read) return; std::string s(name); for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32 * vp_int("lower", 0, 1); auto got = f.members[(m + 1) % f.members.size()].second; vp_check(f.read(s, &got), "read in any letter case"); vp_check(got == value, "the enumerator of the name"); }); }
// One byte changed anywhere: read only if it is the same letter.
// @run bytes jobs=8
extern "C" void bytes() { each(vp_choose("family", FAMILIES - 1), [](auto f) { int m = vp_choose("member", f.members.size()); auto [name, value] = f.members[m]; std::string s(name); int i = vp_choose("position", s.size()), b = vp_int("byte", -128, 127); s[i] = (char)b; auto before = f.members[(m + 1) % f.members.size()].second, got = before; bool same = up(b) == (unsigned char)name[i], ok = f.read(s, &got); vp_check(ok == same, "read exactly when it is the same letter"); vp_check(got == (same ? value : before), "the argument is left alone otherwise"); }); }
// One character too few or too many, and nothing at all.
// @run lengths jobs=8
extern "C" void lengths() { each(vp_choose("family", FAMILIES - 1), [](auto f) { int m = vp_choose("member", f.members.size()); auto [name, value] = f.members[m]; std::string s(name); int how = vp_choose("how", 5), b = vp_int("byte", -128, 127); if (how == 0) s += (char)b; if (how == 1) s.insert(s.begin(), (char)b); if (how == 2) s.pop_back(); if (how == 3) s.erase(s.begin()); if (how == 4) s.clear(); auto before = f.members[(m + 1) % f.members.size()].second, got = before, want = before; bool known = false; std::string u = s; for (char& c : u) c = up(c); for (auto& q : f.members) if (u == q.first) { known = true; want = q.second; } vp_check(f.read(s, &got) == known, "not a name"); vp_check(got == want, "the argument is left alone"); }); }
// Every integer: enumerators have names, others are UNKNOWN.
// @run values jobs=8
extern "C" void values() { each(vp_choose("family", FAMILIES), [](auto f) { int n = vp_int("value", -1000, 1000); const char* s = f.name(static_cast<decltype(f.members[0].second)>(n)); bool known = false; for (auto& q : f.members) if (vp_decide(n == (int)q.second)) { known = true; vp_check(!strcmp(s, q.first), "its name"); } if (!known) vp_check(!strcmp(s, "UNKNOWN"), "unknown values"); }); }
// What the names say about the build.
// @run kinds
extern "C" void kinds() { int n = vp_int("type", 0, 6); vp_check(IsSchurType((LinearSolverType)n) == (n == DENSE_SCHUR || n == SPARSE_SCHUR || n == ITERATIVE_SCHUR), "Schur types"); vp_check(IsSparseLinearAlgebraLibraryTypeAvailable(EIGEN_SPARSE) && IsSparseLinearAlgebraLibraryTypeAvailable(NO_SPARSE) && IsDenseLinearAlgebraLibraryTypeAvailable(EIGEN), "always available");
#ifdef CERES_NO_SUITESPARSE
  vp_check(!IsSparseLinearAlgebraLibraryTypeAvailable(SUITE_SPARSE), "SuiteSparse");
#endif
#ifdef CERES_NO_CUDA
  vp_check(!IsSparseLinearAlgebraLibraryTypeAvailable(CUDA_SPARSE) && !IsDenseLinearAlgebraLibraryTypeAvailable(CUDA), "CUDA");
#endif
#ifdef CERES_NO_LAPACK
  vp_check(!IsDenseLinearAlgebraLibraryTypeAvailable(LAPACK), "LAPACK");
#endif
}
