// Hash-consed symbolic expressions used by the executor.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>

enum Sort : uint8_t { S_BOOL, S_BV, S_REAL, S_FP };
enum Op : uint8_t {
  // leaves
  O_BCONST, O_BVCONST, O_RCONST, O_FPCONST, O_VAR,
  // bool
  O_NOT, O_AND, O_OR, O_BEQ, O_BVEQ, O_ULT, O_ULE, O_SLT, O_SLE, O_RLT, O_RLE, O_REQ,
  O_FLT, O_FLE, O_FEQ, O_FISNAN,
  // any sort
  O_ITE,
  // bit-vectors
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_BAND, O_BOR, O_BXOR,
  O_SHL, O_LSHR, O_ASHR, O_ZEXT, O_SEXT, O_EXTRACT /*k = low bit*/, O_CONCAT,
  O_F2BV /*bits*/, O_F2SI, O_F2UI,
  // reals
  O_RADD, O_RMUL, O_RDIV, O_S2R, O_U2R,
  // floats
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FSQRT, O_FMIN, O_FMAX,
  O_FRND /*k: 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away*/, O_BV2F, O_SI2F, O_UI2F, O_FCVT, O_FREM
};

struct Poly;
struct RatFun;
typedef std::vector<uint64_t> BitSet;

struct Expr {
  Op op; Sort sort; uint16_t width;  // BV width / FP width (32|64)
  uint32_t id;
  Expr *a = nullptr, *b = nullptr, *c = nullptr;
  uint64_t k = 0;
  mpq_class* q = nullptr;
  // caches
  void* z = nullptr;                 // Z3_ast
  BitSet* vars = nullptr;
  double dval = 0; uint64_t uval = 0; uint32_t eval_epoch = 0; bool dok = false;
  std::shared_ptr<RatFun> nf; uint32_t nf_epoch = 0; bool nf_fail = false;
  uint8_t flags = 0; bool flags_done = false;  // contents: 1 BV 2 real-nonlin 4 real 8 FP 16 ite-real
  bool isConst() const { return op <= O_FPCONST; }
  bool isTrue() const { return op == O_BCONST && k == 1; }
  bool isFalse() const { return op == O_BCONST && k == 0; }
};

struct VarInfo {
  std::string name; Sort sort; uint16_t width; Expr* e;
  int kind = 0;                      // 0 input, 1 auxiliary (math), 2 uninitialised memory, 3 environment
  std::vector<Expr*> defs;           // constraints that define it
  Expr* square = nullptr;            // rewriting rule var^2 -> square
  Expr* subst = nullptr;             // rewriting rule var -> subst
  // how to recompute an auxiliary numerically
  int fn = 0; Expr *x = nullptr, *y = nullptr;
  // replay
  int input_index = -1;
  double dval = 0; uint64_t uval = 0;  // current concolic value
  Expr* root = nullptr; // the nonnegative square root of this term
  bool hasrange = false; double lo = 0, hi = 0; // sampling hint
};

extern std::vector<VarInfo> g_vars;
extern uint32_t g_nf_epoch;

Expr* mkBool(bool);
Expr* mkBV(uint64_t v, unsigned w);
Expr* mkRat(const mpq_class& q);
Expr* mkRatD(double d);
Expr* mkFPc(uint64_t bits, unsigned w);
Expr* mkVar(const std::string& name, Sort s, unsigned w, int kind);
Expr* mkNot(Expr*);
Expr* mkAnd(Expr*, Expr*);
Expr* mkOr(Expr*, Expr*);
Expr* mkBeq(Expr*, Expr*);
Expr* mkIte(Expr*, Expr*, Expr*);
Expr* mkBin(Op op, Expr* a, Expr* b);        // BV arithmetic
Expr* mkCmp(Op op, Expr* a, Expr* b);        // BVEQ, ULT, ...
Expr* mkExt(Op op, Expr* a, unsigned w);     // ZEXT / SEXT
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkRAdd(Expr*, Expr*);
Expr* mkRSub(Expr*, Expr*);
Expr* mkRMul(Expr*, Expr*);
Expr* mkRDiv(Expr*, Expr*);
Expr* mkRNeg(Expr*);
Expr* mkRCmp(Op op, Expr*, Expr*);
Expr* mkI2R(Op op, Expr*);
Expr* mkFP(Op op, unsigned w, Expr* a, Expr* b = nullptr, uint64_t k = 0); // FP-sorted results
Expr* mkFPred(Op op, Expr* a, Expr* b = nullptr);
Expr* mkF2BV(Expr* a);
Expr* mkF2I(Op op, Expr* a, unsigned w);
Expr* bool2bv(Expr* b, unsigned w);

int64_t sx(uint64_t v, unsigned w);
inline uint64_t mask(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
const BitSet& varsOf(Expr*);
unsigned flagsOf(Expr*);
enum { FL_BV = 1, FL_NONLIN = 2, FL_REAL = 4, FL_FP = 8, FL_RITE = 16 };

// numeric evaluation under the current values in g_vars
extern uint32_t g_eval_epoch;
bool evalD(Expr* e);       // fills e->dval / e->uval ; false = cannot
std::string exprStr(Expr*, int depth = 6);
extern size_t g_nexpr;

// ---- normal forms (poly.cc)
bool nfZero(Expr* e, bool* ok);       // decides e == 0 as a rational function (ok=false: gave up)
bool nfRoot(Expr* e, int* var, mpq_class* v);  // e == 0 means var == v
bool nfSquares(Expr* e, std::vector<int>* vars);  // e == 0 means every one of vars is zero
bool nfConst(Expr* e, mpq_class* v);  // e is a constant
Expr* nfSignExpr(Expr* e);            // polynomial expression with the sign of e (den cleared), or null
Expr* nfNumExpr(Expr* e);             // numerator polynomial
bool nfPerfectSquare(Expr* e, Expr** root);  // e == root^2
