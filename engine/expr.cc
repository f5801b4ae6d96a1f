#include "expr.h"
#include <cassert>
#include <cmath>
#include <cstring>
#include <functional>

std::vector<VarInfo> g_vars;
uint32_t g_nf_epoch = 1, g_eval_epoch = 1;
size_t g_nexpr = 0;

namespace {
struct H {
  size_t operator()(const Expr* e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull ^ (uint64_t)e->width << 40 ^ e->k * 0xff51afd7ed558ccdull;
    h ^= (uint64_t)(uintptr_t)e->a * 0xc4ceb9fe1a85ec53ull; h = (h << 13) | (h >> 51);
    h ^= (uint64_t)(uintptr_t)e->b * 0x9ddfea08eb382d69ull; h = (h << 17) | (h >> 47);
    h ^= (uint64_t)(uintptr_t)e->c * 0xa0761d6478bd642full;
    if (e->q) {
      h ^= mpz_get_ui(e->q->get_num_mpz_t()) * 0x2545F4914F6CDD1Dull + mpz_sgn(e->q->get_num_mpz_t());
      h = (h << 9) | (h >> 55);
      h ^= mpz_get_ui(e->q->get_den_mpz_t()) * 0xD6E8FEB86659FD93ull;
    }
    h ^= h >> 32; return h * 0x9E3779B97F4A7C15ull;
  }
};
struct Q {
  bool operator()(const Expr* x, const Expr* y) const {
    return x->op == y->op && x->sort == y->sort && x->width == y->width && x->a == y->a && x->b == y->b &&
           x->c == y->c && x->k == y->k && ((!x->q && !y->q) || (x->q && y->q && *x->q == *y->q));
  }
};
std::unordered_set<Expr*, H, Q>& table() { static auto* t = new std::unordered_set<Expr*, H, Q>(1 << 16); return *t; }

Expr* intern(Expr& proto) {
  auto& t = table();
  auto it = t.find(&proto);
  if (it != t.end()) { if (proto.q) delete proto.q; return *it; }
  Expr* e = new Expr(proto);
  e->id = ++g_nexpr;
  t.insert(e);
  return e;
}
Expr* node(Op op, Sort s, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, uint64_t k = 0) {
  Expr p{}; p.op = op; p.sort = s; p.width = w; p.a = a; p.b = b; p.c = c; p.k = k;
  return intern(p);
}
bool C(Expr* e) { return e->isConst(); }
}  // namespace

int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

Expr* mkBool(bool v) { static Expr* t = node(O_BCONST, S_BOOL, 1, 0, 0, 0, 1); static Expr* f = node(O_BCONST, S_BOOL, 1, 0, 0, 0, 0); return v ? t : f; }
Expr* mkBV(uint64_t v, unsigned w) { return node(O_BVCONST, S_BV, w, 0, 0, 0, mask(v, w)); }
Expr* mkRat(const mpq_class& q) { Expr p{}; p.op = O_RCONST; p.sort = S_REAL; p.q = new mpq_class(q); p.q->canonicalize(); return intern(p); }
Expr* mkRatD(double d) { return mkRat(mpq_class(d)); }
Expr* mkFPc(uint64_t bits, unsigned w) { return node(O_FPCONST, S_FP, w, 0, 0, 0, bits); }
Expr* mkVar(const std::string& name, Sort s, unsigned w, int kind) {
  uint64_t id = g_vars.size();
  Expr* e = node(O_VAR, s, w, 0, 0, 0, id);
  VarInfo v; v.name = name; v.sort = s; v.width = w; v.e = e; v.kind = kind;
  g_vars.push_back(v);
  return e;
}
Expr* mkNot(Expr* a) {
  if (C(a)) return mkBool(!a->k);
  if (a->op == O_NOT) return a->a;
  // push through order comparisons (total orders only)
  switch (a->op) {
    case O_ULT: return node(O_ULE, S_BOOL, 1, a->b, a->a);
    case O_ULE: return node(O_ULT, S_BOOL, 1, a->b, a->a);
    case O_SLT: return node(O_SLE, S_BOOL, 1, a->b, a->a);
    case O_SLE: return node(O_SLT, S_BOOL, 1, a->b, a->a);
    case O_RLT: return node(O_RLE, S_BOOL, 1, a->b, a->a);
    case O_RLE: return node(O_RLT, S_BOOL, 1, a->b, a->a);
    default: break;
  }
  return node(O_NOT, S_BOOL, 1, a);
}
Expr* mkAnd(Expr* a, Expr* b) {
  if (a->isTrue()) return b; if (b->isTrue()) return a;
  if (a->isFalse() || b->isFalse()) return mkBool(false);
  if (a == b) return a;
  if (a->id > b->id) std::swap(a, b);
  if (mkNot(a) == b) return mkBool(false);
  return node(O_AND, S_BOOL, 1, a, b);
}
Expr* mkOr(Expr* a, Expr* b) {
  if (a->isFalse()) return b; if (b->isFalse()) return a;
  if (a->isTrue() || b->isTrue()) return mkBool(true);
  if (a == b) return a;
  if (a->id > b->id) std::swap(a, b);
  if (mkNot(a) == b) return mkBool(true);
  return node(O_OR, S_BOOL, 1, a, b);
}
Expr* mkBeq(Expr* a, Expr* b) {
  if (C(a) && C(b)) return mkBool(a->k == b->k);
  if (a == b) return mkBool(true);
  if (C(a)) return a->k ? b : mkNot(b);
  if (C(b)) return b->k ? a : mkNot(a);
  if (a->id > b->id) std::swap(a, b);
  return node(O_BEQ, S_BOOL, 1, a, b);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (C(c)) return c->k ? a : b;
  if (a == b) return a;
  if (a->sort == S_BOOL) {
    if (a->isTrue() && b->isFalse()) return c;
    if (a->isFalse() && b->isTrue()) return mkNot(c);
    if (a->isTrue()) return mkOr(c, b);
    if (b->isFalse()) return mkAnd(c, a);
    if (a->isFalse()) return mkAnd(mkNot(c), b);
    if (b->isTrue()) return mkOr(mkNot(c), a);
  }
  if (c->op == O_NOT) return mkIte(c->a, b, a);
  return node(O_ITE, a->sort, a->width, c, a, b);
}
Expr* bool2bv(Expr* b, unsigned w) { return mkIte(b, mkBV(1, w), mkBV(0, w)); }

Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->width;
  assert(a->sort == S_BV && b->sort == S_BV && a->width == b->width);
  if (C(a) && C(b)) {
    uint64_t x = a->k, y = b->k, r = 0; bool ok = true;
    switch (op) {
      case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break;
      case O_UDIV: if (y) r = x / y; else ok = false; break;
      case O_UREM: if (y) r = x % y; else ok = false; break;
      case O_SDIV: if (y && !(sx(y, w) == -1)) r = sx(x, w) / sx(y, w); else if (y) r = -x; else ok = false; break;
      case O_SREM: if (y && !(sx(y, w) == -1)) r = sx(x, w) % sx(y, w); else if (y) r = 0; else ok = false; break;
      case O_BAND: r = x & y; break; case O_BOR: r = x | y; break; case O_BXOR: r = x ^ y; break;
      case O_SHL: r = y >= w ? 0 : x << y; break;
      case O_LSHR: r = y >= w ? 0 : x >> y; break;
      case O_ASHR: r = (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
      default: ok = false;
    }
    if (ok && w <= 64) return mkBV(r, w);
  }
  if (w <= 64) {
    uint64_t ones = mask(~0ull, w);
    if (op == O_ADD || op == O_MUL || op == O_BAND || op == O_BOR || op == O_BXOR) {
      if (C(a) || (!C(b) && a->id > b->id)) std::swap(a, b);  // constant second
    }
    if (C(b)) {
      if (b->k == 0) {
        switch (op) { case O_ADD: case O_SUB: case O_BOR: case O_BXOR: case O_SHL: case O_LSHR: case O_ASHR: return a;
          case O_MUL: case O_BAND: return b; default: break; }
      }
      if (b->k == 1 && (op == O_MUL || op == O_UDIV || op == O_SDIV)) return a;
      if (b->k == ones && op == O_BAND) return a;
      if (op == O_SUB) return mkBin(O_ADD, a, mkBV(-b->k, w));
      if (op == O_ADD && a->op == O_ADD && C(a->b)) return mkBin(O_ADD, a->a, mkBV(a->b->k + b->k, w));
      if (op == O_ADD && a->op == O_ITE && C(a->b) && C(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      if (op == O_BAND && a->op == O_ITE && C(a->b) && C(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      if (op == O_BXOR && a->op == O_ITE && C(a->b) && C(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      if (op == O_MUL && (b->k & (b->k - 1)) == 0) return mkBin(O_SHL, a, mkBV(__builtin_ctzll(b->k), w));
      if (op == O_UDIV && (b->k & (b->k - 1)) == 0) return mkBin(O_LSHR, a, mkBV(__builtin_ctzll(b->k), w));
      if (op == O_UREM && (b->k & (b->k - 1)) == 0) return mkBin(O_BAND, a, mkBV(b->k - 1, w));
    }
    if (a == b) {
      if (op == O_SUB || op == O_BXOR) return mkBV(0, w);
      if (op == O_BAND || op == O_BOR) return a;
    }
  }
  return node(op, S_BV, w, a, b);
}
Expr* mkCmp(Op op, Expr* a, Expr* b) {
  unsigned w = a->width;
  if (C(a) && C(b) && w <= 64) {
    uint64_t x = a->k, y = b->k;
    switch (op) {
      case O_BVEQ: return mkBool(x == y); case O_ULT: return mkBool(x < y); case O_ULE: return mkBool(x <= y);
      case O_SLT: return mkBool(sx(x, w) < sx(y, w)); case O_SLE: return mkBool(sx(x, w) <= sx(y, w)); default: break;
    }
  }
  if (a == b) return mkBool(op == O_BVEQ || op == O_ULE || op == O_SLE);
  if (op == O_BVEQ) {
    if (C(a)) std::swap(a, b);
    if (!C(b) && a->id > b->id) std::swap(a, b);
    if (C(b)) {
      if (a->op == O_ITE && C(a->b) && C(a->c)) return mkIte(a->a, mkBool(a->b->k == b->k), mkBool(a->c->k == b->k));
      if (a->op == O_ZEXT) {
        if (b->k >> a->a->width) return mkBool(false);
        return mkCmp(O_BVEQ, a->a, mkBV(b->k, a->a->width));
      }
      if (a->op == O_SEXT) {
        if (mask((uint64_t)sx(b->k, a->a->width), w) != b->k) return mkBool(false);
        return mkCmp(O_BVEQ, a->a, mkBV(b->k, a->a->width));
      }
      if (a->op == O_ADD && C(a->b)) return mkCmp(O_BVEQ, a->a, mkBV(b->k - a->b->k, w));
    }
  } else if (w <= 64) {
    if ((C(b) && a->op == O_ITE && C(a->b) && C(a->c))) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
    if ((C(a) && b->op == O_ITE && C(b->b) && C(b->c))) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
    if (op == O_ULT && C(b) && b->k == 1) return mkCmp(O_BVEQ, a, mkBV(0, w));
    if (op == O_ULT && C(b) && b->k == 0) return mkBool(false);
    if (op == O_ULE && C(a) && a->k == 0) return mkBool(true);
  }
  return node(op, S_BOOL, 1, a, b);
}
Expr* mkExt(Op op, Expr* a, unsigned w) {
  if (a->width == w) return a;
  if (C(a) && w <= 64) return mkBV(op == O_ZEXT ? a->k : (uint64_t)sx(a->k, a->width), w);
  if (a->op == op) return mkExt(op, a->a, w);
  if (a->op == O_ZEXT) return mkExt(O_ZEXT, a->a, w);  // sext of a strict zext is a zext
  if (a->op == O_ITE && C(a->b) && C(a->c) && w <= 64) return mkIte(a->a, mkExt(op, a->b, w), mkExt(op, a->c, w));
  return node(op, S_BV, w, a);
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (C(a) && a->width <= 64) return mkBV(a->k >> lo, w);
  if (a->op == O_EXTRACT) return mkExtract(a->a, a->k + lo, w);
  if ((a->op == O_ZEXT || a->op == O_SEXT)) {
    if (lo + w <= a->a->width) return mkExtract(a->a, lo, w);
    if (lo == 0 && w >= a->a->width) return mkExt(a->op, a->a, w);
    if (a->op == O_ZEXT && lo >= a->a->width && w <= 64) return mkBV(0, w);
  }
  if (a->op == O_CONCAT) {
    if (lo + w <= a->b->width) return mkExtract(a->b, lo, w);
    if (lo >= a->b->width) return mkExtract(a->a, lo - a->b->width, w);
  }
  if (a->op == O_ITE && C(a->b) && C(a->c) && a->width <= 64) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_BAND || a->op == O_BOR || a->op == O_BXOR) && a->width <= 64 && w <= 64)
    return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  return node(O_EXTRACT, S_BV, w, a, nullptr, nullptr, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->width + lo->width;
  if (C(hi) && C(lo) && w <= 64) return mkBV(hi->k << lo->width | lo->k, w);
  if (C(hi) && hi->k == 0 && w <= 64) return mkExt(O_ZEXT, lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->width) return mkExtract(hi->a, lo->k, w);
  return node(O_CONCAT, S_BV, w, hi, lo);
}
// ---------------------------------------------------------------- reals
static const mpq_class& qv(Expr* e) { return *e->q; }
Expr* mkRAdd(Expr* a, Expr* b) {
  if (C(a) && C(b)) return mkRat(qv(a) + qv(b));
  if (C(a)) std::swap(a, b);
  if (C(b) && qv(b) == 0) return a;
  if (!C(b) && a->id > b->id) std::swap(a, b);
  if (C(b) && a->op == O_RADD && C(a->b)) return mkRAdd(a->a, mkRat(qv(a->b) + qv(b)));
  if (mkRNeg(a) == b) return mkRat(0);
  return node(O_RADD, S_REAL, 0, a, b);
}
Expr* mkRNeg(Expr* a) {
  if (C(a)) return mkRat(-qv(a));
  return mkRMul(a, mkRat(-1));
}
Expr* mkRSub(Expr* a, Expr* b) { if (a == b) return mkRat(0); return mkRAdd(a, mkRNeg(b)); }
Expr* mkRMul(Expr* a, Expr* b) {
  if (C(a) && C(b)) return mkRat(qv(a) * qv(b));
  if (C(a)) std::swap(a, b);
  if (C(b)) {
    if (qv(b) == 0) return b;
    if (qv(b) == 1) return a;
    if (a->op == O_RMUL && C(a->b)) return mkRMul(a->a, mkRat(qv(a->b) * qv(b)));
  } else if (a->id > b->id) std::swap(a, b);
  return node(O_RMUL, S_REAL, 0, a, b);
}
Expr* mkRDiv(Expr* a, Expr* b) {
  if (C(b) && qv(b) != 0) return mkRMul(a, mkRat(1 / qv(b)));
  if (C(a) && qv(a) == 0) return a;   // divisor is non-zero on this path
  if (a == b) return mkRat(1);
  return node(O_RDIV, S_REAL, 0, a, b);
}
Expr* mkRCmp(Op op, Expr* a, Expr* b) {
  if (C(a) && C(b)) {
    int c = cmp(qv(a), qv(b));
    return mkBool(op == O_RLT ? c < 0 : op == O_RLE ? c <= 0 : c == 0);
  }
  if (a == b) return mkBool(op != O_RLT);
  if (op == O_REQ && a->id > b->id) std::swap(a, b);
  return node(op, S_BOOL, 1, a, b);
}
Expr* mkI2R(Op op, Expr* a) {
  if (C(a)) { if (op == O_S2R) return mkRat(mpq_class((long)sx(a->k, a->width))); return mkRat(mpq_class((unsigned long)a->k)); }
  if (a->op == O_ITE && C(a->b) && C(a->c)) return mkIte(a->a, mkI2R(op, a->b), mkI2R(op, a->c));
  return node(op, S_REAL, 0, a);
}
// ---------------------------------------------------------------- floats
static double d64(uint64_t k) { double d; memcpy(&d, &k, 8); return d; }
static uint64_t b64(double d) { uint64_t k; memcpy(&k, &d, 8); return k; }
static float d32(uint64_t k) { float d; uint32_t x = k; memcpy(&d, &x, 4); return d; }
static uint64_t b32(float d) { uint32_t k; memcpy(&k, &d, 4); return k; }
template <class T> static T frnd(T v, uint64_t k) { switch (k) { case 0: return std::floor(v); case 1: return std::ceil(v); case 2: return std::trunc(v); case 3: return std::nearbyint(v); default: return std::round(v); } }
Expr* mkFP(Op op, unsigned w, Expr* a, Expr* b, uint64_t k) {
  if (C(a) && (!b || C(b))) {
    if (a->sort == S_FP && op != O_FCVT) {
      if (w == 64) {
        double x = d64(a->k), y = b ? d64(b->k) : 0, r;
        switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break;
          case O_FDIV: r = x / y; break; case O_FNEG: return mkFPc(a->k ^ (1ull << 63), 64); case O_FABS: return mkFPc(a->k & ~(1ull << 63), 64); case O_FSQRT: r = std::sqrt(x); break;
          case O_FMIN: r = std::fmin(x, y); break; case O_FMAX: r = std::fmax(x, y); break; case O_FRND: r = frnd(x, k); break;
          case O_FREM: r = std::fmod(x, y); break; default: r = 0; assert(0); }
        return mkFPc(b64(r), 64);
      } else {
        float x = d32(a->k), y = b ? d32(b->k) : 0, r;
        switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break;
          case O_FDIV: r = x / y; break; case O_FNEG: return mkFPc(a->k ^ (1u << 31), 32); case O_FABS: return mkFPc(a->k & ~(1u << 31), 32); case O_FSQRT: r = std::sqrt(x); break;
          case O_FMIN: r = std::fmin(x, y); break; case O_FMAX: r = std::fmax(x, y); break; case O_FRND: r = frnd(x, k); break;
          case O_FREM: r = std::fmod(x, y); break; default: r = 0; assert(0); }
        return mkFPc(b32(r), 32);
      }
    }
    if (op == O_FCVT) return w == 64 ? mkFPc(b64((double)d32(a->k)), 64) : mkFPc(b32((float)d64(a->k)), 32);
    if (op == O_BV2F) return mkFPc(a->k, w);
    if (op == O_SI2F) return w == 64 ? mkFPc(b64((double)sx(a->k, a->width)), 64) : mkFPc(b32((float)sx(a->k, a->width)), 32);
    if (op == O_UI2F) return w == 64 ? mkFPc(b64((double)a->k), 64) : mkFPc(b32((float)a->k), 32);
  }
  if (op == O_FNEG && a->op == O_FNEG) return a->a;
  if (op == O_FABS && (a->op == O_FABS)) return a;
  if (op == O_FABS && a->op == O_FNEG) return mkFP(O_FABS, w, a->a);
  if (op == O_BV2F && a->op == O_F2BV) return a->a;
  if ((op == O_FADD || op == O_FMUL) && a->id > b->id) std::swap(a, b);
  return node(op, S_FP, w, a, b, nullptr, k);
}
Expr* mkFPred(Op op, Expr* a, Expr* b) {
  if (C(a) && (!b || C(b))) {
    double x = a->width == 64 ? d64(a->k) : d32(a->k), y = b ? (b->width == 64 ? d64(b->k) : d32(b->k)) : 0;
    switch (op) { case O_FLT: return mkBool(x < y); case O_FLE: return mkBool(x <= y); case O_FEQ: return mkBool(x == y);
      case O_FISNAN: return mkBool(x != x); default: break; }
  }
  if (op == O_FISNAN && (a->op == O_FNEG || a->op == O_FABS)) return mkFPred(op, a->a);
  if (op == O_FEQ && a->id > b->id) std::swap(a, b);
  return node(op, S_BOOL, 1, a, b);
}
Expr* mkF2BV(Expr* a) {
  if (C(a)) return mkBV(a->k, a->width);
  if (a->op == O_BV2F) return a->a;
  return node(O_F2BV, S_BV, a->width, a);
}
Expr* mkF2I(Op op, Expr* a, unsigned w) {
  if (C(a)) { double x = a->width == 64 ? d64(a->k) : d32(a->k); return op == O_F2SI ? mkBV((uint64_t)(int64_t)x, w) : mkBV((uint64_t)x, w); }
  return node(op, S_BV, w, a);
}

// ---------------------------------------------------------------- traversals
static void orInto(BitSet& d, const BitSet& s) { if (d.size() < s.size()) d.resize(s.size()); for (size_t i = 0; i < s.size(); ++i) d[i] |= s[i]; }
const BitSet& varsOf(Expr* e) {
  if (e->vars) return *e->vars;
  // iterative: deep sums would overflow the host stack
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    bool ready = true;
    for (Expr* ch : {x->a, x->b, x->c}) if (ch && !ch->vars) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    if (x->op == O_VAR) { auto* s = new BitSet(x->k / 64 + 1); (*s)[x->k / 64] |= 1ull << (x->k % 64); x->vars = s; continue; }
    static BitSet* empty = new BitSet();
    int n = 0; Expr* only = nullptr;
    for (Expr* ch : {x->a, x->b, x->c}) if (ch && !ch->vars->empty()) { if (!only || ch->vars != only->vars) n++; only = ch; }
    if (n == 0) { x->vars = empty; continue; }
    if (n == 1) { x->vars = only->vars; continue; }
    auto* s = new BitSet();
    for (Expr* ch : {x->a, x->b, x->c}) if (ch) orInto(*s, *ch->vars);
    x->vars = s;
  }
  return *e->vars;
}
unsigned flagsOf(Expr* e) {
  if (e->flags_done) return e->flags;
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->flags_done) { st.pop_back(); continue; }
    bool ready = true;
    for (Expr* ch : {x->a, x->b, x->c}) if (ch && !ch->flags_done) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    unsigned f = 0;
    for (Expr* ch : {x->a, x->b, x->c}) if (ch) f |= ch->flags;
    if (x->sort == S_BV) f |= FL_BV;
    if (x->sort == S_FP) f |= FL_FP;
    if (x->sort == S_REAL) f |= FL_REAL;
    if (x->op == O_RMUL && !C(x->a) && !C(x->b)) f |= FL_NONLIN;
    if (x->op == O_RDIV) f |= FL_NONLIN;
    if (x->op == O_ITE && x->sort == S_REAL) f |= FL_RITE;
    x->flags = f; x->flags_done = true;
  }
  return e->flags;
}

// numeric evaluation -----------------------------------------------------
static bool evalNode(Expr* x) {
  auto B = [&](bool v) { x->uval = v; x->dval = v; return true; };
  Expr *a = x->a, *b = x->b, *c = x->c;
  unsigned w = x->width;
  auto D = [&](double d) { x->dval = d; if (x->sort == S_FP) x->uval = w == 64 ? b64(d) : b32((float)d); return true; };
  switch (x->op) {
    case O_BCONST: case O_BVCONST: x->uval = x->k; return w <= 64;
    case O_RCONST: x->dval = x->q->get_d(); return true;
    case O_FPCONST: x->uval = x->k; x->dval = w == 64 ? d64(x->k) : d32(x->k); return true;
    case O_VAR: { VarInfo& v = g_vars[x->k];
      if (v.sort == S_REAL) x->dval = v.dval;
      else if (v.sort == S_FP) { x->uval = v.uval; x->dval = w == 64 ? d64(v.uval) : d32(v.uval); }
      else x->uval = v.uval;
      return true; }
    case O_NOT: return B(!a->uval);
    case O_AND: return B(a->uval && b->uval);
    case O_OR: return B(a->uval || b->uval);
    case O_BEQ: return B(a->uval == b->uval);
    case O_BVEQ: return B(a->uval == b->uval);
    case O_ULT: return B(a->uval < b->uval);
    case O_ULE: return B(a->uval <= b->uval);
    case O_SLT: return B(sx(a->uval, a->width) < sx(b->uval, b->width));
    case O_SLE: return B(sx(a->uval, a->width) <= sx(b->uval, b->width));
    case O_RLT: case O_FLT: return B(a->dval < b->dval);
    case O_RLE: case O_FLE: return B(a->dval <= b->dval);
    case O_REQ: { double m = std::fabs(a->dval) + std::fabs(b->dval); return B(a->dval == b->dval || std::fabs(a->dval - b->dval) <= 1e-9 * m); }
    case O_FEQ: return B(a->dval == b->dval);
    case O_FISNAN: return B(a->dval != a->dval);
    case O_ITE: { Expr* s = a->uval ? b : c; x->uval = s->uval; x->dval = s->dval; return true; }
    case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_BAND: case O_BOR: case O_BXOR: case O_SHL: case O_LSHR: case O_ASHR: {
      if (w > 64) return false;
      uint64_t p = a->uval, q = b->uval, r = 0;
      switch (x->op) {
        case O_ADD: r = p + q; break; case O_SUB: r = p - q; break; case O_MUL: r = p * q; break;
        case O_UDIV: r = q ? p / q : ~0ull; break; case O_UREM: r = q ? p % q : p; break;
        case O_SDIV: r = !q ? 0 : sx(q, w) == -1 ? -p : (uint64_t)(sx(p, w) / sx(q, w)); break;
        case O_SREM: r = !q ? p : sx(q, w) == -1 ? 0 : (uint64_t)(sx(p, w) % sx(q, w)); break;
        case O_BAND: r = p & q; break; case O_BOR: r = p | q; break; case O_BXOR: r = p ^ q; break;
        case O_SHL: r = q >= w ? 0 : p << q; break; case O_LSHR: r = q >= w ? 0 : p >> q; break;
        case O_ASHR: r = (uint64_t)(sx(p, w) >> (q >= w ? w - 1 : q)); break; default: break;
      }
      x->uval = mask(r, w); return true; }
    case O_ZEXT: if (w > 64) return false; x->uval = a->uval; return true;
    case O_SEXT: if (w > 64) return false; x->uval = mask((uint64_t)sx(a->uval, a->width), w); return true;
    case O_EXTRACT: if (a->width > 64) return false; x->uval = mask(a->uval >> x->k, w); return true;
    case O_CONCAT: if (w > 64) return false; x->uval = a->uval << b->width | b->uval; return true;
    case O_F2BV: x->uval = a->uval; return true;
    case O_F2SI: x->uval = mask((uint64_t)(int64_t)a->dval, w); return true;
    case O_F2UI: x->uval = mask((uint64_t)a->dval, w); return true;
    case O_RADD: case O_FADD: return D(a->dval + b->dval);
    case O_FSUB: return D(a->dval - b->dval);
    case O_RMUL: case O_FMUL: return D(a->dval * b->dval);
    case O_RDIV: case O_FDIV: return D(a->dval / b->dval);
    case O_S2R: case O_SI2F: return D((double)sx(a->uval, a->width));
    case O_U2R: case O_UI2F: return D((double)a->uval);
    case O_FNEG: return D(-a->dval);
    case O_FABS: return D(std::fabs(a->dval));
    case O_FSQRT: return D(std::sqrt(a->dval));
    case O_FMIN: return D(std::fmin(a->dval, b->dval));
    case O_FMAX: return D(std::fmax(a->dval, b->dval));
    case O_FRND: return D(frnd(a->dval, x->k));
    case O_FREM: return D(std::fmod(a->dval, b->dval));
    case O_BV2F: x->uval = a->uval; x->dval = w == 64 ? d64(a->uval) : d32(a->uval); return true;
    case O_FCVT: return D(w == 64 ? a->dval : (double)(float)a->dval);
  }
  return false;
}
bool evalD(Expr* e) {
  if (e->eval_epoch == g_eval_epoch) return e->dok;
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->eval_epoch == g_eval_epoch) { st.pop_back(); continue; }
    bool ready = true, ok = true;
    for (Expr* ch : {x->a, x->b, x->c}) if (ch) { if (ch->eval_epoch != g_eval_epoch) { st.push_back(ch); ready = false; } else ok &= ch->dok; }
    if (!ready) continue;
    st.pop_back();
    x->dok = ok && evalNode(x);
    if (x->dok && x->sort == S_REAL && !std::isfinite(x->dval)) x->dok = false;
    x->eval_epoch = g_eval_epoch;
  }
  return e->dok;
}

std::string exprStr(Expr* e, int d) {
  static const char* names[] = {"b","bv","r","fp","var","not","and","or","beq","=","ult","ule","slt","sle","<","<=","==","f<","f<=","f==","isnan","ite",
    "add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","f2bv","f2si","f2ui",
    "+","*","/","s2r","u2r","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","fmin","fmax","frnd","bv2f","si2f","ui2f","fcvt","frem"};
  switch (e->op) {
    case O_BCONST: return e->k ? "true" : "false";
    case O_BVCONST: return std::to_string(sx(e->k, e->width));
    case O_RCONST: return e->q->get_str();
    case O_FPCONST: return std::to_string(e->width == 64 ? d64(e->k) : d32(e->k));
    case O_VAR: return g_vars[e->k].name;
    default: break;
  }
  if (d == 0) return "...";
  std::string s = std::string("(") + names[e->op];
  for (Expr* c : {e->a, e->b, e->c}) if (c) s += " " + exprStr(c, d - 1);
  return s + ")";
}
