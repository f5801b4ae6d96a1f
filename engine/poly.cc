// Canonical form of real-valued terms: multivariate rational functions over Q
// with factored denominators, modulo rewriting rules v^2 -> R (square roots,
// sine/cosine pairs) and v -> R.  Used to simplify queries before they go to Z3.
#include "expr.h"
#include <algorithm>
#include <map>
#include <cstdio>

typedef uint32_t Mono;
struct Term { Mono m; mpq_class c; };
struct Poly { std::vector<Term> t; };           // sorted, largest monomial first
struct RatFun { Poly num; std::vector<std::pair<int, int>> den; };  // factor id, exponent > 0

size_t g_nf_limit = 3000;
namespace {
struct GiveUp {};
typedef std::vector<std::pair<uint32_t, uint32_t>> MV;  // (var, exp), var descending
std::vector<MV> monos{MV()};
struct MVH { size_t operator()(const MV& v) const { size_t h = 1469598103934665603ull; for (auto& p : v) { h ^= p.first * 131071ull + p.second; h *= 1099511628211ull; } return h; } };
std::unordered_map<MV, Mono, MVH> monoIds{{MV(), 0}};
Mono internM(const MV& v) { auto it = monoIds.find(v); if (it != monoIds.end()) return it->second; Mono id = monos.size(); monos.push_back(v); monoIds[v] = id; return id; }
// lex order, higher variable id dominates
int cmpM(Mono a, Mono b) {
  if (a == b) return 0;
  const MV &x = monos[a], &y = monos[b];
  size_t i = 0;
  for (;; ++i) {
    if (i == x.size()) return i == y.size() ? 0 : -1;
    if (i == y.size()) return 1;
    if (x[i].first != y[i].first) return x[i].first > y[i].first ? 1 : -1;
    if (x[i].second != y[i].second) return x[i].second > y[i].second ? 1 : -1;
  }
}
std::unordered_map<uint64_t, Mono> mulMemo;
Mono mulM(Mono a, Mono b) {
  if (!a) return b; if (!b) return a;
  if (a > b) std::swap(a, b);
  uint64_t key = (uint64_t)a << 32 | b;
  auto it = mulMemo.find(key); if (it != mulMemo.end()) return it->second;
  const MV x = monos[a], y = monos[b]; MV r; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first > y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first > x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); ++i; ++j; }
  }
  return mulMemo[key] = internM(r);
}
bool divM(Mono a, Mono b, Mono* out) {  // a / b
  const MV x = monos[a], y = monos[b]; MV r; size_t i = 0, j = 0;
  for (; i < x.size(); ++i) {
    if (j < y.size() && y[j].first > x[i].first) return false;
    if (j < y.size() && y[j].first == x[i].first) {
      if (x[i].second < y[j].second) return false;
      if (x[i].second > y[j].second) r.push_back({x[i].first, x[i].second - y[j].second});
      ++j;
    } else r.push_back(x[i]);
  }
  if (j < y.size()) return false;
  *out = internM(r); return true;
}
Poly constP(const mpq_class& c) { Poly p; if (c != 0) p.t.push_back({0, c}); return p; }
Poly varP(uint32_t v) { Poly p; p.t.push_back({internM(MV{{v, 1}}), 1}); return p; }
void lim(size_t n) { if (n > g_nf_limit) throw GiveUp(); }
Poly addP(const Poly& a, const Poly& b, const mpq_class& k = 1) {  // a + k*b
  Poly r; r.t.reserve(a.t.size() + b.t.size()); size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    int c = i == a.t.size() ? -1 : j == b.t.size() ? 1 : cmpM(a.t[i].m, b.t[j].m);
    if (c > 0) r.t.push_back(a.t[i++]);
    else if (c < 0) { r.t.push_back({b.t[j].m, b.t[j].c * k}); ++j; }
    else { mpq_class s = a.t[i].c + b.t[j].c * k; if (s != 0) r.t.push_back({a.t[i].m, s}); ++i; ++j; }
  }
  lim(r.t.size()); return r;
}
Poly scaleP(const Poly& a, const mpq_class& k) { if (k == 0) return Poly(); Poly r = a; if (k != 1) for (auto& t : r.t) t.c *= k; return r; }
Poly mulP(const Poly& a, const Poly& b) {
  if (a.t.empty() || b.t.empty()) return Poly();
  if (a.t.size() == 1 && a.t[0].m == 0) return scaleP(b, a.t[0].c);
  if (b.t.size() == 1 && b.t[0].m == 0) return scaleP(a, b.t[0].c);
  if (a.t.size() * b.t.size() > 400000) throw GiveUp();
  std::unordered_map<Mono, mpq_class> acc; acc.reserve(a.t.size() * b.t.size());
  for (auto& x : a.t) for (auto& y : b.t) { mpq_class& s = acc[mulM(x.m, y.m)]; s += x.c * y.c; }
  Poly r; for (auto& kv : acc) if (kv.second != 0) r.t.push_back({kv.first, kv.second});
  lim(r.t.size());
  std::sort(r.t.begin(), r.t.end(), [](const Term& x, const Term& y) { return cmpM(x.m, y.m) > 0; });
  return r;
}
bool divP(const Poly& a, const Poly& b, Poly* q) {  // exact division
  if (b.t.empty()) return false;
  if (a.t.empty()) { *q = Poly(); return true; }
  Mono mm;
  if (!divM(a.t[0].m, b.t[0].m, &mm)) return false;
  if (!divM(a.t.back().m, b.t.back().m, &mm)) return false;
  if (a.t.size() * b.t.size() > 200000) return false;
  std::map<Mono, mpq_class, bool (*)(Mono, Mono)> rem([](Mono x, Mono y) { return cmpM(x, y) > 0; });
  for (auto& t : a.t) rem[t.m] = t.c;
  Poly r; size_t steps = 0;
  while (!rem.empty()) {
    auto it = rem.begin();
    if (!divM(it->first, b.t[0].m, &mm)) return false;
    if (++steps > a.t.size() * 4 + 50) return false;
    mpq_class c = it->second / b.t[0].c;
    r.t.push_back({mm, c});
    for (auto& t : b.t) {
      Mono m = mulM(mm, t.m);
      auto jt = rem.find(m);
      if (jt == rem.end()) rem[m] = -c * t.c;
      else { jt->second -= c * t.c; if (jt->second == 0) rem.erase(jt); }
    }
    if (rem.size() > 4 * g_nf_limit) return false;
  }
  *q = r; return true;
}
// ---- interned denominators
std::vector<Poly> factors; std::map<std::vector<std::pair<Mono, std::string>>, int> factorIds;
int internF(const Poly& p) {
  std::vector<std::pair<Mono, std::string>> key;
  for (auto& t : p.t) key.push_back({t.m, t.c.get_str()});
  auto it = factorIds.find(key); if (it != factorIds.end()) return it->second;
  int id = factors.size(); factors.push_back(p); factorIds[key] = id; return id;
}
void addDen(RatFun& f, int id, int e) { for (auto& d : f.den) if (d.first == id) { d.second += e; return; } f.den.push_back({id, e}); }
Poly powP(const Poly& p, int e) { Poly r = constP(1); while (e-- > 0) r = mulP(r, p); return r; }
void cancel(RatFun& f) {
  if (f.num.t.empty()) { f.den.clear(); return; }
  for (size_t i = 0; i < f.den.size();) {
    Poly q; bool gone = false;
    while (f.den[i].second > 0 && divP(f.num, factors[f.den[i].first], &q)) { f.num = q; if (--f.den[i].second == 0) { gone = true; break; } }
    if (gone) f.den.erase(f.den.begin() + i); else ++i;
  }
}
std::shared_ptr<RatFun> nfOf(Expr* e);
RatFun reduce(RatFun f);
RatFun addF(const RatFun& a, const RatFun& b) {
  if (a.num.t.empty()) return b; if (b.num.t.empty()) return a;
  RatFun r; 
  if (a.den == b.den) { r.num = addP(a.num, b.num); r.den = a.den; }
  else {
    r.den = a.den;
    for (auto& d : b.den) { bool hit = false; for (auto& x : r.den) if (x.first == d.first) { x.second = std::max(x.second, d.second); hit = true; } if (!hit) r.den.push_back(d); }
    auto lift = [&](const RatFun& f) { Poly p = f.num; for (auto& x : r.den) { int have = 0; for (auto& d : f.den) if (d.first == x.first) have = d.second; if (x.second > have) p = mulP(p, powP(factors[x.first], x.second - have)); } return p; };
    r.num = addP(lift(a), lift(b));
  }
  cancel(r); std::sort(r.den.begin(), r.den.end());
  return reduce(r);
}
RatFun mulF(const RatFun& a, const RatFun& b) {
  RatFun x = a, y = b;
  // cross-cancel before multiplying
  for (int side = 0; side < 2; ++side) {
    RatFun &n = side ? y : x, &d = side ? x : y;
    for (size_t i = 0; i < d.den.size();) {
      Poly q; bool gone = false;
      while (!n.num.t.empty() && divP(n.num, factors[d.den[i].first], &q)) { n.num = q; if (--d.den[i].second == 0) { gone = true; break; } }
      if (gone) d.den.erase(d.den.begin() + i); else ++i;
    }
  }
  RatFun r; r.num = mulP(x.num, y.num); r.den = x.den;
  for (auto& d : y.den) addDen(r, d.first, d.second);
  std::sort(r.den.begin(), r.den.end());
  if (r.num.t.empty()) r.den.clear();
  return reduce(r);
}
RatFun constF(const mpq_class& c) { RatFun r; r.num = constP(c); return r; }
bool isConstP(const Poly& p, mpq_class* v) { if (p.t.empty()) { *v = 0; return true; } if (p.t.size() == 1 && p.t[0].m == 0) { *v = p.t[0].c; return true; } return false; }
RatFun invF(const RatFun& f) {
  if (f.num.t.empty()) throw GiveUp();
  RatFun r; Poly p = f.num; mpq_class lead = p.t[0].c; std::vector<std::shared_ptr<RatFun>> rat;
  Poly n = constP(1 / lead);
  p = scaleP(p, 1 / lead);
  for (auto& d : f.den) n = mulP(n, powP(factors[d.first], d.second));
  // pull out single-variable content
  if (!p.t.empty()) {
    MV g = monos[p.t[0].m];
    for (auto& t : p.t) { MV h; for (auto& x : g) for (auto& y : monos[t.m]) if (x.first == y.first) h.push_back({x.first, std::min(x.second, y.second)}); g = h; if (g.empty()) break; }
    if (!g.empty()) { Mono gm = internM(g); for (auto& t : p.t) { Mono m; divM(t.m, gm, &m); t.m = m; }
      std::sort(p.t.begin(), p.t.end(), [](const Term& x, const Term& y) { return cmpM(x.m, y.m) > 0; });
      for (auto& x : g) {
        if (g_vars[x.first].square) {  // 1/v = v / v^2
          auto R = nfOf(g_vars[x.first].square);
          if (R && !R->num.t.empty() && R->num.t.size() <= 6) { int k = (x.second + 1) / 2; if (2 * k > (int)x.second) n = mulP(n, varP(x.first)); for (int i = 0; i < k; ++i) rat.push_back(R); continue; }
        }
        addDen(r, internF(varP(x.first)), x.second); } }
  }
  mpq_class cv;
  // split off known factors
  if (!isConstP(p, &cv)) {
    for (size_t i = 0; i < factors.size() && i < 200; ++i) {
      if (factors[i].t.size() < 2 || factors[i].t.size() > p.t.size()) continue;
      Poly q;
      while (p.t.size() > 1 && divP(p, factors[i], &q)) { p = q; addDen(r, i, 1); }
    }
  }
  if (!isConstP(p, &cv)) {
    if (p.t[0].c != 1) { n = scaleP(n, 1 / p.t[0].c); p = scaleP(p, 1 / p.t[0].c); }
    addDen(r, internF(p), 1);
  } else n = scaleP(n, 1 / cv);
  r.num = n; cancel(r); std::sort(r.den.begin(), r.den.end());
  r = reduce(r);
  for (auto& R : rat) r = mulF(r, invF(*R));
  return r;
}
RatFun reduce(RatFun f) {
  for (int guard = 0; guard < 200; ++guard) {
    // newest ruled variable with exponent >= 2
    int64_t var = -1; uint32_t emax = 0;
    for (auto& t : f.num.t) for (auto& p : monos[t.m]) if (p.second >= 2 && g_vars[p.first].square) { if ((int64_t)p.first > var) { var = p.first; emax = p.second; } else if ((int64_t)p.first == var) emax = std::max(emax, p.second); }
    if (var < 0) break;
    std::shared_ptr<RatFun> R = nfOf(g_vars[var].square);
    if (!R) throw GiveUp();
    uint32_t kmax = emax / 2;
    Poly D = constP(1); for (auto& d : R->den) D = mulP(D, powP(factors[d.first], d.second));
    std::vector<Poly> Np(kmax + 1), Dp(kmax + 1); Np[0] = Dp[0] = constP(1);
    for (uint32_t i = 1; i <= kmax; ++i) { Np[i] = mulP(Np[i - 1], R->num); Dp[i] = mulP(Dp[i - 1], D); }
    std::vector<Poly> groups(kmax + 1);
    for (auto& t : f.num.t) {
      MV v = monos[t.m]; uint32_t k = 0;
      for (size_t i = 0; i < v.size(); ++i) if ((int64_t)v[i].first == var) { k = v[i].second / 2; if (v[i].second % 2) v[i].second = 1; else v.erase(v.begin() + i); break; }
      groups[k].t.push_back({internM(v), t.c});
    }
    Poly out;
    for (uint32_t k = 0; k <= kmax; ++k) {
      if (groups[k].t.empty()) continue;
      std::sort(groups[k].t.begin(), groups[k].t.end(), [](const Term& x, const Term& y) { return cmpM(x.m, y.m) > 0; });
      out = addP(out, mulP(groups[k], mulP(Np[k], Dp[kmax - k])));
    }
    f.num = out;
    for (auto& d : R->den) addDen(f, d.first, d.second * kmax);
    cancel(f); std::sort(f.den.begin(), f.den.end());
  }
  return f;
}
void nfNode(Expr* x) {
  RatFun r;
  switch (x->op) {
    case O_RCONST: r = constF(*x->q); break;
    case O_VAR: if (g_vars[x->k].subst) { auto s = nfOf(g_vars[x->k].subst); if (!s) throw GiveUp(); r = *s; } else r.num = varP(x->k); break;
    case O_RADD: r = addF(*x->a->nf, *x->b->nf); break;
    case O_RMUL: r = mulF(*x->a->nf, *x->b->nf); break;
    case O_RDIV: r = mulF(*x->a->nf, invF(*x->b->nf)); break;
    default: throw GiveUp();
  }
  x->nf = std::make_shared<RatFun>(std::move(r));
}
std::shared_ptr<RatFun> nfOf(Expr* e) {
  if (e->sort != S_REAL) return nullptr;
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->nf_epoch == g_nf_epoch) { st.pop_back(); continue; }
    bool ready = true, bad = false;
    if (x->op == O_RADD || x->op == O_RMUL || x->op == O_RDIV)
      for (Expr* ch : {x->a, x->b}) { if (ch->nf_epoch != g_nf_epoch) { st.push_back(ch); ready = false; } else if (ch->nf_fail) bad = true; }
    if (!ready) continue;
    st.pop_back();
    x->nf.reset(); x->nf_fail = bad;
    if (!bad) try { nfNode(x); } catch (GiveUp&) { x->nf_fail = true; }
    x->nf_epoch = g_nf_epoch;
  }
  return e->nf_fail ? nullptr : e->nf;
}
Expr* polyExpr(const Poly& p) {
  Expr* s = mkRat(0);
  for (auto& t : p.t) {
    Expr* m = mkRat(t.c);
    for (auto& x : monos[t.m]) for (uint32_t i = 0; i < x.second; ++i) m = mkRMul(m, g_vars[x.first].e);
    s = mkRAdd(s, m);
  }
  return s;
}
bool sqrtQ(const mpq_class& c, mpq_class* r) {
  if (sgn(c) < 0) return false;
  if (!mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false;
  mpz_class a, b; mpz_sqrt(a.get_mpz_t(), c.get_num_mpz_t()); mpz_sqrt(b.get_mpz_t(), c.get_den_mpz_t());
  *r = mpq_class(a, b); return true;
}
bool sqrtP(const Poly& p, Poly* out) {
  if (p.t.empty()) { *out = Poly(); return true; }
  mpq_class c; if (!sqrtQ(p.t[0].c, &c)) return false;
  MV v = monos[p.t[0].m]; for (auto& x : v) { if (x.second % 2) return false; x.second /= 2; }
  Poly r; r.t.push_back({internM(v), c});
  Poly rem = addP(p, mulP(r, r), -1);
  Term lead = r.t[0];
  for (int i = 0; i < 60 && !rem.t.empty(); ++i) {
    Mono m; if (!divM(rem.t[0].m, lead.m, &m)) return false;
    Poly t; t.t.push_back({m, rem.t[0].c / (2 * lead.c)});
    if (cmpM(m, r.t.back().m) >= 0) return false;
    // rem -= 2*r*t + t^2
    rem = addP(rem, mulP(r, t), -2); rem = addP(rem, mulP(t, t), -1);
    r = addP(r, t);
  }
  if (!rem.t.empty()) return false;
  *out = r; return true;
}
// drops common factors that are roots of positive numbers
Poly strip(const Poly& p) {
  if (p.t.empty()) return p;
  for (auto& x : monos[p.t[0].m]) {
    Expr* q = g_vars[x.first].root; if (!q || q->op != O_RCONST || sgn(*q->q) <= 0) continue;
    Mono v = internM(MV{{x.first, 1}}); Poly r = p; bool all = true; for (auto& t : r.t) { Mono m; if (!divM(t.m, v, &m)) { all = false; break; } t.m = m; }
    if (!all) continue;
    std::sort(r.t.begin(), r.t.end(), [](const Term& a, const Term& b) { return cmpM(a.m, b.m) > 0; });
    return strip(r);
  }
  return p;
}
}  // namespace

bool nfZero(Expr* e, bool* ok) { auto f = nfOf(e); *ok = (bool)f; return f && f->num.t.empty(); }
bool nfConst(Expr* e, mpq_class* v) { auto f = nfOf(e); return f && f->den.empty() && isConstP(f->num, v); }
bool nfRoot(Expr* e, int* var, mpq_class* v) {
  auto f = nfOf(e); if (!f) return false;
  const Poly p = strip(f->num); if (p.t.empty() || p.t.size() > 2) return false;
  const MV& m = monos[p.t[0].m]; if (m.size() != 1) return false;
  if (p.t.size() == 1) { *var = m[0].first; *v = 0; return true; }
  if (m[0].second != 1 || !monos[p.t[1].m].empty()) return false;
  *var = m[0].first; *v = -p.t[1].c / p.t[0].c; return true;
}
bool nfSquares(Expr* e, std::vector<int>* vars) {
  auto f = nfOf(e); if (!f || f->num.t.empty()) return false;
  for (auto& t : f->num.t) { const MV& m = monos[t.m]; if (m.size() != 1 || m[0].second % 2 || sgn(t.c) != sgn(f->num.t[0].c)) return false; vars->push_back(m[0].first); }
  return true;
}
Expr* nfNumExpr(Expr* e) { auto f = nfOf(e); if (!f || f->num.t.size() > 400) return nullptr; return polyExpr(strip(f->num)); }
Expr* nfSignExpr(Expr* e) {
  auto f = nfOf(e); if (!f) return nullptr;
  if (f->num.t.size() > 400) return nullptr;
  Expr* r = polyExpr(strip(f->num));
  for (auto& d : f->den) if (d.second % 2) { if (factors[d.first].t.size() > 400) return nullptr; r = mkRMul(r, polyExpr(factors[d.first])); }
  return r;
}
bool nfPerfectSquare(Expr* e, Expr** root) {
  auto f = nfOf(e); if (!f || f->num.t.size() > 200) return false;
  try {
    Poly p = f->num, den = constP(1);
    for (auto& d : f->den) { if (d.second % 2) p = mulP(p, factors[d.first]); den = mulP(den, powP(factors[d.first], (d.second + 1) / 2)); }
    Poly r; if (!sqrtP(p, &r)) return false;
    *root = mkRDiv(polyExpr(r), polyExpr(den));
    return true;
  } catch (GiveUp&) { return false; }
}
