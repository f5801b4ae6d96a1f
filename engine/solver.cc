#include <functional>
#include "solver.h"
#include <z3.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <algorithm>

SolverStats g_ss;
double g_solver_deadline = 1e300;
static Z3_context C = nullptr;
static bool g_err = false;
static void onErr(Z3_context c, Z3_error_code e) { g_err = true; if (getenv("VP_DEBUG")) fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (C) return;
  Z3_global_param_set("memory_max_size", "3000");
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(C, onErr);
  Z3_del_config(cfg);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort sortOf(Sort s, unsigned w) {
  switch (s) { case S_BOOL: return Z3_mk_bool_sort(C); case S_BV: return Z3_mk_bv_sort(C, w);
    case S_REAL: return Z3_mk_real_sort(C); default: return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); }
}
static Z3_ast rm(int k) {
  switch (k) { case 0: return Z3_mk_fpa_rtn(C); case 1: return Z3_mk_fpa_rtp(C); case 2: return Z3_mk_fpa_rtz(C); case 4: return Z3_mk_fpa_rna(C); default: return Z3_mk_fpa_rne(C); }
}
static Z3_ast tr1(Expr* e) {
  auto z = [](Expr* x) { return (Z3_ast)x->z; };
  Z3_ast a = e->a ? z(e->a) : nullptr, b = e->b ? z(e->b) : nullptr, c = e->c ? z(e->c) : nullptr;
  Z3_ast ab[2] = {a, b};
  switch (e->op) {
    case O_BCONST: return e->k ? Z3_mk_true(C) : Z3_mk_false(C);
    case O_BVCONST: return Z3_mk_unsigned_int64(C, e->k, Z3_mk_bv_sort(C, e->width));
    case O_RCONST: return Z3_mk_numeral(C, e->q->get_str().c_str(), Z3_mk_real_sort(C));
    case O_FPCONST: { if (e->width == 64) { double d; memcpy(&d, &e->k, 8); return Z3_mk_fpa_numeral_double(C, d, sortOf(S_FP, 64)); }
      float f; uint32_t x = e->k; memcpy(&f, &x, 4); return Z3_mk_fpa_numeral_float(C, f, sortOf(S_FP, 32)); }
    case O_VAR: { std::string n = "v" + std::to_string(e->k); return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), sortOf(e->sort, e->width)); }
    case O_NOT: return Z3_mk_not(C, a);
    case O_AND: return Z3_mk_and(C, 2, ab);
    case O_OR: return Z3_mk_or(C, 2, ab);
    case O_BEQ: case O_BVEQ: case O_REQ: return Z3_mk_eq(C, a, b);
    case O_ULT: return Z3_mk_bvult(C, a, b); case O_ULE: return Z3_mk_bvule(C, a, b);
    case O_SLT: return Z3_mk_bvslt(C, a, b); case O_SLE: return Z3_mk_bvsle(C, a, b);
    case O_RLT: return Z3_mk_lt(C, a, b); case O_RLE: return Z3_mk_le(C, a, b);
    case O_FLT: return Z3_mk_fpa_lt(C, a, b); case O_FLE: return Z3_mk_fpa_leq(C, a, b); case O_FEQ: return Z3_mk_fpa_eq(C, a, b);
    case O_FISNAN: return Z3_mk_fpa_is_nan(C, a);
    case O_ITE: return Z3_mk_ite(C, a, b, c);
    case O_ADD: return Z3_mk_bvadd(C, a, b); case O_SUB: return Z3_mk_bvsub(C, a, b); case O_MUL: return Z3_mk_bvmul(C, a, b);
    case O_UDIV: return Z3_mk_bvudiv(C, a, b); case O_SDIV: return Z3_mk_bvsdiv(C, a, b); case O_UREM: return Z3_mk_bvurem(C, a, b); case O_SREM: return Z3_mk_bvsrem(C, a, b);
    case O_BAND: return Z3_mk_bvand(C, a, b); case O_BOR: return Z3_mk_bvor(C, a, b); case O_BXOR: return Z3_mk_bvxor(C, a, b);
    case O_SHL: return Z3_mk_bvshl(C, a, b); case O_LSHR: return Z3_mk_bvlshr(C, a, b); case O_ASHR: return Z3_mk_bvashr(C, a, b);
    case O_ZEXT: return Z3_mk_zero_ext(C, e->width - e->a->width, a); case O_SEXT: return Z3_mk_sign_ext(C, e->width - e->a->width, a);
    case O_EXTRACT: return Z3_mk_extract(C, e->k + e->width - 1, e->k, a);
    case O_CONCAT: return Z3_mk_concat(C, a, b);
    case O_F2BV: return Z3_mk_fpa_to_ieee_bv(C, a);
    case O_F2SI: return Z3_mk_fpa_to_sbv(C, rm(2), a, e->width);
    case O_F2UI: return Z3_mk_fpa_to_ubv(C, rm(2), a, e->width);
    case O_RADD: return Z3_mk_add(C, 2, ab); case O_RMUL: return Z3_mk_mul(C, 2, ab); case O_RDIV: return Z3_mk_div(C, a, b);
    case O_S2R: return Z3_mk_int2real(C, Z3_mk_bv2int(C, a, true)); case O_U2R: return Z3_mk_int2real(C, Z3_mk_bv2int(C, a, false));
    case O_FADD: return Z3_mk_fpa_add(C, rm(3), a, b); case O_FSUB: return Z3_mk_fpa_sub(C, rm(3), a, b); case O_FMUL: return Z3_mk_fpa_mul(C, rm(3), a, b);
    case O_FDIV: return Z3_mk_fpa_div(C, rm(3), a, b); case O_FNEG: return Z3_mk_fpa_neg(C, a); case O_FABS: return Z3_mk_fpa_abs(C, a); case O_FSQRT: return Z3_mk_fpa_sqrt(C, rm(3), a);
    case O_FMIN: return Z3_mk_fpa_min(C, a, b); case O_FMAX: return Z3_mk_fpa_max(C, a, b);
    case O_FRND: return Z3_mk_fpa_round_to_integral(C, rm(e->k), a);
    case O_BV2F: return Z3_mk_fpa_to_fp_bv(C, a, sortOf(S_FP, e->width));
    case O_SI2F: return Z3_mk_fpa_to_fp_signed(C, rm(3), a, sortOf(S_FP, e->width)); case O_UI2F: return Z3_mk_fpa_to_fp_unsigned(C, rm(3), a, sortOf(S_FP, e->width));
    case O_FCVT: return Z3_mk_fpa_to_fp_float(C, rm(3), a, sortOf(S_FP, e->width));
    case O_FREM: return Z3_mk_fpa_rem(C, a, b);
  }
  return nullptr;
}
static std::unordered_set<Expr*> g_raw;  // definitions of auxiliaries: the rewriting rules must not erase them
void rawAtoms(Expr* e) { if (!e || !(flagsOf(e) & FL_REAL) || e->sort != S_BOOL || !g_raw.insert(e).second) return; rawAtoms(e->a); rawAtoms(e->b); rawAtoms(e->c); }
// Real comparisons are first brought to a polynomial normal form.
Expr* normAtom(Expr* x) {
  if (x->op != O_RLT && x->op != O_RLE && x->op != O_REQ) return x;
  if (g_raw.count(x)) return x;
  if (!(flagsOf(x) & FL_NONLIN) || (flagsOf(x) & FL_RITE)) return x;
  static std::unordered_map<Expr*, std::pair<uint32_t, Expr*>> memo;
  auto it = memo.find(x);
  if (it != memo.end() && it->second.first == g_nf_epoch) return it->second.second;
  Expr* d = mkRSub(x->a, x->b); Expr* r = x;
  if (x->op == O_REQ) { if (Expr* n = nfNumExpr(d)) r = mkRCmp(O_REQ, n, mkRat(0)); }
  else if (Expr* n = nfSignExpr(d)) r = mkRCmp(x->op, n, mkRat(0));
  memo[x] = {g_nf_epoch, r};
  if (r != x) memo[r] = {g_nf_epoch, r};   // already normal
  return r;
}
// the form an atom is translated in, fixed by the first use since translations are kept
static Expr* formOf(Expr* x) { if (x->op != O_RLT && x->op != O_RLE && x->op != O_REQ) return x; static std::unordered_map<Expr*, Expr*> form; auto it = form.find(x); if (it != form.end()) return it->second; Expr* n = normAtom(x); form[n] = n; return form[x] = n; }
static Z3_ast tr(Expr* e) {
  if (e->z) return (Z3_ast)e->z;
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->z) { st.pop_back(); continue; }
    Expr* y = formOf(x);
    if (y != x) { if (y->z) { x->z = keep((Z3_ast)y->z); st.pop_back(); } else st.push_back(y); continue; }
    bool ready = true;
    for (Expr* ch : {x->a, x->b, x->c}) if (ch && !ch->z) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    x->z = keep(tr1(x));
  }
  return (Z3_ast)e->z;
}

static bool inter(const BitSet& a, const BitSet& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; ++i) if (a[i] & b[i]) return true; return false; }
static bool orIn(BitSet& d, const BitSet& s) { bool ch = false; if (d.size() < s.size()) d.resize(s.size()); for (size_t i = 0; i < s.size(); ++i) { uint64_t n = d[i] | s[i]; if (n != d[i]) { d[i] = n; ch = true; } } return ch; }
// roots of numbers, which the normal form of an atom need not mention, have fixed values and need no constraints of their own
static bool closedRoot(size_t v) { static std::vector<signed char> memo; if (memo.size() <= v) memo.resize(g_vars.size() + 64, -1); if (memo[v] >= 0) return memo[v]; bool c = false; if (Expr* x = g_vars[v].root) { c = true; const BitSet& b = varsOf(x); for (size_t u = 0; u < 64 * b.size() && c; ++u) if (b[u / 64] >> (u % 64) & 1) c = u != v && closedRoot(u); } if (memo.size() <= v) memo.resize(g_vars.size() + 64, -1); return memo[v] = c; }
static void leafVars(Expr* e, BitSet& out) { if (!e) return; if (e->sort != S_BOOL) { orIn(out, varsOf(e)); return; } Expr* n = formOf(e); if (n != e || e->op == O_RLT || e->op == O_RLE || e->op == O_REQ) { orIn(out, varsOf(n)); return; } if (e->op == O_VAR) { orIn(out, varsOf(e)); return; } leafVars(e->a, out); leafVars(e->b, out); leafVars(e->c, out); }
static const BitSet& sliceVars(Expr* e) {
  const BitSet& b = varsOf(e); bool any = false; for (size_t u = 0; u < 64 * b.size() && !any; ++u) any = (b[u / 64] >> (u % 64) & 1) && g_vars[u].root && closedRoot(u); if (!any || g_raw.count(e)) return b;
  static std::unordered_map<Expr*, BitSet> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  BitSet n, r = b; leafVars(e, n); for (size_t u = 0; u < 64 * b.size(); ++u) if ((b[u / 64] >> (u % 64) & 1) && !(u / 64 < n.size() && (n[u / 64] >> (u % 64) & 1)) && closedRoot(u)) r[u / 64] &= ~(1ull << (u % 64));
  return memo[e] = r;
}
std::vector<Expr*> sliceFor(const std::vector<Expr*>& path, const std::vector<Expr*>& extra) {
  BitSet vs; for (Expr* e : extra) orIn(vs, sliceVars(e));
  std::vector<Expr*> out; std::vector<char> used(path.size(), 0), vdone(g_vars.size(), 0);
  // a constraint on a derived variable constrains what it is derived from
  std::vector<BitSet> reach(path.size()); std::vector<signed char> st(g_vars.size(), 0); std::vector<BitSet> memo(g_vars.size());
  std::function<const BitSet&(size_t)> close = [&](size_t v) -> const BitSet& { if (st[v]) return memo[v]; st[v] = 1; BitSet r; for (Expr* d : g_vars[v].defs) { const BitSet& b = varsOf(d); orIn(r, b); for (size_t u = 0; u < g_vars.size(); ++u) if (u != v && u / 64 < b.size() && (b[u / 64] >> (u % 64) & 1) && !g_vars[u].defs.empty()) orIn(r, close(u)); } memo[v] = r; return memo[v]; };
  for (size_t i = 0; i < path.size(); ++i) { const BitSet& b = sliceVars(path[i]); reach[i] = b; for (size_t u = 0; u < g_vars.size(); ++u) if (u / 64 < b.size() && (b[u / 64] >> (u % 64) & 1) && !g_vars[u].defs.empty()) orIn(reach[i], close(u)); }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t v = 0; v < g_vars.size(); ++v) {
      if (vdone[v] || v / 64 >= vs.size() || !(vs[v / 64] >> (v % 64) & 1)) continue;
      vdone[v] = 1; ch = true;
      for (Expr* d : g_vars[v].defs) { out.push_back(d); orIn(vs, varsOf(d)); }
    }
    for (size_t i = 0; i < path.size(); ++i) if (!used[i] && inter(vs, reach[i])) { used[i] = 1; out.push_back(path[i]); if (orIn(vs, sliceVars(path[i]))) ch = true; }
  }
  return out;
}
static volatile sig_atomic_t g_tmo = 0;
static void onAlarm(int) { g_tmo = 1; if (C) Z3_interrupt(C); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double numeralD(Z3_ast a) {
  if (Z3_is_algebraic_number(C, a)) {
    Z3_ast l = Z3_get_algebraic_number_lower(C, a, 20); Z3_inc_ref(C, l);
    double d = numeralD(l); Z3_dec_ref(C, l); return d;
  }
  const char* s = Z3_get_numeral_string(C, a);
  try { mpq_class q(s); return q.get_d(); } catch (...) { return Z3_get_numeral_double(C, a); }
}
static std::unordered_map<std::string, std::pair<Res, Model>> g_cache;

static Res run(const std::vector<Expr*>& cs, const char* logic, Model* m, uint64_t rlimit, double secs) {
  Z3_solver S = logic ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, logic)) : Z3_mk_solver(C);
  Z3_solver_inc_ref(C, S);
  Z3_params P = Z3_mk_params(C); Z3_params_inc_ref(C, P);
  Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "rlimit"), (unsigned)std::min<uint64_t>(rlimit, 4000000000u));
  Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "random_seed"), 1);
  Z3_solver_set_params(C, S, P);
  for (Expr* e : cs) Z3_solver_assert(C, S, tr(e));
  if (getenv("VP_DUMPQ")) { printf("; ---- %s\n%s(check-sat)\n(reset)\n", logic ? logic : "ALL", Z3_solver_to_string(C, S)); fflush(stdout); }
  g_tmo = 0; g_err = false;
  struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sigaction(SIGALRM, &sa, &old);
  itimerval tv{}; tv.it_value.tv_sec = (long)secs; tv.it_value.tv_usec = (long)((secs - (long)secs) * 1e6); 
  tv.it_interval.tv_usec = 200000;
  setitimer(ITIMER_REAL, &tv, nullptr);
  Z3_lbool r = Z3_solver_check(C, S);
  itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr);
  Res res = g_err ? R_UNKNOWN : r == Z3_L_FALSE ? R_UNSAT : r == Z3_L_TRUE ? R_SAT : R_UNKNOWN;
  if (res == R_SAT && m) {
    m->clear();
    Z3_model M = Z3_solver_get_model(C, S);
    if (M) {
      Z3_model_inc_ref(C, M);
      BitSet vs; for (Expr* e : cs) orIn(vs, varsOf(e));
      for (size_t v = 0; v < g_vars.size(); ++v) {
        if (v / 64 >= vs.size() || !(vs[v / 64] >> (v % 64) & 1) || closedRoot(v)) continue;
        Expr* e = g_vars[v].e; Z3_ast val = nullptr; ModelEnt me{(uint32_t)v, 0, 0};
        Z3_ast q = tr(e);
        if (e->sort == S_FP) { q = Z3_mk_fpa_to_ieee_bv(C, q); }
        Z3_inc_ref(C, q);
        if (Z3_model_eval(C, M, q, true, &val) && val) {
          Z3_inc_ref(C, val);
          if (e->sort == S_REAL) me.d = numeralD(val);
          else if (e->sort == S_BOOL) me.u = Z3_get_bool_value(C, val) == Z3_L_TRUE;
          else { uint64_t u = 0; if (e->width <= 64 && Z3_get_numeral_uint64(C, val, &u)) me.u = u; }
          Z3_dec_ref(C, val);
        }
        Z3_dec_ref(C, q);
        m->push_back(me);
      }
      Z3_model_dec_ref(C, M);
    }
  }
  Z3_params_dec_ref(C, P); Z3_solver_dec_ref(C, S);
  return res;
}
Res checkPath(const std::vector<Expr*>& path, const std::vector<Expr*>& extra0, Model* m, uint64_t rlimit, double secs) {
  init();
  std::vector<Expr*> extra;
  for (Expr* e : extra0) { if (e->isFalse()) { g_ss.trivial++; return R_UNSAT; } if (!e->isTrue()) extra.push_back(e); }
  std::vector<Expr*> cs = sliceFor(path, extra);
  cs.insert(cs.end(), extra.begin(), extra.end());
  if (cs.empty()) { if (m) m->clear(); return R_SAT; }
  std::string key; { std::vector<uint32_t> ids; for (Expr* e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end()); key.assign((char*)ids.data(), ids.size() * 4); key += (char)('0' + (g_nf_epoch & 63)); }
  auto it = g_cache.find(key);
  if (it != g_cache.end() && it->second.first != R_UNKNOWN) { g_ss.cache++; if (m) *m = it->second.second; return it->second.first; }
  double t0 = now();
  if (t0 + secs > g_solver_deadline) secs = std::max(0.3, g_solver_deadline - t0);
  // translate first: normal forms may collapse an atom to a constant
  unsigned fl = 0;
  for (Expr* e : cs) { tr(e); Expr* a = e; while (a->op == O_NOT) a = a->a; fl |= flagsOf(formOf(a)); }
  Model mm; Res r = R_UNKNOWN;
  if (!(fl & (FL_REAL | FL_FP))) r = run(cs, "QF_BV", &mm, rlimit, secs);
  else if (fl & FL_FP) r = run(cs, "QF_FPBV", &mm, rlimit, secs);
  else if (!(fl & FL_BV)) {
    if (fl & FL_NONLIN) {
      // a quick try with the incremental core, then the complete procedure
      r = run(cs, "QF_NRA", &mm, rlimit, secs * 0.6);
      if (r == R_UNKNOWN) r = run(cs, nullptr, &mm, rlimit, secs * 0.4);
    } else r = run(cs, "QF_LRA", &mm, rlimit, secs);
    if (r == R_UNKNOWN) r = run(cs, nullptr, &mm, rlimit, secs);
  } else r = run(cs, nullptr, &mm, rlimit, secs);
  g_ss.secs += now() - t0; g_ss.queries++;
  if (getenv("VP_SLOWQ") && now() - t0 > atof(getenv("VP_SLOWQ"))) { fprintf(stderr, "slow query %.2fs res=%d n=%zu\n", now() - t0, r, cs.size()); for (Expr* e : cs) fprintf(stderr, "   %s\n", exprStr(e, 12).substr(0, 600).c_str()); }
  if (r == R_SAT) g_ss.sat++; else if (r == R_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  g_cache[key] = {r, mm};
  if (m) *m = mm;
  return r;
}
void applyModel(const Model& m) {
  for (auto& e : m) { g_vars[e.var].dval = e.d; g_vars[e.var].uval = e.u; }
  g_eval_epoch++;
}
