// The symbolic executor: interpreter, path forking, obligations, threads.
#include "exec.h"
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <limits>

bool g_realMode = true;
Memory g_mem;
static std::string g_violFile, g_witFile, g_harness = "vp_main";
static double g_deadline = 1e300, g_t0;
static uint64_t g_rlBranch = 40000000, g_rlAssert = 400000000;
static double g_secBranch = 4, g_secAssert = 20;
static int g_optRite = 0, g_optPreempt = 2, g_optSpurious = 0, g_optRace = 0, g_optSelFork = 0;
static uint64_t g_maxPaths = 200000; static uint64_t g_maxInst = 400000000ull;
static bool g_expectAbort = false;
// replay of a recorded counterexample: concrete inputs, concrete schedule, IEEE arithmetic
static bool g_replay = false, g_replayExact = false; static std::vector<uint64_t> g_rin; static size_t g_rinPos = 0; static std::vector<int> g_rsched; static size_t g_rschedPos = 0;
static uint64_t nextIn() { return g_rinPos < g_rin.size() ? g_rin[g_rinPos++] : 0; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------ shared results
struct Ent { char id[200]; uint64_t reached, provedNf, provedSmt, trivial, violated, unknown; };
struct Shared {
  sem_t tokens; std::atomic<int> lock;
  std::atomic<uint64_t> paths, forks, insts, queries, sat, unsat, unknown, cache, usecs, witness, noWitness, assumeEnd, aborted, schedPoints, maxrss;
  std::atomic<int> stop, incomplete, unsupported; char why[600]; char unsup[600];
  int nent; Ent ents[2000];
  std::atomic<int> nviol;
  uint8_t executed[200000];
};
static Shared* SHM;
static void lock() { int e = 0; while (!SHM->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } }
static void unlock() { SHM->lock.store(0); }
static Ent* ent(const std::string& id) {
  for (int i = 0; i < SHM->nent; ++i) if (!strncmp(SHM->ents[i].id, id.c_str(), sizeof(Ent::id) - 1)) return &SHM->ents[i];
  lock();
  for (int i = 0; i < SHM->nent; ++i) if (!strncmp(SHM->ents[i].id, id.c_str(), sizeof(Ent::id) - 1)) { unlock(); return &SHM->ents[i]; }
  if (SHM->nent >= 2000) { unlock(); return &SHM->ents[1999]; }
  Ent* e = &SHM->ents[SHM->nent]; strncpy(e->id, id.c_str(), sizeof(Ent::id) - 1); SHM->nent++;
  unlock(); return e;
}
#define INC(f) __atomic_fetch_add(&(f), 1, __ATOMIC_RELAXED)

// ------------------------------------------------------------ path state
static std::vector<Expr*> g_path;
static std::unordered_set<Expr*> g_known;
static bool g_modelOk = true;
static std::vector<pid_t> g_children;
static bool g_isRoot = true, g_hasToken = false;
struct Input { std::string name; char kind; int var; uint64_t u; double d; };  // kind: r real, i int, c choice
static std::vector<Input> g_inputs;
static std::vector<int> g_sched;
static std::vector<Thread*> g_threads; static Thread* T; static int g_preempts = 0;
static uint64_t g_icount = 0;
static std::map<uint64_t, int> g_mutex;

[[noreturn]] static void pathEnd(bool ok);
static void incomplete(const std::string& w) { lock(); if (!SHM->incomplete) strncpy(SHM->why, w.c_str(), 599); SHM->incomplete++; unlock(); }
static std::string stackStr() {
  std::string s; if (!T) return s; int n = 0;
  for (auto it = T->st.rbegin(); it != T->st.rend() && n < 12; ++it) { std::string d = demangled(it->f->name); size_t p = d.find('('); if (p != std::string::npos && p > 10) d = d.substr(0, p); if (d.size() > 90) d = d.substr(0, 90); s += (n++ ? " < " : "") + d; }
  return s;
}
[[noreturn]] static void unsupported(const std::string& w) {
  lock(); if (!SHM->unsupported) { strncpy(SHM->unsup, (w + " @ " + stackStr()).c_str(), 599); } SHM->unsupported++; unlock();
  if (getenv("VP_DEBUG")) fprintf(stderr, "UNSUPPORTED %s @ %s\n", w.c_str(), stackStr().c_str());
  pathEnd(false);
}
[[noreturn]] void fatal(const std::string& s) { if (SHM) unsupported("fatal: " + s); fprintf(stderr, "ssx: %s\n", s.c_str()); exit(3); }

static void flushStats() {
  SHM->queries += g_ss.queries; SHM->sat += g_ss.sat; SHM->unsat += g_ss.unsat; SHM->unknown += g_ss.unknown; SHM->cache += g_ss.cache; SHM->usecs += (uint64_t)(g_ss.secs * 1e6);
  SHM->insts += g_icount; g_icount = 0; g_ss = SolverStats();
}
static void recomputeAux();
static bool pathHolds(Expr* extra) {
  g_eval_epoch++;
  for (Expr* e : g_path) if (!evalD(e) || !e->uval) return false;
  return !extra || (evalD(extra) && extra->uval);
}
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) r += ' '; else r += c; } return r + "\""; }
static std::string inputsJson() {
  std::string s = "["; char b[64];
  for (size_t i = 0; i < g_inputs.size(); ++i) {
    auto& in = g_inputs[i]; if (i) s += ",";
    if (in.var >= 0) { VarInfo& v = g_vars[in.var];
      if (v.sort == S_REAL) snprintf(b, sizeof b, "%.17g", v.dval);
      else if (v.sort == S_FP) { double d; memcpy(&d, &v.uval, 8); snprintf(b, sizeof b, "\"x%016llx\"", (unsigned long long)v.uval); }
      else snprintf(b, sizeof b, "%lld", (long long)sx(v.uval, v.width)); }
    else if (in.kind == 'r') { uint64_t u; memcpy(&u, &in.d, 8); snprintf(b, sizeof b, "\"x%016llx\"", (unsigned long long)u); }
    else snprintf(b, sizeof b, "%lld", (long long)in.u);
    s += "[" + jstr(in.name) + ",\"" + in.kind + "\"," + b + "]";
  }
  return s + "]";
}
static uint64_t g_rng = 88172645463325252ull;
static double rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return (double)(g_rng >> 11) / 9007199254740992.0; }
static void sampleInputs(int round) {
  for (auto& v : g_vars) {
    if (v.kind == 1) continue;
    if (v.sort == S_REAL) {
      double lo = -3, hi = 3; if (v.hasrange) { lo = v.lo; hi = v.hi; } else if (round % 3 == 1) { lo = -1; hi = 1; } else if (round % 3 == 2) { lo = -20; hi = 20; }
      v.dval = lo + (hi - lo) * rnd(); if (round % 5 == 0) v.dval = std::round(v.dval * 4) / 4;
      if (v.hasrange) v.dval = std::min(hi, std::max(lo, v.dval));
    }
  }
}
// Record a candidate counterexample. `extra` must hold besides the path.
static void violation(const std::string& id, const std::string& msg, Expr* extra, const Model* m) {
  Ent* en = ent(id);
  uint64_t k = INC(en->violated);
  if (k >= 4) return;
  SHM->nviol++;
  std::vector<std::string> cands; bool confirmed = false;
  if (extra && extra->isTrue()) extra = nullptr;
  Model mm; 
  if (!m) { if (checkPath(g_path, g_path, &mm, g_rlAssert, g_secAssert) == R_SAT) m = &mm; }
  if (m) applyModel(*m);
  recomputeAux();
  bool good = pathHolds(extra);
  cands.push_back(inputsJson()); confirmed |= good;
  std::vector<VarInfo> save = g_vars;
  double tEnd = now() + 4; int got = 0;
  for (int i = 0; i < 4000 && got < 3 && now() < tEnd; ++i) {
    if (i % 2 == 0) sampleInputs(i / 2);
    else { g_vars = save; for (auto& v : g_vars) if (v.kind != 1 && v.sort == S_REAL) { double s = std::pow(10.0, -1 - 5 * rnd()); v.dval += s * (rnd() - 0.5) * std::max(1.0, std::fabs(v.dval)); if (v.hasrange) v.dval = std::min(v.hi, std::max(v.lo, v.dval)); } }
    recomputeAux();
    if (pathHolds(extra)) { cands.push_back(inputsJson()); confirmed = true; got++; }
  }
  g_vars = save; g_eval_epoch++;
  std::string s = "{\"id\":" + jstr(id) + ",\"msg\":" + jstr(msg) + ",\"stack\":" + jstr(stackStr()) + ",\"confirmed\":" + (confirmed ? "true" : "false") + ",\"candidates\":[";
  for (size_t i = 0; i < cands.size(); ++i) s += (i ? "," : "") + cands[i];
  s += "],\"schedule\":["; for (size_t i = 0; i < g_sched.size(); ++i) s += (i ? "," : "") + std::to_string(g_sched[i]);
  s += "]}\n";
  int fd = open(g_violFile.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) {} close(fd); }
}
static void waitChildren() { for (pid_t p : g_children) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) incomplete("a path process died (status " + std::to_string(st) + ")"); } g_children.clear(); }
static void summary();
[[noreturn]] static void leave() {
  flushStats();
  { rusage ru; getrusage(RUSAGE_SELF, &ru); uint64_t k = ru.ru_maxrss, o = SHM->maxrss; while (k > o && !SHM->maxrss.compare_exchange_weak(o, k)) {} }
  if (g_hasToken) { sem_post(&SHM->tokens); g_hasToken = false; }
  waitChildren();
  if (g_isRoot) { summary(); }
  fflush(stdout); _exit(0);
}
[[noreturn]] static void pathEnd(bool ok) {
  SHM->paths++;
  if (ok) {
    // reachability witness: the path condition of this path is satisfiable
    bool w = pathHolds(nullptr);
    if (!w) { Res r = checkPath(g_path, g_path, nullptr, g_rlBranch, g_secBranch); w = r == R_SAT; }
    if (w) { uint64_t k = SHM->witness++; if (!g_witFile.empty() && (k < 2 || (k < 4096 && (k & (k - 1)) == 0)) && g_sched.empty()) { recomputeAux(); if (pathHolds(nullptr)) { std::string s = inputsJson() + "\n"; int fd = open(g_witFile.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) {} close(fd); } } } } else SHM->noWitness++;
  }
  leave();
}
static bool overBudget() {
  if (SHM->stop) return true;
  if (now() > g_deadline) { incomplete("time budget"); SHM->stop = 1; return true; }
  if (SHM->paths + 0 > g_maxPaths) { incomplete("path budget"); SHM->stop = 1; return true; }
  return false;
}
// returns true in the child
static bool forkPath() {
  if (overBudget()) leave();
  SHM->forks++;
  fflush(stdout);
  bool async = sem_trywait(&SHM->tokens) == 0;
  for (size_t i = 0; i < g_children.size();) { int st; pid_t p = waitpid(g_children[i], &st, WNOHANG); if (p > 0) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) incomplete("a path process died"); g_children.erase(g_children.begin() + i); } else ++i; }
  flushStats();
  pid_t p = fork();
  if (p < 0) { incomplete("fork failed"); if (async) sem_post(&SHM->tokens); return false; }
  if (p == 0) { g_isRoot = false; g_children.clear(); g_hasToken = async; return true; }
  if (async) g_children.push_back(p);
  else { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) incomplete("a path process died"); }
  return false;
}
// var == constant on this path: rewrite with it
struct Trig { Expr *arg, *s, *c; bool primary; };
static std::vector<Trig> g_trig;
static void learnEq(Expr* c) {
  if (c->op == O_AND) { learnEq(c->a); learnEq(c->b); return; }
  if (c->op != O_REQ || (flagsOf(c) & FL_RITE)) return;
  int var; mpq_class v;
  if (!nfRoot(mkRSub(c->a, c->b), &var, &v)) { std::vector<int> vs; if (nfSquares(mkRSub(c->a, c->b), &vs)) for (int q : vs) learnEq(mkRCmp(O_REQ, g_vars[q].e, mkRat(0))); return; }
  if (getenv("VP_LEARN")) fprintf(stderr, "LEARN %s = %s from %s\n", g_vars[var].name.c_str(), v.get_str().c_str(), exprStr(c, 8).substr(0, 300).c_str());
  if (g_vars[var].subst) return;
  g_vars[var].subst = mkRat(v);
  for (auto& t : g_trig) {
    if (t.s->op == O_VAR && (int)t.s->k == var && t.c->op == O_VAR && !g_vars[t.c->k].subst) g_vars[t.c->k].square = mkRat(mpq_class(1 - v * v));
    if (t.c->op == O_VAR && (int)t.c->k == var && t.s->op == O_VAR && !g_vars[t.s->k].subst) g_vars[t.s->k].square = mkRat(mpq_class(1 - v * v));
  }
  g_nf_epoch++;
  if (sgn(v) == 0 && g_vars[var].fn == 1) learnEq(mkRCmp(O_REQ, g_vars[var].x, mkRat(0)));
}
static void addPath(Expr* c) {
  if (c->isTrue()) return;
  if (c->op == O_AND) { addPath(c->a); addPath(c->b); return; }
  if (g_known.insert(c).second) { g_path.push_back(c); learnEq(c); }
}
static bool isKnown(Expr* c, bool* v) {
  if (g_known.count(c)) { *v = true; return true; }
  if (g_known.count(mkNot(c))) { *v = false; return true; }
  return false;
}
// a real comparison whose difference is a constant, or identically zero
static bool nfDecide(Expr* c, bool* v) {
  bool neg = false; while (c->op == O_NOT) { c = c->a; neg = !neg; }
  if (c->op != O_RLT && c->op != O_RLE && c->op != O_REQ) return false;
  if (flagsOf(c) & FL_RITE) return false;
  mpq_class k; if (!nfConst(mkRSub(c->a, c->b), &k)) return false;
  bool r = c->op == O_RLT ? k < 0 : c->op == O_RLE ? k <= 0 : k == 0;
  *v = r != neg; return true;
}
// bounds of a real term from the declared ranges of its variables (outward rounded)
struct Iv { double lo, hi; };
static std::unordered_map<Expr*, Iv> g_iv;
static Iv widen(double lo, double hi) { if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY; return {std::nextafter(std::nextafter(lo, -INFINITY), -INFINITY), std::nextafter(std::nextafter(hi, INFINITY), INFINITY)}; }
static Iv ivOf(Expr* e, int depth = 0) {
  const Iv all{-INFINITY, INFINITY};
  if (depth > 400) return all;
  switch (e->op) { case O_RCONST: { double d = e->q->get_d(); return widen(d, d); } case O_VAR: { const VarInfo& v = g_vars[e->k]; if (v.root) { Iv x = ivOf(v.root, depth + 1); return x.hi < 0 ? all : widen(x.lo > 0 ? std::sqrt(x.lo) : 0, std::sqrt(x.hi)); } return v.hasrange ? widen(v.lo, v.hi) : all; } case O_RADD: case O_RMUL: case O_RDIV: break; default: return all; }
  auto it = g_iv.find(e); if (it != g_iv.end()) return it->second;
  Iv r = all, x = ivOf(e->a, depth + 1), y = ivOf(e->b, depth + 1);
  auto mul = [](double p, double q) { return p == 0 || q == 0 ? 0.0 : p * q; };
  if (e->op == O_RADD) r = widen(x.lo + y.lo, x.hi + y.hi);
  else if (e->op == O_RMUL) { double p[4] = {mul(x.lo, y.lo), mul(x.lo, y.hi), mul(x.hi, y.lo), mul(x.hi, y.hi)}; r = widen(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); if (e->a == e->b && r.lo < 0) r.lo = 0; }
  else if (y.lo > 0 || y.hi < 0) { if (std::isfinite(x.lo) && std::isfinite(x.hi)) { double p[4] = {x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi}; r = widen(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); } }
  g_iv[e] = r; return r;
}
Expr* normAtom(Expr* x);
static bool ivDecide1(Expr* c, bool* v) {
  bool neg = false; while (c->op == O_NOT) { c = c->a; neg = !neg; }
  if (c->op != O_RLT && c->op != O_RLE && c->op != O_REQ) return false;
  Iv x = ivOf(c->a), y = ivOf(c->b);
  if (c->op == O_REQ) { if (x.hi < y.lo || y.hi < x.lo) { *v = neg; return true; } return false; }
  if (x.hi < y.lo) { *v = !neg; return true; }
  if (y.hi < x.lo) { *v = neg; return true; }
  return false;
}
static bool ivDecide(Expr* c, bool* v) { if (ivDecide1(c, v)) return true; bool neg = false; while (c->op == O_NOT) { c = c->a; neg = !neg; } Expr* n = normAtom(c); if (n == c) return false; if (n->isConst()) { *v = (n->k != 0) != neg; return true; } if (!ivDecide1(n, v)) return false; *v = *v != neg; return true; }
static bool decide(Expr* c) {
  if (c->isConst()) return c->k;
  bool v; if (isKnown(c, &v)) return v;
  if (nfDecide(c, &v)) return v;
  if (ivDecide(c, &v)) return v;
  if (overBudget()) leave();
  bool evalOk = g_modelOk && evalD(c); bool ev = evalOk && c->uval;
  Expr* nc = mkNot(c);
  Model mt, mf; Res rt = R_SAT, rf = R_SAT; bool haveT = false, haveF = false;
  if (evalOk && ev) { rf = checkPath(g_path, {nc}, &mf, g_rlBranch, g_secBranch); haveF = true; }
  else if (evalOk) { rt = checkPath(g_path, {c}, &mt, g_rlBranch, g_secBranch); haveT = true; }
  else { rt = checkPath(g_path, {c}, &mt, g_rlBranch, g_secBranch); rf = checkPath(g_path, {nc}, &mf, g_rlBranch, g_secBranch); haveT = haveF = true; }
  if (rt == R_UNSAT && rf == R_UNSAT) { SHM->assumeEnd++; leave(); }  // the path itself was infeasible
  bool side;
  if (rt == R_UNSAT) { side = false; if (g_known.insert(nc).second) learnEq(nc); }
  else if (rf == R_UNSAT) { side = true; if (g_known.insert(c).second) learnEq(c); }
  else {
    if (getenv("VP_FORKS")) fprintf(stderr, "FORK %s: %s\n", stackStr().c_str(), exprStr(c, 6).substr(0, 300).c_str());
    side = !forkPath();       // parent: true side, child: false side
    addPath(side ? c : nc);
    if (side ? haveT : haveF) {
      Res r = side ? rt : rf;
      if (r == R_SAT) { applyModel(side ? mt : mf); if (!evalOk) g_modelOk = true; } else g_modelOk = false;
    }
    return side;
  }
  if (!evalOk || ev != side) { Model& m = side ? mt : mf; if (side ? haveT : haveF) applyModel(m); }
  return side;
}
static void assume(Expr* c) {
  if (c->isTrue()) return;
  if (c->isFalse()) { SHM->assumeEnd++; leave(); }
  bool v; if (isKnown(c, &v) || nfDecide(c, &v) || ivDecide(c, &v)) { if (v) return; SHM->assumeEnd++; leave(); }
  if (g_modelOk && evalD(c) && c->uval) { addPath(c); return; }
  Model m; Res r = checkPath(g_path, {c}, &m, g_rlBranch, g_secBranch);
  if (r == R_UNSAT) { SHM->assumeEnd++; leave(); }
  addPath(c);
  if (r == R_SAT) applyModel(m); else g_modelOk = false;
}
static int chooseN(int n) {  // explicit n-way split
  if (g_replay) return 0;
  for (int i = 0; i < n - 1; ++i) if (forkPath()) { return i; }
  return n - 1;
}
static uint64_t concretize(Value v, unsigned w, const char* what) {
  if (!v.e) return v.u;
  Expr* e = v.e;
  if (e->sort == S_BOOL) return decide(e);
  if (e->sort != S_BV) unsupported(std::string("concretize ") + what);
  while (e->op == O_ITE) e = decide(e->a) ? e->b : e->c;   // a choice of few values: fork on its condition
  if (e->isConst()) return e->k;
  for (int i = 0; i < 5000; ++i) {
    uint64_t c;
    if (g_modelOk && evalD(e)) c = e->uval;
    else { Model m; Res r = checkPath(g_path, {mkCmp(O_BVEQ, mkBin(O_SUB, e, e), mkBV(0, e->width)), mkNot(mkCmp(O_BVEQ, e, mkBV(0xdeadbeefcafeull, e->width)))}, &m, g_rlBranch, g_secBranch); if (r != R_SAT) unsupported("concretize: no model"); applyModel(m); g_modelOk = true; evalD(e); c = e->uval; }
    if (decide(mkCmp(O_BVEQ, e, mkBV(c, e->width)))) return c;
  }
  unsupported("concretize: too many values");
}

// ------------------------------------------------------------ values
static inline double asD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint64_t ofD(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline float asF(uint64_t u) { float d; uint32_t x = u; memcpy(&d, &x, 4); return d; }
static inline uint64_t ofF(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static Value VD(double d) { return {ofD(d), nullptr}; }
static Value VI(uint64_t u) { return {u, nullptr}; }
static Value VE(Expr* e) {  // canonicalise constants
  if (e->op == O_BCONST || e->op == O_BVCONST || e->op == O_FPCONST) return {e->k, nullptr};
  return {0, e};
}
static Value VR(Expr* e, TK tk = TK_F64) {
  if (e->op == O_RCONST) { double d = e->q->get_d(); if (std::isfinite(d) && mpq_class(d) == *e->q) { if (tk == TK_F32) { if ((double)(float)d == d) return {ofF((float)d), nullptr}; } else return VD(d); } }
  return {0, e};
}
static Expr* toBV(Value v, unsigned w) { if (!v.e) return mkBV(v.u, w); if (v.e->sort == S_BOOL) return bool2bv(v.e, w); if (v.e->sort == S_FP) return mkF2BV(v.e); if (v.e->sort == S_REAL) unsupported("bits of a symbolic real"); return v.e; }
static Expr* toBool(Value v) { if (!v.e) return mkBool(v.u & 1); if (v.e->sort == S_BOOL) return v.e; return mkCmp(O_BVEQ, mkExtract(v.e, 0, 1), mkBV(1, 1)); }
static bool special(Value v, TK k) { return !v.e && !(k == TK_F64 ? std::isfinite(asD(v.u)) : std::isfinite(asF(v.u))); }
static double cD(Value v, TK k) { return k == TK_F64 ? asD(v.u) : (double)asF(v.u); }
static Value cV(double d, TK k) { return k == TK_F64 ? VD(d) : VI(ofF((float)d)); }
static Expr* toReal(Value v, TK k) {
  if (!v.e) return mkRatD(cD(v, k));
  if (v.e->sort == S_REAL) return v.e;
  unsupported("integer bits used as a real");
}
static Expr* toFP(Value v, TK k) {
  unsigned w = k == TK_F64 ? 64 : 32;
  if (!v.e) return mkFPc(v.u, w);
  if (v.e->sort == S_FP) return v.e;
  if (v.e->sort == S_BV) return mkFP(O_BV2F, w, v.e);
  unsupported("toFP");
}
static int signOf(Expr* r) {  // forks
  if (r->op == O_RCONST) return sgn(*r->q);
  if (decide(mkRCmp(O_REQ, r, mkRat(0)))) return 0;
  return decide(mkRCmp(O_RLT, r, mkRat(0))) ? -1 : 1;
}
static int signOfV(Value v, TK k) { if (!v.e) { double d = cD(v, k); return d > 0 ? 1 : d < 0 ? -1 : 0; } return signOf(toReal(v, k)); }
static Value fbin(IOp op, Value a, Value b, TK k) {
  if (!g_realMode) {
    if (!a.e && !b.e) {
      if (k == TK_F64) { double x = asD(a.u), y = asD(b.u); return VD(op == I_FADD ? x + y : op == I_FSUB ? x - y : op == I_FMUL ? x * y : op == I_FDIV ? x / y : std::fmod(x, y)); }
      float x = asF(a.u), y = asF(b.u); return VI(ofF(op == I_FADD ? x + y : op == I_FSUB ? x - y : op == I_FMUL ? x * y : op == I_FDIV ? x / y : std::fmod(x, y)));
    }
    if (op == I_FREM) unsupported("frem");
    static const Op m[] = {O_FADD, O_FSUB, O_FMUL, O_FDIV};
    return VE(mkFP(m[op - I_FADD], k == TK_F64 ? 64 : 32, toFP(a, k), toFP(b, k)));
  }
  bool sa = special(a, k), sb = special(b, k);
  if (!a.e && !b.e) {
    double x = cD(a, k), y = cD(b, k), r;
    r = op == I_FADD ? x + y : op == I_FSUB ? x - y : op == I_FMUL ? x * y : op == I_FDIV ? x / y : std::fmod(x, y);
    if (sa || sb || op == I_FREM || (op == I_FDIV && y == 0)) return cV(r, k);
    bool exact = false;
    if (std::isfinite(r)) {
      if (op == I_FADD || op == I_FSUB) { double yy = op == I_FSUB ? -y : y, bb = r - x, err = (x - (r - bb)) + (yy - bb); exact = err == 0; }
      else if (op == I_FMUL) exact = std::fma(x, y, -r) == 0 && (r != 0 || x == 0 || y == 0) && std::fabs(r) > 1e-280;
      else exact = std::fma(r, y, -x) == 0 && (r == 0 || std::fabs(r) > 1e-280) && std::fabs(x) > 1e-250;
      if (r == 0 && (x == 0 || y == 0)) exact = true;
      if (k == TK_F32 && (double)(float)r != r) exact = false;
    }
    if (exact) return cV(r, k);
  }
  if (sa || sb) {
    double x = sa ? cD(a, k) : 0, y = sb ? cD(b, k) : 0;
    if ((sa && std::isnan(x)) || (sb && std::isnan(y))) return cV(NAN, k);
    switch (op) {
      case I_FADD: case I_FSUB: return cV((sa ? x : 0) + (op == I_FSUB ? -1 : 1) * (sb ? y : 0), k);
      case I_FMUL: { int s1 = sa ? (x > 0 ? 1 : -1) : signOfV(a, k), s2 = sb ? (y > 0 ? 1 : -1) : signOfV(b, k); return cV(s1 * s2 == 0 ? NAN : s1 * s2 * INFINITY, k); }
      case I_FDIV: if (sa && sb) return cV(NAN, k); if (sb) return cV(0, k); { int s2 = signOfV(b, k); return cV((x > 0 ? 1 : -1) * (s2 < 0 ? -INFINITY : INFINITY), k); }
      default: unsupported("frem special");
    }
  }
  if (op == I_FREM) unsupported("frem");
  Expr *x = toReal(a, k), *y = toReal(b, k);
  switch (op) {
    case I_FADD: return VR(mkRAdd(x, y), k);
    case I_FSUB: return VR(mkRSub(x, y), k);
    case I_FMUL: return VR(mkRMul(x, y), k);
    default: {
      bool zero = y->op == O_RCONST ? *y->q == 0 : decide(mkRCmp(O_REQ, y, mkRat(0)));
      if (zero) { int s = signOf(x); return cV(s == 0 ? NAN : s * INFINITY, k); }
      return VR(mkRDiv(x, y), k); }
  }
}
static Value fneg(Value a, TK k) {
  if (!a.e) return VI(a.u ^ (k == TK_F64 ? 1ull << 63 : 1ull << 31));
  if (g_realMode) return VR(mkRNeg(toReal(a, k)), k);
  return VE(mkFP(O_FNEG, k == TK_F64 ? 64 : 32, toFP(a, k)));
}
static Expr* fcmpE(unsigned pred, Value a, Value b, TK k) {
  // LLVM predicate bits: 1 eq, 2 gt, 4 lt, 8 unordered
  if (!a.e && !b.e) {
    double x = cD(a, k), y = cD(b, k);
    bool un = std::isnan(x) || std::isnan(y);
    return mkBool(un ? (pred & 8) : x == y ? (pred & 1) : x > y ? (pred & 2) : (pred & 4));
  }
  if ((pred & 15) == 15) return mkBool(true);
  if ((pred & 15) == 0) return mkBool(false);
  if (g_realMode) {
    for (int i = 0; i < 2; ++i) { Value v = i ? b : a; if (special(v, k)) { double x = cD(v, k); if (std::isnan(x)) return mkBool(pred & 8); bool big = (x > 0) != (i == 1); return mkBool(big ? (pred & 2) : (pred & 4)); } }
    Expr *x = toReal(a, k), *y = toReal(b, k);
    switch (pred & 7) {
      case 0: return mkBool(false); case 7: return mkBool(true);
      case 1: return mkRCmp(O_REQ, x, y); case 6: return mkNot(mkRCmp(O_REQ, x, y));
      case 2: return mkRCmp(O_RLT, y, x); case 3: return mkRCmp(O_RLE, y, x);
      case 4: return mkRCmp(O_RLT, x, y); default: return mkRCmp(O_RLE, x, y);
    }
  }
  Expr *x = toFP(a, k), *y = toFP(b, k), *r;
  bool un = pred & 8;
  Expr* nan = mkOr(mkFPred(O_FISNAN, x), mkFPred(O_FISNAN, y));
  switch (pred & 7) {
    case 0: return un ? nan : mkBool(false);
    case 7: return un ? mkBool(true) : mkNot(nan);
    case 1: r = mkFPred(O_FEQ, x, y); break;
    case 2: r = mkFPred(O_FLT, y, x); break;
    case 3: r = mkFPred(O_FLE, y, x); break;
    case 4: r = mkFPred(O_FLT, x, y); break;
    case 5: r = mkFPred(O_FLE, x, y); break;
    default: return un ? mkNot(mkFPred(O_FEQ, x, y)) : mkAnd(mkNot(nan), mkNot(mkFPred(O_FEQ, x, y)));
  }
  return un ? mkOr(nan, r) : r;
}
static Value select(Value c, Value a, Value b, TyI t) {
  if (!c.e) return c.u & 1 ? a : b;
  if (a.u == b.u && a.e == b.e) return a;
  Expr* cc = toBool(c);
  bool v; if (isKnown(cc, &v) || nfDecide(cc, &v)) return v ? a : b;
  bool rl = (a.e && a.e->sort == S_REAL) || (b.e && b.e->sort == S_REAL) || (g_realMode && (t.k == TK_F64 || t.k == TK_F32));
  if (rl) {
    if (!g_optRite || special(a, TK_F64) || special(b, TK_F64) || (t.k == TK_INT)) return decide(cc) ? a : b;
    return VR(mkIte(cc, toReal(a, t.k), toReal(b, t.k)), t.k);
  }
  if (t.k == TK_F64 || t.k == TK_F32) return VE(mkIte(cc, toFP(a, t.k), toFP(b, t.k)));
  if (g_optSelFork) return decide(cc) ? a : b;
  if (t.w == 1) return VE(mkIte(cc, toBool(a), toBool(b)));
  return VE(mkIte(cc, toBV(a, t.w), toBV(b, t.w)));
}

// ------------------------------------------------------------ real functions
enum { FN_SQRT = 1, FN_SIN, FN_COS, FN_ATAN2, FN_ACOS, FN_ASIN, FN_EXP, FN_LOG, FN_POW, FN_ATAN, FN_FLOOR, FN_CBRT, FN_SINHALF, FN_COSHALF, FN_TANH, FN_SINH, FN_COSH, FN_ERF, FN_ERFC, FN_J0, FN_J1, FN_JN, FN_EXP2, FN_LOG2, FN_LOG10, FN_LOG1P, FN_EXPM1, FN_TAN };
static double fnNum(int fn, double x, double y) {
  switch (fn) {
    case FN_SQRT: return std::sqrt(std::max(0.0, x)); case FN_SIN: return std::sin(x); case FN_COS: return std::cos(x); case FN_TAN: return std::tan(x);
    case FN_ATAN2: return std::atan2(x, y); case FN_ACOS: return std::acos(x); case FN_ASIN: return std::asin(x); case FN_ATAN: return std::atan(x);
    case FN_EXP: return std::exp(x); case FN_LOG: return std::log(x); case FN_POW: return std::pow(x, y); case FN_FLOOR: return std::floor(x); case FN_CBRT: return std::cbrt(x);
    case FN_TANH: return std::tanh(x); case FN_SINH: return std::sinh(x); case FN_COSH: return std::cosh(x); case FN_ERF: return std::erf(x); case FN_ERFC: return std::erfc(x);
    case FN_J0: return j0(x); case FN_J1: return j1(x); case FN_JN: return jn((int)x, y); case FN_EXP2: return std::exp2(x); case FN_LOG2: return std::log2(x); case FN_LOG10: return std::log10(x);
    case FN_LOG1P: return std::log1p(x); case FN_EXPM1: return std::expm1(x);
    case FN_COSHALF: return std::cos(x / 2); case FN_SINHALF: return std::sin(x / 2);
  }
  return NAN;
}
static void auxVal(VarInfo& v) { g_eval_epoch++; double x = 0, y = 0; if (v.x && evalD(v.x)) x = v.x->dval; if (v.y && evalD(v.y)) y = v.y->dval; v.dval = fnNum(v.fn, x, y); if (!std::isfinite(v.dval)) v.dval = 0; g_eval_epoch++; }
static void recomputeAux() { for (auto& v : g_vars) if (v.kind == 1 && v.fn) auxVal(v); g_eval_epoch++; }
static Expr* auxVar(const char* nm, int fn, Expr* x, Expr* y = nullptr) {
  Expr* e = mkVar(std::string(nm) + "#" + std::to_string(g_vars.size()), S_REAL, 0, 1);
  VarInfo& v = g_vars.back(); v.fn = fn; v.x = x; v.y = y; auxVal(v);
  return e;
}
static void def(Expr* var, Expr* d) { rawAtoms(d); if (!d->isTrue()) g_vars[var->k].defs.push_back(d); }
struct UF { int fn; Expr *x, *y, *r; };
static std::vector<UF> g_uf;
static bool nfEq(Expr* a, Expr* b) { if (a == b) return true; if ((flagsOf(a) | flagsOf(b)) & FL_RITE) return false; bool ok; return nfZero(mkRSub(a, b), &ok) && ok; }
static Expr* findUF(int fn, Expr* x, Expr* y) { for (auto& u : g_uf) if (u.fn == fn && nfEq(u.x, x) && (!y || nfEq(u.y, y))) return u.r; return nullptr; }
static Expr* R0() { return mkRat(0); }
static Expr* R1() { return mkRat(1); }
static Expr* rsqrt(Expr* x) {  // x >= 0 on this path
  mpq_class c; Expr* root;
  if (nfConst(x, &c) && sgn(c) >= 0 && mpz_perfect_square_p(c.get_num_mpz_t()) && mpz_perfect_square_p(c.get_den_mpz_t())) {
    mpz_class a, b; mpz_sqrt(a.get_mpz_t(), c.get_num_mpz_t()); mpz_sqrt(b.get_mpz_t(), c.get_den_mpz_t()); return mkRat(mpq_class(a, b)); }
  if (!(flagsOf(x) & FL_RITE) && nfPerfectSquare(x, &root)) { return decide(mkRCmp(O_RLT, root, R0())) ? mkRNeg(root) : root; }
  if (Expr* r = findUF(FN_SQRT, x, nullptr)) return r;
  if (!(flagsOf(x) & FL_RITE)) for (auto& t : g_trig) if (t.s->op == O_VAR && t.c->op == O_VAR && !g_vars[t.s->k].subst && g_vars[t.s->k].square) {
    mpq_class q; if (!nfEq(x, mkRMul(t.s, t.s))) continue;
    return decide(mkRCmp(O_RLT, t.s, R0())) ? mkRNeg(t.s) : t.s;
  }
  if (!(flagsOf(x) & FL_RITE)) for (auto& u : g_uf) if (u.fn == FN_SQRT && !(flagsOf(u.x) & FL_RITE)) {  // sqrt(q^2 u) = q sqrt(u)
    mpq_class q, r; bool ok; if (nfZero(u.x, &ok) || !ok) continue;
    if (!nfConst(mkRDiv(x, u.x), &q) || sgn(q) <= 0 || !mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) continue;
    mpz_class a, b; mpz_sqrt(a.get_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(b.get_mpz_t(), q.get_den_mpz_t()); return mkRMul(mkRat(mpq_class(a, b)), u.r);
  }
  if (nfConst(x, &c)) x = mkRat(c);
  Expr* s = auxVar("sqrt", FN_SQRT, x);
  def(s, mkRCmp(O_RLE, R0(), s)); def(s, mkRCmp(O_REQ, mkRMul(s, s), x));
  if (!(flagsOf(x) & FL_RITE)) g_vars[s->k].square = x;
  g_vars[s->k].root = x;
  g_uf.push_back({FN_SQRT, x, nullptr, s});
  return s;
}
struct Ang { Expr* var; Expr *s, *c; };  // an angle variable with known sine and cosine
static std::vector<Ang> g_ang;
static void trig(Expr* x, Expr** so, Expr** co) {
  mpq_class k;
  if (nfConst(x, &k)) {  // multiples of a quarter turn, pi being the nearest double
    double q = k.get_d() / (M_PI / 2); int n = (int)std::lround(std::max(-1000.0, std::min(1000.0, q)));
    if (std::fabs(q - n) < 1e-14 && std::abs(n) <= 4) { static const int ss[4] = {0, 1, 0, -1}; *so = mkRat(ss[((n % 4) + 4) % 4]); *co = mkRat(ss[(((n + 1) % 4) + 4) % 4]); return; }
  }
  for (auto& t : g_trig) { if (nfEq(t.arg, x)) { *so = t.s; *co = t.c; return; } if (nfEq(mkRNeg(t.arg), x)) { *so = mkRNeg(t.s); *co = t.c; return; } }
  for (auto& a : g_ang) {
    if (nfEq(a.var, x)) { *so = a.s; *co = a.c; return; }
    if (nfEq(mkRNeg(a.var), x)) { *so = mkRNeg(a.s); *co = a.c; return; }
  }
  auto dbl = [&](Expr* s, Expr* c) { *so = mkRMul(mkRat(2), mkRMul(s, c)); *co = mkRSub(mkRMul(c, c), mkRMul(s, s)); };
  for (auto& t : g_trig) { if (nfEq(mkRMul(t.arg, mkRat(2)), x)) { dbl(t.s, t.c); return; } if (nfEq(mkRMul(t.arg, mkRat(-2)), x)) { dbl(t.s, t.c); *so = mkRNeg(*so); return; } }
  for (auto& a : g_ang) { if (nfEq(mkRMul(a.var, mkRat(2)), x)) { dbl(a.s, a.c); return; } if (nfEq(mkRMul(a.var, mkRat(-2)), x)) { dbl(a.s, a.c); *so = mkRNeg(*so); return; } }
  // half of a known angle in [-pi, pi]: cos >= 0
  for (int sg = 1; sg >= -1; sg -= 2)
    for (auto& a : g_ang) if (nfEq(mkRMul(x, mkRat(2 * sg)), a.var)) {
      Expr* c = rsqrt(mkRMul(mkRAdd(R1(), a.c), mkRat(mpq_class(1, 2))));
      Expr* s;
      if (decide(mkRCmp(O_REQ, c, R0()))) s = R1();   // angle = pi
      else s = mkRDiv(a.s, mkRMul(mkRat(2), c));
      g_trig.push_back({x, sg > 0 ? s : mkRNeg(s), c, false}); *so = g_trig.back().s; *co = c; return;
    }
  // a known angle plus quarter turns
  auto shift = [&](Expr* arg, Expr* s, Expr* c) {
    mpq_class d; if (!nfConst(mkRSub(x, arg), &d)) return false;
    double q = d.get_d() / (M_PI / 2); int n = (int)std::lround(q);
    if (n == 0 || std::abs(n) > 4 || std::fabs(q - n) > 1e-14) return false;
    switch (((n % 4) + 4) % 4) { case 0: *so = s; *co = c; break; case 1: *so = c; *co = mkRNeg(s); break; case 2: *so = mkRNeg(s); *co = mkRNeg(c); break; default: *so = mkRNeg(c); *co = s; }
    return true;
  };
  for (auto& t : g_trig) { if (shift(t.arg, t.s, t.c)) return; if (shift(mkRNeg(t.arg), mkRNeg(t.s), t.c)) return; }
  for (auto& a : g_ang) { if (shift(a.var, a.s, a.c)) return; if (shift(mkRNeg(a.var), mkRNeg(a.s), a.c)) return; }
  Expr* c = auxVar("cos", FN_COS, x); Expr* s = auxVar("sin", FN_SIN, x);
  def(s, mkRCmp(O_REQ, mkRAdd(mkRMul(s, s), mkRMul(c, c)), R1())); def(c, mkRCmp(O_REQ, mkRAdd(mkRMul(s, s), mkRMul(c, c)), R1()));
  def(c, mkRCmp(O_RLE, c, R1())); def(c, mkRCmp(O_RLE, mkRat(-1), c)); def(s, mkRCmp(O_RLE, s, R1())); def(s, mkRCmp(O_RLE, mkRat(-1), s));
  g_vars[s->k].square = mkRSub(R1(), mkRMul(c, c));
  if (nfConst(x, &k)) { double d = k.get_d(), e = 1e-9; def(s, mkRCmp(O_RLE, mkRatD(std::sin(d) - e), s)); def(s, mkRCmp(O_RLE, s, mkRatD(std::sin(d) + e))); def(c, mkRCmp(O_RLE, mkRatD(std::cos(d) - e), c)); def(c, mkRCmp(O_RLE, c, mkRatD(std::cos(d) + e))); }
  for (auto& t : g_trig) if (t.primary && nfEq(mkRMul(x, mkRat(2)), t.arg)) {
    // t.arg = 2x : express the older pair through the new one
    g_vars[t.s->k].subst = mkRMul(mkRat(2), mkRMul(s, c)); g_vars[t.c->k].subst = mkRSub(mkRMul(mkRat(2), mkRMul(c, c)), R1()); g_nf_epoch++;
    def(t.s, mkRCmp(O_REQ, t.s, g_vars[t.s->k].subst)); def(t.c, mkRCmp(O_REQ, t.c, g_vars[t.c->k].subst));
    t.primary = false;
  }
  g_trig.push_back({x, s, c, true}); *so = s; *co = c;
}
static const mpq_class PI_LO(mpz_class("3141592653589793"), mpz_class("1000000000000000"));
static Expr* ratan2(Expr* y, Expr* x) {
  mpq_class a, b;
  if (nfConst(y, &a) && a == 0) { if (nfConst(x, &b)) { if (b >= 0) return R0(); return mkRatD(M_PI); } }
  if (Expr* r = findUF(FN_ATAN2, y, x)) return r;
  Expr* h = rsqrt(mkRAdd(mkRMul(x, x), mkRMul(y, y)));
  if (decide(mkRCmp(O_REQ, h, R0()))) return R0();
  Expr* t = auxVar("atan2", FN_ATAN2, y, x);
  def(t, mkRCmp(O_RLE, mkRatD(-M_PI), t)); def(t, mkRCmp(O_RLE, t, mkRatD(M_PI)));
  // sign and quadrant
  def(t, mkOr(mkNot(mkRCmp(O_RLT, R0(), y)), mkRCmp(O_RLT, R0(), t)));
  def(t, mkOr(mkNot(mkRCmp(O_RLT, y, R0())), mkRCmp(O_RLT, t, R0())));
  def(t, mkOr(mkNot(mkAnd(mkRCmp(O_REQ, y, R0()), mkRCmp(O_RLT, R0(), x))), mkRCmp(O_REQ, t, R0())));
  def(t, mkOr(mkNot(mkAnd(mkRCmp(O_REQ, y, R0()), mkRCmp(O_RLT, x, R0()))), mkRCmp(O_REQ, t, mkRatD(M_PI))));
  def(t, mkOr(mkNot(mkRCmp(O_RLE, R0(), x)), mkAnd(mkRCmp(O_RLE, t, mkRatD(M_PI_2)), mkRCmp(O_RLE, mkRatD(-M_PI_2), t))));
  g_uf.push_back({FN_ATAN2, y, x, t});
  g_ang.push_back({t, mkRDiv(y, h), mkRDiv(x, h)});
  return t;
}
// monotone / range facts only; congruence through findUF
static Expr* generic(int fn, Expr* x, Expr* y = nullptr) {
  if (Expr* r = findUF(fn, x, y)) return r;
  for (auto& u : g_uf) {  // inverse pairs
    if (fn == FN_LOG && u.fn == FN_EXP && nfEq(u.r, x)) return u.x;
    if (fn == FN_EXP && u.fn == FN_LOG && nfEq(u.r, x)) return u.x;
  }
  Expr* r = auxVar("fn", fn, x, y);
  auto le = [&](Expr* a, Expr* b) { def(r, mkRCmp(O_RLE, a, b)); };
  auto lt = [&](Expr* a, Expr* b) { def(r, mkRCmp(O_RLT, a, b)); };
  mpq_class k;
  switch (fn) {
    case FN_EXP: lt(R0(), r); le(mkRAdd(x, R1()), r); def(r, mkOr(mkNot(mkRCmp(O_RLE, x, R0())), mkRCmp(O_RLE, r, R1()))); break;
    case FN_LOG: le(r, mkRSub(x, R1())); def(r, mkOr(mkNot(mkRCmp(O_RLT, R1(), x)), mkRCmp(O_RLT, R0(), r))); def(r, mkOr(mkNot(mkRCmp(O_RLT, x, R1())), mkRCmp(O_RLT, r, R0()))); def(r, mkOr(mkNot(mkRCmp(O_REQ, x, R1())), mkRCmp(O_REQ, r, R0())));break;
    case FN_TANH: case FN_ERF: lt(mkRat(-1), r); lt(r, R1()); break;
    case FN_COSH: le(R1(), r); break;
    case FN_ERFC: lt(R0(), r); lt(r, mkRat(2)); break;
    case FN_POW: def(r, mkOr(mkNot(mkRCmp(O_RLT, R0(), x)), mkRCmp(O_RLT, R0(), r))); break;
    case FN_ACOS: le(R0(), r); le(r, mkRatD(M_PI)); g_ang.push_back({r, rsqrt(mkRSub(R1(), mkRMul(x, x))), x}); break;
    case FN_ASIN: le(mkRatD(-M_PI_2), r); le(r, mkRatD(M_PI_2)); g_ang.push_back({r, x, rsqrt(mkRSub(R1(), mkRMul(x, x)))}); break;
    default: break;
  }
  mpq_class kx, ky;
  if (nfConst(x, &kx) && (!y || nfConst(y, &ky))) { double d = fnNum(fn, kx.get_d(), y ? ky.get_d() : 0), e = 1e-9 * std::max(1.0, std::fabs(d)); if (std::isfinite(d)) { le(mkRatD(d - e), r); le(r, mkRatD(d + e)); } }
  g_uf.push_back({fn, x, y, r});
  return r;
}
static Expr* fpUF(int fn, Expr* x, Expr* y, unsigned w) {  // IEEE mode: an uninterpreted double
  if (Expr* r = [&]() -> Expr* { for (auto& u : g_uf) if (u.fn == fn && u.x == x && u.y == y) return u.r; return nullptr; }()) return r;
  Expr* r = mkVar("fn#" + std::to_string(g_vars.size()), S_FP, w, 3); g_uf.push_back({fn, x, y, r}); return r;
}
static Value fneg(Value a, TK k);
static Value floorLike(Value a, int mode, TK k) {  // 0 floor 1 ceil 2 trunc 4 round
  unsigned w = k == TK_F64 ? 64 : 32;
  if (!a.e) { double x = cD(a, k); return cV(mode == 0 ? std::floor(x) : mode == 1 ? std::ceil(x) : mode == 2 ? std::trunc(x) : mode == 3 ? std::nearbyint(x) : std::round(x), k); }
  if (!g_realMode) return VE(mkFP(O_FRND, w, toFP(a, k), nullptr, mode));
  Expr* x = toReal(a, k);
  if (checkPath(g_path, {mkOr(mkRCmp(O_RLT, x, mkRat(-64)), mkRCmp(O_RLT, mkRat(64), x))}, nullptr, g_rlBranch, g_secBranch) != R_UNSAT) {
    // too many integers to enumerate: a value within one of x (its being an integer is not encoded)
    if (mode == 1) return fneg(floorLike(VR(mkRNeg(x), k), 0, k), k);
    if (mode == 2) return decide(mkRCmp(O_RLT, x, R0())) ? floorLike(a, 1, k) : floorLike(a, 0, k);
    if (mode == 4) return decide(mkRCmp(O_RLT, x, R0())) ? floorLike(VR(mkRSub(x, mkRat(mpq_class(1, 2))), k), 1, k) : floorLike(VR(mkRAdd(x, mkRat(mpq_class(1, 2))), k), 0, k);
    if (Expr* r = findUF(FN_FLOOR, x, nullptr)) return VR(r, k);
    Expr* r = auxVar("floor", FN_FLOOR, x); def(r, mkRCmp(O_RLE, r, x)); def(r, mkRCmp(O_RLT, x, mkRAdd(r, R1())));
    g_uf.push_back({FN_FLOOR, x, nullptr, r}); return VR(r, k);
  }
  for (int i = 0; i < 300; ++i) {
    double d;
    if (!(g_modelOk && evalD(x))) { Model m; if (checkPath(g_path, {mkRCmp(O_RLE, mkRatD(-1e15), x)}, &m, g_rlBranch, g_secBranch) != R_SAT) unsupported("floor: no model"); applyModel(m); g_modelOk = true; evalD(x); }
    d = std::floor(x->dval);
    for (double n : {d, d - 1, d + 1}) {
      Expr* in = mkAnd(mkRCmp(O_RLE, mkRatD(n), x), mkRCmp(O_RLT, x, mkRatD(n + 1)));
      if (n != d && checkPath(g_path, {in}, nullptr, g_rlBranch, g_secBranch) == R_UNSAT) continue;
      if (decide(in)) {
        if (mode == 0) return cV(n, k);
        bool isInt = decide(mkRCmp(O_REQ, x, mkRatD(n)));
        if (isInt) return cV(n, k);
        if (mode == 1) return cV(n + 1, k);
        if (mode == 2) return cV(n >= 0 ? n : n + 1, k);
        bool up = n >= 0 ? decide(mkRCmp(O_RLE, mkRatD(n + 0.5), x)) : decide(mkRCmp(O_RLT, mkRatD(n + 0.5), x));
        return cV(up ? n + 1 : n, k);
      }
      if (n == d) break;
    }
  }
  unsupported("floor: too many values");
}
static Value fabsV(Value a, TK k) {
  if (!a.e) return VI(a.u & (k == TK_F64 ? ~(1ull << 63) : 0x7fffffffull));
  if (!g_realMode) return VE(mkFP(O_FABS, k == TK_F64 ? 64 : 32, toFP(a, k)));
  Expr* x = toReal(a, k); Expr* neg = mkRCmp(O_RLT, x, R0()); bool v;
  if (isKnown(neg, &v) || nfDecide(neg, &v)) return VR(v ? mkRNeg(x) : x, k);
  if (g_optRite) return VR(mkIte(neg, mkRNeg(x), x), k);
  return VR(decide(neg) ? mkRNeg(x) : x, k);
}
static bool sumOfSquares(Expr* e, int depth = 0) {
  if (depth > 40) return false;
  mpq_class k; if (e->op == O_RCONST) return nfConst(e, &k) && sgn(k) >= 0;
  if (e->op == O_RMUL) return e->a == e->b || (sumOfSquares(e->a, depth + 1) && sumOfSquares(e->b, depth + 1));
  if (e->op == O_RADD || e->op == O_RDIV) return sumOfSquares(e->a, depth + 1) && sumOfSquares(e->b, depth + 1);
  return e->op == O_VAR && g_vars[e->k].fn == 1;
}
static Value math1(int fn, Value a, TK k) {
  if (!a.e) {
    double x = cD(a, k), r = fnNum(fn, x, 0);
    if (fn == FN_SQRT && x < 0) return cV(-NAN, k);
    if (!g_realMode || !std::isfinite(x) || !std::isfinite(r)) { return k == TK_F32 ? VI(ofF(fn == FN_SQRT ? std::sqrt(asF(a.u)) : (float)r)) : cV(r, k); }
    if (fn == FN_SQRT && std::fma(r, r, -x) == 0) return cV(r, k);
    if (x == 0 && (fn == FN_SIN || fn == FN_TANH || fn == FN_ERF || fn == FN_SINH || fn == FN_ATAN || fn == FN_ASIN || fn == FN_TAN || fn == FN_LOG1P || fn == FN_EXPM1 || fn == FN_CBRT)) return cV(0, k);
    if (x == 0 && (fn == FN_EXP || fn == FN_COS || fn == FN_COSH || fn == FN_EXP2 || fn == FN_J0)) return cV(1, k);
    if (x == 1 && (fn == FN_LOG || fn == FN_LOG2 || fn == FN_LOG10)) return cV(0, k);
    if (fn == FN_CBRT && r * r * r == x && r == std::round(r)) return cV(r, k);
  }
  if (!g_realMode) {
    if (fn == FN_SQRT) return VE(mkFP(O_FSQRT, k == TK_F64 ? 64 : 32, toFP(a, k)));
    return VE(fpUF(fn, toFP(a, k), nullptr, k == TK_F64 ? 64 : 32));
  }
  Expr* x = toReal(a, k); Expr *s, *c;
  switch (fn) {
    case FN_SQRT: if (!sumOfSquares(x) && decide(mkRCmp(O_RLT, x, R0()))) return cV(-NAN, k); return VR(rsqrt(x), k);
    case FN_SIN: trig(x, &s, &c); return VR(s, k);
    case FN_COS: trig(x, &s, &c); return VR(c, k);
    case FN_TAN: trig(x, &s, &c); return fbin(I_FDIV, VR(s, k), VR(c, k), k);
    case FN_ATAN: return VR(ratan2(x, R1()), k);
    case FN_LOG: case FN_LOG2: case FN_LOG10: { int g = signOf(x); if (g < 0) return cV(NAN, k); if (g == 0) return cV(-INFINITY, k); return VR(generic(fn, x), k); }
    case FN_LOG1P: { int g = signOf(mkRAdd(x, R1())); if (g < 0) return cV(NAN, k); if (g == 0) return cV(-INFINITY, k); return VR(generic(FN_LOG, mkRAdd(x, R1())), k); }
    case FN_EXPM1: return VR(mkRSub(generic(FN_EXP, x), R1()), k);
    case FN_TANH: { Expr *ep = generic(FN_EXP, x); Expr* en = mkRDiv(R1(), ep); return VR(mkRDiv(mkRSub(ep, en), mkRAdd(ep, en)), k); }
    case FN_SINH: { Expr *ep = generic(FN_EXP, x); return VR(mkRMul(mkRSub(ep, mkRDiv(R1(), ep)), mkRat(mpq_class(1, 2))), k); }
    case FN_COSH: { Expr *ep = generic(FN_EXP, x); return VR(mkRMul(mkRAdd(ep, mkRDiv(R1(), ep)), mkRat(mpq_class(1, 2))), k); }
    case FN_ERFC: return VR(mkRSub(R1(), generic(FN_ERF, x)), k);
    case FN_ACOS: case FN_ASIN: if (decide(mkOr(mkRCmp(O_RLT, R1(), x), mkRCmp(O_RLT, x, mkRat(-1))))) return cV(NAN, k); return VR(generic(fn, x), k);
    default: return VR(generic(fn, x), k);
  }
}
static Value math2(int fn, Value a, Value b, TK k) {
  if (!a.e && !b.e) {
    double x = cD(a, k), y = cD(b, k), r = fnNum(fn, x, y);
    if (!g_realMode || !std::isfinite(x) || !std::isfinite(y) || !std::isfinite(r)) return cV(r, k);
    if (fn == FN_ATAN2 && x == 0 && y >= 0) return cV(0, k);
    if (fn == FN_POW && y == std::floor(y) && std::fabs(y) <= 64) { mpq_class q(1), bq(x); for (int i = 0; i < std::fabs(y); ++i) q *= bq; if (y < 0 && q != 0) q = 1 / q; return VR(mkRat(q), k); }
  }
  if (!g_realMode) return VE(fpUF(fn, toFP(a, k), toFP(b, k), k == TK_F64 ? 64 : 32));
  if (special(a, k) || special(b, k)) unsupported("special argument of a two-argument function");
  Expr *x = toReal(a, k), *y = toReal(b, k);
  if (fn == FN_ATAN2) return VR(ratan2(x, y), k);
  if (fn == FN_POW) {
    mpq_class q;
    if (nfConst(y, &q) && q.get_den() == 1 && abs(q) <= 16) { long n = q.get_num().get_si(); Expr* r = R1(); for (long i = 0; i < std::labs(n); ++i) r = mkRMul(r, x); if (n < 0) return fbin(I_FDIV, VD(1), VR(r, k), k); return VR(r, k); }
    if (nfConst(y, &q) && q == mpq_class(1, 2)) return math1(FN_SQRT, a, k);
    if (nfConst(y, &q) && q == mpq_class(-1, 2)) return fbin(I_FDIV, VD(1), math1(FN_SQRT, a, k), k);
    int g = signOf(x);
    if (g < 0) { if (nfConst(y, &q) && q.get_den() != 1) return cV(NAN, k); return VR(generic(fn, x, y), k); }
    if (g == 0) { int h = signOf(y); return cV(h > 0 ? 0 : h == 0 ? 1 : INFINITY, k); }
    // x^(y-1) * x = x^y : keep powers of one base related
    for (auto& u : g_uf) if (u.fn == FN_POW && nfEq(u.x, x)) { mpq_class dq; if (nfConst(mkRSub(y, u.y), &dq) && dq.get_den() == 1 && abs(dq) <= 4) { long n = dq.get_num().get_si(); Expr* r = u.r; for (long i = 0; i < std::labs(n); ++i) r = n > 0 ? mkRMul(r, x) : mkRDiv(r, x); return VR(r, k); } }
  }
  return VR(generic(fn, x, y), k);
}

// ------------------------------------------------------------ obligations
static Expr* resolveIte(Expr* e) {
  while (flagsOf(e) & FL_RITE) {
    // innermost real ITE whose condition is ITE-free
    std::vector<Expr*> st{e}; Expr* hit = nullptr; std::unordered_set<Expr*> seen;
    while (!st.empty() && !hit) {
      Expr* x = st.back(); st.pop_back();
      if (!seen.insert(x).second || !(flagsOf(x) & FL_RITE)) continue;
      if (x->op == O_ITE && x->sort == S_REAL && !(flagsOf(x->a) & FL_RITE)) { hit = x; break; }
      for (Expr* c : {x->a, x->b, x->c}) if (c) st.push_back(c);
    }
    if (!hit) return e;
    bool v = decide(hit->a); Expr* rep = v ? hit->b : hit->c;
    std::unordered_map<Expr*, Expr*> memo; memo[hit] = rep;
    std::function<Expr*(Expr*)> go = [&](Expr* x) -> Expr* {
      auto it = memo.find(x); if (it != memo.end()) return it->second;
      if (!(flagsOf(x) & FL_RITE)) return memo[x] = x;
      Expr *a = x->a ? go(x->a) : nullptr, *b = x->b ? go(x->b) : nullptr, *c = x->c ? go(x->c) : nullptr; Expr* r = x;
      switch (x->op) {
        case O_RADD: r = mkRAdd(a, b); break; case O_RMUL: r = mkRMul(a, b); break; case O_RDIV: r = mkRDiv(a, b); break;
        case O_ITE: r = mkIte(a, b, c); break; case O_RLT: case O_RLE: case O_REQ: r = mkRCmp(x->op, a, b); break;
        case O_NOT: r = mkNot(a); break; case O_AND: r = mkAnd(a, b); break; case O_OR: r = mkOr(a, b); break; case O_BEQ: r = mkBeq(a, b); break;
        default: break;
      }
      return memo[x] = r;
    };
    e = go(e);
  }
  return e;
}
// A model may give an uninterpreted function a value it does not have.  Adds true facts
// around the model's point (Taylor bounds, convexity) that exclude it; false if there is nothing to add.
static bool refine(const Model& m, Expr* bad) {
  std::vector<VarInfo> save = g_vars; applyModel(m);
  { std::vector<VarInfo> s2 = g_vars; recomputeAux(); bool good = pathHolds(bad); g_vars = s2; g_eval_epoch++; if (good) { g_vars = save; g_eval_epoch++; return false; } }
  std::set<uint32_t> in; for (auto& e : m) in.insert(e.var);
  struct L { uint32_t v; double x0, f0; }; std::vector<L> ls;
  for (uint32_t i = 0; i < g_vars.size(); ++i) { VarInfo& v = g_vars[i]; if (v.kind != 1 || !v.fn || !in.count(i) || !v.x || v.subst || !evalD(v.x)) continue;
    double x0 = v.x->dval, f0; if (!std::isfinite(x0) || std::fabs(x0) > 1e6) continue; f0 = fnNum(v.fn, x0, 0); if (!std::isfinite(f0) || std::fabs(f0 - v.dval) <= 1e-9 * (v.fn == FN_EXP ? std::fabs(f0) : std::max(1.0, std::fabs(f0)))) continue; ls.push_back({i, x0, f0}); }
  g_vars = save; g_eval_epoch++; bool any = false;
  for (auto& l : ls) {
    VarInfo& v = g_vars[l.v]; Expr *e = v.e, *dx = mkRSub(v.x, mkRatD(l.x0)), *f0 = mkRatD(l.f0); double d = 0, K = -1; double x0 = l.x0; std::vector<Expr*> fs;
    switch (v.fn) {
      case FN_SIN: d = std::cos(x0); K = 1; break; case FN_COS: d = -std::sin(x0); K = 1; break;
      case FN_SINHALF: d = std::cos(x0 / 2) / 2; K = 0.25; break; case FN_COSHALF: d = -std::sin(x0 / 2) / 2; K = 0.25; break;
      case FN_TANH: d = 1 - l.f0 * l.f0; K = 0.78; break; case FN_ATAN: d = 1 / (1 + x0 * x0); K = 0.66; break;
      case FN_ERF: d = 1.1283791670955126 * std::exp(-x0 * x0); K = 0.97; break; case FN_ERFC: d = -1.1283791670955126 * std::exp(-x0 * x0); K = 0.97; break;
      case FN_EXP: { Expr* lo = mkRMul(f0, mkRatD(1 - 1e-12)); Expr* hi = mkRMul(f0, mkRatD(1 + 1e-12)); fs.push_back(mkRCmp(O_RLE, mkRMul(lo, mkRAdd(R1(), dx)), e)); fs.push_back(mkOr(mkRCmp(O_RLE, R1(), dx), mkRCmp(O_RLE, mkRMul(e, mkRSub(R1(), dx)), hi))); break; }
      case FN_LOG: if (x0 > 1e-9) { Expr* ep = mkRatD(1e-12 * std::max(1.0, std::fabs(l.f0))); fs.push_back(mkRCmp(O_RLE, e, mkRAdd(mkRAdd(f0, ep), mkRDiv(dx, mkRatD(x0))))); fs.push_back(mkRCmp(O_RLE, mkRNeg(mkRatD(x0)), mkRMul(mkRAdd(mkRSub(e, mkRAdd(f0, R1())), ep), v.x))); } break;
      default: break;
    }
    if (K >= 0) { Expr* lin = mkRSub(mkRSub(e, f0), mkRMul(mkRatD(d), dx)); Expr* bound = mkRAdd(mkRMul(mkRatD(K / 2 + 1e-12), mkRMul(dx, dx)), mkRatD(1e-12)); fs.push_back(mkRCmp(O_RLE, lin, bound)); fs.push_back(mkRCmp(O_RLE, mkRNeg(bound), lin)); }
    for (Expr* f : fs) { if (f->isTrue()) continue; rawAtoms(f); g_vars[l.v].defs.push_back(f); any = true; }
  }
  return any;
}
static void obligation(Expr* ok, const std::string& id, const char* how) {
  Ent* en = ent(id); INC(en->reached);
  if (ok->isTrue()) { INC(en->trivial); return; }
  bool v; if (isKnown(ok, &v) && v) { INC(en->trivial); return; }
  if (nfDecide(ok, &v) && v) { INC(en->provedNf); g_ss.trivial++; return; }
  if (en->violated >= 4) { assume(ok); return; }
  if (flagsOf(ok) & FL_RITE && !(flagsOf(ok) & (FL_BV | FL_FP)) && (flagsOf(ok) & FL_NONLIN)) { Expr* o2 = resolveIte(ok); if (o2 != ok) { obligation(o2, id, how); return; } }
  Model m; Expr* bad = mkNot(ok);
  // a numeric witness first, if the current point already violates it
  Res r;
  r = checkPath(g_path, {bad}, &m, g_rlAssert, g_secAssert);
  { double t0 = now(); for (int i = 0; r == R_SAT && i < 25 && now() - t0 < 6; ++i) { if (!refine(m, bad)) break; Model m2; Res r2 = checkPath(g_path, {bad}, &m2, g_rlAssert, g_secAssert); if (r2 == R_UNKNOWN) break; r = r2; m = m2; } }
  if (r == R_UNSAT) { INC(en->provedSmt); return; }
  if (r == R_SAT) { violation(id, how, bad, &m); }
  else {
    // undecided: look for a concrete witness before giving up
    std::vector<VarInfo> save = g_vars; bool hit = false; double te = now() + 2;
    for (int i = 0; i < 1500 && !hit && now() < te; ++i) { sampleInputs(i); recomputeAux(); hit = pathHolds(bad); }
    if (hit) { Model mm; for (size_t i = 0; i < g_vars.size(); ++i) mm.push_back({(uint32_t)i, g_vars[i].dval, g_vars[i].uval}); g_vars = save; violation(id, how, bad, &mm); }
    else { g_vars = save; INC(en->unknown); if (getenv("VP_DEBUG")) fprintf(stderr, "UNKNOWN %s: %s\n", id.c_str(), exprStr(ok, 8).substr(0, 800).c_str()); }
    g_eval_epoch++;
  }
  assume(ok);
}

// ------------------------------------------------------------ memory faults
[[noreturn]] static void programError(const std::string& kind) {
  if (getenv("VP_DEBUG")) fprintf(stderr, "ERROR %s @ %s\n", kind.c_str(), stackStr().c_str());
  ent("error:" + kind)->reached++;
  violation("error:" + kind, kind + " in " + stackStr(), nullptr, nullptr);
  pathEnd(false);
}
static Value loadS(uint64_t a, TyI t, unsigned n);
static inline Value loadV(uint64_t a, TyI t, unsigned n) {
  if (__builtin_expect(g_mem.in(a, n), 1)) {
    if (n == 8) { uint64_t s; memcpy(&s, g_mem.sh(a), 8); if (s == 0x0101010101010101ull) { uint64_t v; memcpy(&v, (void*)a, 8); return {v, nullptr}; } }
    else if (n == 4) { uint32_t s; memcpy(&s, g_mem.sh(a), 4); if (s == 0x01010101u) { uint32_t v; memcpy(&v, (void*)a, 4); return {v, nullptr}; } }
    else if (n == 1) { if (*g_mem.sh(a) == 1) return {mask(*(uint8_t*)a, t.w), nullptr}; }
  }
  return loadS(a, t, n);
}
static Value loadS(uint64_t a, TyI t, unsigned n) {
  g_mem.check(a, n, false);
  if (t.k == TK_WIDE) {
    Expr* r = nullptr;
    for (unsigned i = 0; i < n; i += 8) { unsigned c = std::min(8u, n - i); Value v = loadV(a + i, {TK_INT, (uint16_t)(c * 8)}, c); if (v.e && v.e->sort == S_REAL) unsupported("wide load of a symbolic real"); Expr* e = toBV(v, c * 8); r = r ? mkConcat(e, r) : e; }
    if (r->width > t.w) r = mkExtract(r, 0, t.w);
    return {0, r};
  }
  uint8_t* s = g_mem.sh(a);
  bool anySym = false, anyUn = false; for (unsigned i = 0; i < n; ++i) { if (s[i] == SH_SYM || s[i] == SH_CONT) anySym = true; if (s[i] == SH_UNINIT) anyUn = true; }
  if (!anySym && !anyUn) { uint64_t v = 0; memcpy(&v, (void*)a, n); return {mask(v, t.w), nullptr}; }
  if (!anySym) {
    bool all = true; for (unsigned i = 0; i < n; ++i) all &= s[i] == SH_UNINIT;
    if (all) {
      if (g_replay) { static uint64_t gc = 0; ++gc; if (t.k == TK_F64) return VD(7.0e9 + 1e6 * gc); if (t.k == TK_F32) return VI(ofF(7e9f + gc)); return VI(mask(0x5a5a5a5a5a5a5a5aull, t.w)); }
      bool fp = t.k == TK_F64 || t.k == TK_F32;
      Expr* e = fp ? mkVar("uninit#" + std::to_string(g_vars.size()), g_realMode ? S_REAL : S_FP, g_realMode ? 0 : t.w, 2) : mkVar("uninit#" + std::to_string(g_vars.size()), S_BV, n * 8, 2);
      g_vars.back().dval = 1 + 17 * rnd(); g_vars.back().uval = 0x5a; g_eval_epoch++;
      g_mem.setSym(a, n, e);
      return fp || n * 8 == t.w ? Value{0, e} : VE(mkExtract(e, 0, t.w));
    }
  }
  if (s[0] == SH_SYM) {
    Cell c = g_mem.cells.at(a);
    if (c.size == n) {
      if (c.e->sort == S_BV && (t.k == TK_F64 || t.k == TK_F32)) { if (g_realMode) unsupported("symbolic bits loaded as a real"); return VE(mkFP(O_BV2F, t.w, c.e)); }
      if (c.e->sort == S_BV && t.w < n * 8) return VE(mkExtract(c.e, 0, t.w));
      return {0, c.e};
    }
  }
  // assemble byte by byte
  Expr* r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    Expr* b;
    if (s[i] == SH_INIT) b = mkBV(*(uint8_t*)(a + i), 8);
    else if (s[i] == SH_UNINIT) { b = mkVar("uninit#" + std::to_string(g_vars.size()), S_BV, 8, 2); g_mem.setSym(a + i, 1, b); }
    else { uint64_t c0 = g_mem.cellStart(a + i); Cell c = g_mem.cells.at(c0);
      if (c.e->sort == S_REAL) {
        unsupported("partial load of a symbolic real");
      }
      Expr* ce = c.e->sort == S_FP ? mkF2BV(c.e) : c.e; b = mkExtract(ce, (a + i - c0) * 8, 8); }
    r = r ? mkConcat(b, r) : b;
  }
  if (t.k == TK_F64 || t.k == TK_F32) { if (r->isConst()) return {r->k, nullptr}; if (g_realMode) unsupported("symbolic bytes loaded as a real"); return VE(mkFP(O_BV2F, t.w, r)); }
  if (t.w < n * 8) r = mkExtract(r, 0, t.w);
  return VE(r);
}
static void storeV(uint64_t a, Value v, TyI t, unsigned n) {
  if (__builtin_expect(!g_mem.in(a, n), 0)) g_mem.check(a, n, true);
  uint8_t* s = g_mem.sh(a);
  if (!v.e && n <= 8) {
    bool fast = true;
    for (unsigned i = 0; i < n; ++i) if (s[i] != SH_INIT && s[i] != SH_UNINIT) { fast = false; break; }
    if (!fast) { g_mem.check(a, n, true); g_mem.clearCells(a, n); }
    memset(s, SH_INIT, n);
    memcpy((void*)a, &v.u, n); return;
  }
  g_mem.check(a, n, true);
  if (t.k == TK_WIDE) {
    if (!v.e) unsupported("wide concrete store");
    Expr* e = v.e; if (e->width < n * 8) e = mkExt(O_ZEXT, e, n * 8);
    for (unsigned i = 0; i < n; i += 8) { unsigned c = std::min(8u, n - i); storeV(a + i, VE(mkExtract(e, i * 8, c * 8)), {TK_INT, (uint16_t)(c * 8)}, c); }
    return;
  }
  Expr* e = v.e;
  if (e->sort == S_BOOL) e = bool2bv(e, n * 8);
  if (e->sort == S_BV && e->width < n * 8) e = mkExt(O_ZEXT, e, n * 8);
  if (e->isConst() && e->sort == S_BV) { storeV(a, {e->k, nullptr}, t, n); return; }
  g_mem.setSym(a, n, e);
}
static std::string cstr(uint64_t a) { std::string s; if (!a) return s; for (int i = 0; i < 300; ++i) { if (!g_mem.in(a + i, 1)) break; char c = *(char*)(a + i); if (!c) break; s += c; } return s; }

// ------------------------------------------------------------ threads
static const int MAXT = 8;
static bool multi() { return g_threads.size() > 1; }
struct Acc { int tid = -1; uint64_t clk = 0; bool atomic = false; };
struct Hist { Acc w; std::vector<Acc> r; };
static std::unordered_map<uint64_t, Hist> g_hist;
typedef std::map<uint64_t, uint64_t> VC;   // thread -> clock
static std::unordered_map<uint64_t, VC> g_syncVC;
static void vcJoin(VC& d, const VC& s) { for (auto& p : s) d[p.first] = std::max(d[p.first], p.second); }
static void acquireVC(uint64_t o) { if (g_optRace) { auto it = g_syncVC.find(o); if (it != g_syncVC.end()) vcJoin(T->clock, it->second); } }
static void releaseVC(uint64_t o) { if (g_optRace) { vcJoin(g_syncVC[o], T->clock); T->clock[T->id]++; } }
static void raceAccess(uint64_t a, unsigned n, bool write, bool atomic) {
  if (!g_optRace || g_threads.size() < 2) return;
  for (unsigned i = 0; i < n; ++i) {
    Hist& h = g_hist[a + i];
    auto ordered = [&](const Acc& x) { return x.tid < 0 || x.tid == T->id || (x.atomic && atomic) || T->clock[x.tid] >= x.clk; };
    if (!ordered(h.w)) programError("data-race");
    if (write) { for (auto& x : h.r) if (!ordered(x)) programError("data-race"); h.r.clear(); h.w = {T->id, T->clock[T->id], atomic}; }
    else { bool f = false; for (auto& x : h.r) if (x.tid == T->id) { x = {T->id, T->clock[T->id], atomic}; f = true; } if (!f) h.r.push_back({T->id, T->clock[T->id], atomic}); }
  }
}
static Thread* newThread() {
  Thread* t = new Thread; t->id = g_threads.size();
  if (t->id >= MAXT) unsupported("too many threads");
  t->regBase = (Value*)mmap(nullptr, 1ull << 28, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t->stackTop = Memory::STACK0 + t->id * Memory::THREAD_STACK + 4096; t->stackLimit = Memory::STACK0 + (t->id + 1) * Memory::THREAD_STACK - 4096;
  t->clock[t->id] = 1;
  g_threads.push_back(t); return t;
}
static void pushFrame(Thread* t, Func* f, const Value* args, int n, int retDst, int retN) {
  if (f->decl) unsupported("call of external " + f->name);
  if (!f->decoded) decodeFunc(f);
  SHM->executed[f->id < 200000 ? f->id : 0] = 1;
  if (t->regTop + f->nregs + 64 > (1ull << 28) / sizeof(Value) || t->st.size() > 4000) { T = t; programError("stack-overflow"); }
  Frame fr; fr.f = f; fr.pc = 0; fr.regs = t->regBase + t->regTop; fr.rpSave = t->regTop; fr.stackTop = t->stackTop; fr.retDst = retDst; fr.retN = retN;
  t->regTop += f->nregs;
  for (int i = 0; i < n && i < f->nargs; ++i) fr.regs[i] = args[i];
  for (int i = n; i < f->nargs; ++i) fr.regs[i] = {0, nullptr};
  t->st.push_back(fr);
}
static bool runnable(Thread* t) {
  switch (t->state) {
    case Thread::RUN: return true;
    case Thread::MUTEX: return !g_mutex.count(t->wait);
    case Thread::COND: return g_optSpurious > 0 && !g_mutex.count(t->wait2);
    case Thread::JOIN: return g_threads[t->joinId]->state == Thread::DONE;
    default: return false;
  }
}
static void wake(Thread* t) {
  if (t->state == Thread::MUTEX) { g_mutex[t->wait] = t->id; t->state = Thread::RUN; Thread* s = T; T = t; acquireVC(t->wait); T = s; }
  else if (t->state == Thread::COND) { g_optSpurious--; g_mutex[t->wait2] = t->id; t->state = Thread::RUN; Thread* s = T; T = t; acquireVC(t->wait2); T = s; }
  else if (t->state == Thread::JOIN) { t->state = Thread::RUN; if (g_optRace) vcJoin(t->clock, g_threads[t->joinId]->clock); }
}
static void schedule() {
  if (!multi()) { if (T->state != Thread::RUN) { if (runnable(T)) { wake(T); return; } programError("deadlock"); } return; }
  std::vector<Thread*> r;
  bool cur = runnable(T);
  if (cur) r.push_back(T);
  if (!cur || g_preempts < g_optPreempt) for (Thread* t : g_threads) if (t != T && runnable(t)) r.push_back(t);
  if (r.empty()) programError("deadlock");
  SHM->schedPoints++;
  int k = r.size() == 1 ? 0 : chooseN(r.size());
  if (g_replay && r.size() > 1) { int want = g_rschedPos < g_rsched.size() ? g_rsched[g_rschedPos++] : r[0]->id; for (size_t i = 0; i < r.size(); ++i) if (r[i]->id == want) k = i; }
  if (r.size() > 1) g_sched.push_back(r[k]->id);
  if (cur && r[k] != T) g_preempts++;
  T = r[k];
  wake(T);
}

// ------------------------------------------------------------ builtins
struct CallCtx { const Inst* x; CallInfo* ci; std::vector<Value> a; Value ret{0, nullptr}; bool resched = false; };
typedef void (*BFn)(CallCtx&);
static std::unordered_map<std::string, BFn>& btab();
static std::vector<BFn> g_bfn; static std::vector<std::string> g_bname;
static TK fk(CallCtx& c, int i = 0) { return c.ci->argTy[i].k == TK_F32 ? TK_F32 : TK_F64; }
static uint64_t cc(CallCtx& c, int i, const char* w = "argument") { return concretize(c.a[i], 64, w); }
static Expr* newInput(const std::string& nm, Sort s, unsigned w) { Expr* e = mkVar(nm, s, w, 0); g_vars.back().input_index = g_inputs.size(); g_inputs.push_back({nm, s == S_REAL || s == S_FP ? 'r' : 'i', (int)e->k, 0, 0}); return e; }
static double niceStart() { double d = std::round((rnd() * 4 - 2) * 16) / 16; return d == 0 ? 0.8125 : d; }
static Value newReal(const std::string& nm) {
  if (g_replay) return VI(nextIn());
  if (g_realMode) { Expr* e = newInput(nm, S_REAL, 0); g_vars.back().dval = niceStart(); g_eval_epoch++; return {0, e}; }
  Expr* e = newInput(nm, S_FP, 64); g_vars.back().uval = ofD(niceStart()); g_eval_epoch++; return {0, e};
}
static Expr* finiteFP(Expr* e) { return mkFPred(O_FLE, mkFP(O_FABS, 64, e), mkFPc(ofD(std::numeric_limits<double>::max()), 64)); }
static void b_real(CallCtx& c) { c.ret = newReal(cstr(c.a[0].u)); if (g_replay) return; if (!g_realMode) assume(finiteFP(c.ret.e)); }
static void b_real_in(CallCtx& c) {
  double lo = cD(c.a[1], TK_F64), hi = cD(c.a[2], TK_F64); c.ret = newReal(cstr(c.a[0].u)); if (g_replay) return;
  if (c.a[1].e) lo = c.a[1].e->q->get_d(); if (c.a[2].e) hi = c.a[2].e->q->get_d();
  VarInfo& v = g_vars.back(); v.hasrange = true; v.lo = lo; v.hi = hi;
  double s = lo + (hi - lo) * (0.25 + 0.5 * rnd()); s = std::round(s * 64) / 64; if (s < lo || s > hi) s = (lo + hi) / 2;
  v.dval = s; v.uval = ofD(s); g_eval_epoch++;
  if (g_realMode) { Expr* e = c.ret.e; addPath(mkRCmp(O_RLE, toReal(c.a[1], TK_F64), e)); addPath(mkRCmp(O_RLE, e, toReal(c.a[2], TK_F64))); }
  else { if (!g_realMode) v.uval = ofD(s); addPath(mkFPred(O_FLE, mkFPc(ofD(lo), 64), c.ret.e)); addPath(mkFPred(O_FLE, c.ret.e, mkFPc(ofD(hi), 64))); }
}
static void b_double(CallCtx& c) {  // any double, NaN and infinities included
  if (!g_realMode) { c.ret = newReal(cstr(c.a[0].u)); return; }
  std::string nm = cstr(c.a[0].u);
  int k = chooseN(4);
  if (k == 3) { c.ret = newReal(nm); return; }
  double d = k == 0 ? NAN : k == 1 ? INFINITY : -INFINITY;
  g_inputs.push_back({nm, 'r', -1, 0, d}); c.ret = VD(d);
}
static void b_int(CallCtx& c) {
  if (g_replay) { c.ret = VI((uint32_t)nextIn()); return; }
  int32_t lo = (int32_t)c.a[1].u, hi = (int32_t)c.a[2].u; std::string nm = cstr(c.a[0].u);
  if (lo == hi) { g_inputs.push_back({nm, 'i', -1, (uint64_t)(int64_t)lo, 0}); c.ret = VI((uint32_t)lo); return; }
  Expr* e = newInput(nm, S_BV, 32); g_vars.back().uval = (uint32_t)lo; g_eval_epoch++;
  if (lo != INT32_MIN) addPath(mkCmp(O_SLE, mkBV((uint32_t)lo, 32), e)); if (hi != INT32_MAX) addPath(mkCmp(O_SLE, e, mkBV((uint32_t)hi, 32)));
  c.ret = {0, e};
}
static void b_i64(CallCtx& c) {
  if (g_replay) { c.ret = VI(nextIn()); return; }
  int64_t lo = c.a[1].u, hi = c.a[2].u; Expr* e = newInput(cstr(c.a[0].u), S_BV, 64); g_vars.back().uval = lo; g_eval_epoch++;
  if (lo != INT64_MIN) addPath(mkCmp(O_SLE, mkBV(lo, 64), e)); if (hi != INT64_MAX) addPath(mkCmp(O_SLE, e, mkBV(hi, 64)));
  c.ret = {0, e};
}
static void b_choose(CallCtx& c) { if (g_replay) { c.ret = VI((uint32_t)nextIn()); return; } int n = cc(c, 1); int k = n <= 1 ? 0 : chooseN(n); g_inputs.push_back({cstr(c.a[0].u), 'c', -1, (uint64_t)k, 0}); c.ret = VI(k); }
static void b_bool(CallCtx& c) { if (g_replay) { c.ret = VI((uint32_t)nextIn()); return; } Expr* e = newInput(cstr(c.a[0].u), S_BV, 32); g_vars.back().uval = 0; g_eval_epoch++; addPath(mkCmp(O_ULE, e, mkBV(1, 32))); c.ret = {0, e}; }
static Expr* condArg(Value v) { if (!v.e) return mkBool(v.u != 0); if (v.e->sort == S_BOOL) return v.e; return mkNot(mkCmp(O_BVEQ, v.e, mkBV(0, v.e->width))); }
static void b_assume(CallCtx& c) { assume(condArg(c.a[0])); }
static void b_check(CallCtx& c) { std::string id = cstr(c.a[1].u); Expr* ok = condArg(c.a[0]); if (ok->isFalse()) { Ent* e = ent(id); INC(e->reached); violation(id, "assertion is false", nullptr, nullptr); leave(); } obligation(ok, id, "assertion violated"); }
static void b_check_eq(CallCtx& c) {
  Value a = c.a[0], b = c.a[1]; std::string id = cstr(c.a[2].u);
  if (g_replay && !g_replayExact && !a.e && !b.e) { double x = asD(a.u), y = asD(b.u); Ent* e = ent(id); INC(e->reached); bool ok = (std::isnan(x) && std::isnan(y)) || x == y || std::fabs(x - y) <= 1e-6 * std::max(1.0, std::max(std::fabs(x), std::fabs(y))); if (!ok) { violation(id, "values differ", nullptr, nullptr); leave(); } return; }
  if (!g_realMode) { Expr *x = toFP(a, TK_F64), *y = toFP(b, TK_F64); obligation(mkOr(mkFPred(O_FEQ, x, y), mkAnd(mkFPred(O_FISNAN, x), mkFPred(O_FISNAN, y))), id, "values differ"); return; }
  if (special(a, TK_F64) || special(b, TK_F64)) {
    Ent* e = ent(id); INC(e->reached);
    bool same = !a.e && !b.e && ((std::isnan(asD(a.u)) && std::isnan(asD(b.u))) || asD(a.u) == asD(b.u));
    if (same) INC(e->trivial); else { violation(id, "non-finite value differs", nullptr, nullptr); leave(); }
    return;
  }
  Expr *x = toReal(a, TK_F64), *y = toReal(b, TK_F64);
  Expr* d = mkRSub(x, y);
  if (flagsOf(d) & FL_RITE) d = resolveIte(d);
  bool ok; Ent* en = ent(id);
  if (d->op == O_RCONST && *d->q == 0) { INC(en->reached); INC(en->trivial); return; }
  if (nfZero(d, &ok) && ok) { INC(en->reached); INC(en->provedNf); return; }
  obligation(mkRCmp(O_REQ, d, R0()), id, "values differ");
}
static void b_check_le(CallCtx& c) { if (g_replay && !g_replayExact && !c.a[0].e && !c.a[1].e) { double x = asD(c.a[0].u), y = asD(c.a[1].u); Ent* e = ent(cstr(c.a[2].u)); INC(e->reached); if (!(x <= y + 1e-6 * std::max(1.0, std::max(std::fabs(x), std::fabs(y))))) { violation(cstr(c.a[2].u), "inequality", nullptr, nullptr); leave(); } return; } Expr* e = fcmpE(5 /*ole*/, c.a[0], c.a[1], TK_F64); std::string id = cstr(c.a[2].u); if (e->isFalse()) { Ent* en = ent(id); INC(en->reached); violation(id, "inequality is false", nullptr, nullptr); leave(); } obligation(e, id, "inequality violated"); }
static void b_reach(CallCtx& c) { INC(ent("reach:" + cstr(c.a[0].u))->reached); }
static void b_concretize(CallCtx& c) { c.ret = VI((uint32_t)cc(c, 0)); }
static void b_opt(CallCtx& c) {
  std::string n = cstr(c.a[0].u); int v = c.a[1].u;
  if (n == "rite") g_optRite = v; else if (n == "preempt") g_optPreempt = v; else if (n == "spurious") g_optSpurious = v; else if (n == "race") g_optRace = v; else if (n == "selfork") g_optSelFork = v;
  else if (n == "assert_secs") g_secAssert = v; else if (n == "branch_secs") g_secBranch = v;
}
static void b_square_rule(CallCtx& c) {  // declares  var^2 = value  (var: an input)
  if (g_replay) return;
  if (!g_realMode || !c.a[0].e || c.a[0].e->op != O_VAR) unsupported("vp_square_rule");
  Expr* v = c.a[0].e; Expr* val = toReal(c.a[1], TK_F64);
  Expr* eq = mkRCmp(O_REQ, mkRMul(v, v), val); rawAtoms(eq); assume(eq); g_vars[v->k].square = val; g_nf_epoch++;
}
static void b_expect_abort(CallCtx& c) { g_expectAbort = c.a[0].u; }
static void b_dump(CallCtx& c) { std::string s = cstr(c.a[0].u); if (getenv("VP_DEBUG")) { if (c.a[1].e) { g_eval_epoch++; evalD(c.a[1].e); fprintf(stderr, "NOTE %s = %s  [~%g]\n", s.c_str(), exprStr(c.a[1].e, 10).substr(0, 1500).c_str(), c.a[1].e->dval); } else fprintf(stderr, "NOTE %s = %.17g\n", s.c_str(), asD(c.a[1].u)); } }
static void b_issym(CallCtx& c) { c.ret = VI(c.a[0].e != nullptr); }
static void b_live(CallCtx& c) { c.ret = VI(g_mem.blocks.size()); }
static void b_end(CallCtx&) { pathEnd(true); }
static void b_decide(CallCtx& c) { c.ret = VI(decide(condArg(c.a[0]))); }
static void b_writable(CallCtx& c) { bool w = true; for (uint64_t i = 0; i < c.a[1].u; ++i) { uint64_t p = c.a[0].u + i; if (!g_mem.in(p, 1) || *g_mem.sh(p) == SH_NONE || *g_mem.sh(p) == SH_FREED) w = false; } c.ret = VI(w); }
static void b_isinit(CallCtx& c) { bool w = true; for (uint64_t i = 0; i < c.a[1].u; ++i) { uint64_t p = c.a[0].u + i; if (!g_mem.in(p, 1)) w = false; else { uint8_t s = *g_mem.sh(p); if (s == SH_UNINIT) w = false; if (s == SH_SYM) { Expr* e = g_mem.cells[p].e; if (e->op == O_VAR && g_vars[e->k].kind == 2) w = false; } } } c.ret = VI(w); }
static void b_uninit(CallCtx& c) { g_mem.check(c.a[0].u, c.a[1].u, true); g_mem.clearCells(c.a[0].u, c.a[1].u); memset(g_mem.sh(c.a[0].u), SH_UNINIT, c.a[1].u); }
static void b_poison(CallCtx& c) { g_mem.clearCells(c.a[0].u, c.a[1].u); memset(g_mem.sh(c.a[0].u), SH_NONE, c.a[1].u); }

static void b_malloc(CallCtx& c) { uint64_t n = cc(c, 0, "size"); c.ret = VI(g_mem.alloc(n, 16, 1, SH_UNINIT)); }
static void b_new(CallCtx& c) { uint64_t n = cc(c, 0, "size"); c.ret = VI(g_mem.alloc(n, c.a.size() > 1 && c.ci->argTy[1].k == TK_INT ? cc(c, 1) : 16, 2, SH_UNINIT)); }
static void b_newarr(CallCtx& c) { b_new(c); g_mem.blocks[c.ret.u].kind = 3; }
static void b_calloc(CallCtx& c) { uint64_t n = cc(c, 0) * cc(c, 1); c.ret = VI(g_mem.alloc(n, 16, 1, SH_INIT)); memset((void*)c.ret.u, 0, n); }
static void b_realloc(CallCtx& c) { uint64_t p = cc(c, 0), n = cc(c, 1); uint64_t q = g_mem.alloc(n, 16, 1, SH_UNINIT); if (p) { uint64_t o = g_mem.blocks.count(p) ? g_mem.blocks[p].size : 0; g_mem.copy(q, p, std::min(o, n)); g_mem.release(p, 1); } c.ret = VI(q); }
static void b_memalign(CallCtx& c) { c.ret = VI(g_mem.alloc(cc(c, 1), cc(c, 0), 1, SH_UNINIT)); }
static void b_posix_memalign(CallCtx& c) { uint64_t q = g_mem.alloc(cc(c, 2), cc(c, 1), 1, SH_UNINIT); storeV(cc(c, 0), VI(q), {TK_INT, 64}, 8); c.ret = VI(0); }
static void b_free(CallCtx& c) { g_mem.release(cc(c, 0), 1); }
static void b_memcpy(CallCtx& c) { uint64_t d = cc(c, 0), s = cc(c, 1), n = cc(c, 2, "length"); if (g_optRace) { raceAccess(s, n, false, false); raceAccess(d, n, true, false); } g_mem.copy(d, s, n); c.ret = VI(d); }
static void b_memset(CallCtx& c) {
  uint64_t d = cc(c, 0), n = cc(c, 2, "length"); if (g_optRace) raceAccess(d, n, true, false);
  if (!c.a[1].e) g_mem.fill(d, c.a[1].u, n);
  else for (uint64_t i = 0; i < n; ++i) storeV(d + i, VE(mkExtract(toBV(c.a[1], c.a[1].e->width), 0, 8)), {TK_INT, 8}, 1);
  c.ret = VI(d);
}
static void b_nop(CallCtx&) {}
static void b_zero(CallCtx& c) { c.ret = VI(0); }
static void b_one(CallCtx& c) { c.ret = VI(1); }
static void b_abort(CallCtx&) { if (g_expectAbort) { INC(ent("reach:abort")->reached); SHM->aborted++; pathEnd(true); } programError("abort"); }
static void b_checkfail(CallCtx& c) {
  std::string f = cstr(c.a[0].u); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
  if (g_expectAbort) { INC(ent("reach:abort")->reached); SHM->aborted++; pathEnd(true); }
  programError("check-failed " + f + " " + cstr(c.a[2].u));
}
static void b_assertfail(CallCtx& c) { std::string f = cstr(c.a[1].u); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); if (g_expectAbort) { INC(ent("reach:abort")->reached); SHM->aborted++; pathEnd(true); } programError("assert-failed " + f + " " + cstr(c.a[0].u).substr(0, 100)); }
static void b_throw(CallCtx& c) { if (g_expectAbort) { INC(ent("reach:abort")->reached); SHM->aborted++; pathEnd(true); } programError("exception " + (c.ci->callee ? demangled(c.ci->callee->name) : "")); }
static void b_exit(CallCtx&) { pathEnd(true); }
static void b_guard_acq(CallCtx& c) { acquireVC(c.a[0].u); c.ret = VI(*(uint8_t*)c.a[0].u == 0); }
static void b_guard_rel(CallCtx& c) { *(uint8_t*)c.a[0].u = 1; releaseVC(c.a[0].u); memset(g_mem.sh(c.a[0].u), SH_INIT, 8); }
#define M1(n, f) static void b_##n(CallCtx& c) { c.ret = math1(f, c.a[0], fk(c)); }
M1(sqrt, FN_SQRT) M1(sin, FN_SIN) M1(cos, FN_COS) M1(tan, FN_TAN) M1(acos, FN_ACOS) M1(asin, FN_ASIN) M1(atan, FN_ATAN) M1(exp, FN_EXP) M1(log, FN_LOG) M1(cbrt, FN_CBRT)
M1(tanh, FN_TANH) M1(sinh, FN_SINH) M1(cosh, FN_COSH) M1(erf, FN_ERF) M1(erfc, FN_ERFC) M1(j0, FN_J0) M1(j1, FN_J1) M1(exp2, FN_EXP2) M1(log2, FN_LOG2) M1(log10, FN_LOG10) M1(log1p, FN_LOG1P) M1(expm1, FN_EXPM1)
static void b_pow(CallCtx& c) { c.ret = math2(FN_POW, c.a[0], c.a[1], fk(c)); }
static void b_powi(CallCtx& c) { int n = (int32_t)cc(c, 1); c.ret = math2(FN_POW, c.a[0], cV(n, fk(c)), fk(c)); }
static void b_atan2(CallCtx& c) { c.ret = math2(FN_ATAN2, c.a[0], c.a[1], fk(c)); }
static void b_cylj(CallCtx& c) {  // cyl_bessel_j(nu, x)
  TK k = TK_F64; if (c.a[0].e) unsupported("Bessel function of symbolic order"); double nu = asD(c.a[0].u);
  if (nu != std::floor(nu) || nu < 0 || nu > 50) unsupported("Bessel function of non-integer order"); int n = (int)nu;
  if (!c.a[1].e) { double x = asD(c.a[1].u); if (x < 0) programError("exception std::domain_error"); c.ret = cV(std::isnan(x) ? x : jn(n, x), k); return; }
  if (!g_realMode) { c.ret = VE(fpUF(FN_JN * 100 + n, toFP(c.a[1], k), nullptr, 64)); return; }
  Expr* x = toReal(c.a[1], k); if (decide(mkRCmp(O_RLT, x, R0()))) programError("exception std::domain_error");
  c.ret = VR(n == 0 ? generic(FN_J0, x) : n == 1 ? generic(FN_J1, x) : generic(FN_JN, mkRat(n), x), k);
}
static void b_jn(CallCtx& c) { int n = (int32_t)cc(c, 0); TK k = TK_F64; if (!c.a[1].e) { c.ret = cV(jn(n, asD(c.a[1].u)), k); return; } if (!g_realMode) { c.ret = VE(fpUF(FN_JN * 100 + n, toFP(c.a[1], k), nullptr, 64)); return; } c.ret = VR(n == 0 ? generic(FN_J0, toReal(c.a[1], k)) : n == 1 ? generic(FN_J1, toReal(c.a[1], k)) : generic(FN_JN, mkRat(n), toReal(c.a[1], k)), k); }
static void b_hypot(CallCtx& c) { TK k = fk(c); c.ret = math1(FN_SQRT, fbin(I_FADD, fbin(I_FMUL, c.a[0], c.a[0], k), fbin(I_FMUL, c.a[1], c.a[1], k), k), k); }
static void b_hypot3(CallCtx& c) { TK k = fk(c); c.ret = math1(FN_SQRT, fbin(I_FADD, fbin(I_FADD, fbin(I_FMUL, c.a[0], c.a[0], k), fbin(I_FMUL, c.a[1], c.a[1], k), k), fbin(I_FMUL, c.a[2], c.a[2], k), k), k); }
static void b_fabs(CallCtx& c) { c.ret = fabsV(c.a[0], fk(c)); }
static void b_floor(CallCtx& c) { c.ret = floorLike(c.a[0], 0, fk(c)); }
static void b_ceil(CallCtx& c) { c.ret = floorLike(c.a[0], 1, fk(c)); }
static void b_trunc(CallCtx& c) { c.ret = floorLike(c.a[0], 2, fk(c)); }
static void b_rint(CallCtx& c) { if (g_realMode && c.a[0].e) unsupported("rint"); c.ret = floorLike(c.a[0], 3, fk(c)); }
static void b_round(CallCtx& c) { c.ret = floorLike(c.a[0], 4, fk(c)); }
static void minmax(CallCtx& c, bool mn) {
  TK k = fk(c); Value a = c.a[0], b = c.a[1];
  if (!a.e && !b.e) { double x = cD(a, k), y = cD(b, k); c.ret = cV(mn ? std::fmin(x, y) : std::fmax(x, y), k); return; }
  if (!g_realMode) { c.ret = VE(mkFP(mn ? O_FMIN : O_FMAX, k == TK_F64 ? 64 : 32, toFP(a, k), toFP(b, k))); return; }
  if (special(a, k) && std::isnan(cD(a, k))) { c.ret = b; return; } if (special(b, k) && std::isnan(cD(b, k))) { c.ret = a; return; }
  c.ret = select(VE(fcmpE(mn ? 4 : 2, a, b, k)), a, b, {k, (uint16_t)(k == TK_F64 ? 64 : 32)});
}
static void b_fmin(CallCtx& c) { minmax(c, true); }
static void b_fmax(CallCtx& c) { minmax(c, false); }
static void b_copysign(CallCtx& c) {
  TK k = fk(c); Value a = c.a[0], b = c.a[1];
  if (!a.e && !b.e) { c.ret = cV(std::copysign(cD(a, k), cD(b, k)), k); return; }
  if (!g_realMode) { unsigned w = k == TK_F64 ? 64 : 32; Expr* s = mkBin(O_BAND, mkF2BV(toFP(b, k)), mkBV(1ull << (w - 1), w)); Expr* m = mkBin(O_BAND, mkF2BV(toFP(a, k)), mkBV((1ull << (w - 1)) - 1, w)); c.ret = VE(mkFP(O_BV2F, w, mkBin(O_BOR, s, m))); return; }
  Value m = fabsV(a, k); bool neg = b.e ? decide(mkRCmp(O_RLT, toReal(b, k), R0())) : std::signbit(cD(b, k)); c.ret = neg ? fneg(m, k) : m;
}
static void b_fmuladd(CallCtx& c) { TK k = fk(c); c.ret = fbin(I_FADD, fbin(I_FMUL, c.a[0], c.a[1], k), c.a[2], k); }
static void b_fmod(CallCtx& c) { c.ret = fbin(I_FREM, c.a[0], c.a[1], fk(c)); }
static void b_nextafter(CallCtx& c) { if (c.a[0].e || c.a[1].e) { if (g_realMode) { c.ret = c.a[0]; return; } unsupported("nextafter"); } c.ret = cV(std::nextafter(cD(c.a[0], fk(c)), cD(c.a[1], fk(c))), fk(c)); }
static void b_isfpclass(CallCtx& c) {
  TK k = fk(c); unsigned m = c.a[1].u; Value v = c.a[0];
  // 3 nan, 4 -inf, 8 -normal, 0x10 -sub, 0x20 -0, 0x40 +0, 0x80 +sub, 0x100 +normal, 0x200 +inf
  if (!v.e) { double d = cD(v, k); unsigned b; bool s = std::signbit(d); switch (std::fpclassify(d)) { case FP_NAN: b = 3; break; case FP_INFINITE: b = s ? 4 : 0x200; break; case FP_ZERO: b = s ? 0x20 : 0x40; break; case FP_SUBNORMAL: b = s ? 0x10 : 0x80; break; default: b = s ? 8 : 0x100; } c.ret = VI((b & m) != 0); return; }
  if (g_realMode) {
    Expr* x = toReal(v, k); Expr* r = mkBool(false);
    if (m & 0x18) r = mkOr(r, mkRCmp(O_RLT, x, R0())); if (m & 0x60) r = mkOr(r, mkRCmp(O_REQ, x, R0())); if (m & 0x180) r = mkOr(r, mkRCmp(O_RLT, R0(), x));
    if ((m & 0x1f8) == 0x1f8) r = mkBool(true);
    c.ret = VE(r); return;
  }
  unsigned w = k == TK_F64 ? 64 : 32; Expr* x = toFP(v, k); Expr* r = mkBool(false); Expr* z = mkFPc(0, w); Expr* inf = k == TK_F64 ? mkFPc(ofD(INFINITY), 64) : mkFPc(ofF(INFINITY), 32); Expr* ninf = mkFP(O_FNEG, w, inf);
  if (m & 3) r = mkOr(r, mkFPred(O_FISNAN, x));
  if (m & 4) r = mkOr(r, mkFPred(O_FEQ, x, ninf)); if (m & 0x200) r = mkOr(r, mkFPred(O_FEQ, x, inf));
  auto sgnd = [&](bool neg, Expr* e) { Expr* sb = mkCmp(O_BVEQ, mkExtract(mkF2BV(x), w - 1, 1), mkBV(neg, 1)); return mkAnd(sb, e); };
  auto both = [&](unsigned nb, unsigned pb, Expr* e) { if ((m & nb) && (m & pb)) r = mkOr(r, e); else if (m & nb) r = mkOr(r, sgnd(true, e)); else if (m & pb) r = mkOr(r, sgnd(false, e)); };
  Expr *ax = mkFP(O_FABS, w, x), *mn = k == TK_F64 ? mkFPc(ofD(std::numeric_limits<double>::min()), 64) : mkFPc(ofF(std::numeric_limits<float>::min()), 32);
  both(0x20, 0x40, mkFPred(O_FEQ, x, z));
  both(0x10, 0x80, mkAnd(mkFPred(O_FLT, z, ax), mkFPred(O_FLT, ax, mn)));
  both(0x08, 0x100, mkAnd(mkFPred(O_FLE, mn, ax), mkFPred(O_FLT, ax, inf)));
  c.ret = VE(r);
}
// integer intrinsics
static Value ibin(IOp op, Value a, Value b, unsigned w);
static Value icmp(unsigned pred, Value a, Value b, unsigned w);
static unsigned rw(CallCtx& c) { return c.ci->argTy[0].w; }
static void imm2(CallCtx& c, unsigned pred) { Value t = icmp(pred, c.a[0], c.a[1], rw(c)); c.ret = select(t, c.a[0], c.a[1], {TK_INT, (uint16_t)rw(c)}); }
static void b_smax(CallCtx& c) { imm2(c, 38); } static void b_smin(CallCtx& c) { imm2(c, 40); } static void b_umax(CallCtx& c) { imm2(c, 34); } static void b_umin(CallCtx& c) { imm2(c, 36); }
static void b_iabs(CallCtx& c) { unsigned w = rw(c); Value n = ibin(I_SUB, VI(0), c.a[0], w); c.ret = select(icmp(40, c.a[0], VI(0), w), n, c.a[0], {TK_INT, (uint16_t)w}); }
static void b_ctlz(CallCtx& c) { unsigned w = rw(c); uint64_t v = cc(c, 0); c.ret = VI(v ? __builtin_clzll(v) - (64 - w) : w); }
static void b_cttz(CallCtx& c) { unsigned w = rw(c); uint64_t v = cc(c, 0); c.ret = VI(v ? __builtin_ctzll(v) : w); }
static void b_ctpop(CallCtx& c) { c.ret = VI(__builtin_popcountll(cc(c, 0))); }
static void b_bswap(CallCtx& c) { uint64_t v = cc(c, 0); unsigned w = rw(c); c.ret = VI(w == 64 ? __builtin_bswap64(v) : w == 32 ? __builtin_bswap32(v) : __builtin_bswap16(v)); }
static void b_fshl(CallCtx& c) { unsigned w = rw(c); uint64_t s = cc(c, 2) % w; if (!s) { c.ret = c.a[0]; return; } c.ret = ibin(I_OR, ibin(I_SHL, c.a[0], VI(s), w), ibin(I_LSHR, c.a[1], VI(w - s), w), w); }
static void b_fshr(CallCtx& c) { unsigned w = rw(c); uint64_t s = cc(c, 2) % w; if (!s) { c.ret = c.a[1]; return; } c.ret = ibin(I_OR, ibin(I_SHL, c.a[0], VI(w - s), w), ibin(I_LSHR, c.a[1], VI(s), w), w); }
static Frame& fr() { return T->st.back(); }
static void ret2(CallCtx& c, Value r, Value o) { if (c.x->dst >= 0) { fr().regs[c.x->dst] = r; fr().regs[c.x->dst + 1] = o; } c.ci = c.ci; c.ret = r; c.resched = false; }
static void ovf(CallCtx& c, IOp op, bool sg) {
  unsigned w = rw(c); Value r = ibin(op, c.a[0], c.a[1], w), o;
  if (!c.a[0].e && !c.a[1].e) {
    __int128 x = sg ? (__int128)sx(c.a[0].u, w) : (__int128)c.a[0].u, y = sg ? (__int128)sx(c.a[1].u, w) : (__int128)c.a[1].u, z = op == I_ADD ? x + y : op == I_SUB ? x - y : x * y;
    __int128 t = sg ? (__int128)sx(r.u, w) : (__int128)r.u; o = VI(z != t);
  } else if (w <= 32) {
    Expr* x = mkExt(sg ? O_SEXT : O_ZEXT, toBV(c.a[0], w), 64); Expr* y = mkExt(sg ? O_SEXT : O_ZEXT, toBV(c.a[1], w), 64);
    Expr* z = mkBin(op == I_ADD ? O_ADD : op == I_SUB ? O_SUB : O_MUL, x, y); o = VE(mkNot(mkCmp(O_BVEQ, z, mkExt(sg ? O_SEXT : O_ZEXT, toBV(r, w), 64))));
  } else if (op == I_MUL && !sg && !c.a[1].e) {
    uint64_t k = c.a[1].u; o = k == 0 ? VI(0) : VE(mkCmp(O_ULT, mkBV(~0ull / k, 64), toBV(c.a[0], 64)));
  } else { c.a[0] = VI(cc(c, 0)); c.a[1] = VI(cc(c, 1)); ovf(c, op, sg); return; }
  ret2(c, r, o);
}
static void b_sadd(CallCtx& c) { ovf(c, I_ADD, true); } static void b_uadd(CallCtx& c) { ovf(c, I_ADD, false); } static void b_ssub(CallCtx& c) { ovf(c, I_SUB, true); }
static void b_usub(CallCtx& c) { ovf(c, I_SUB, false); } static void b_smul(CallCtx& c) { ovf(c, I_MUL, true); } static void b_umul(CallCtx& c) { ovf(c, I_MUL, false); }
static void b_usubsat(CallCtx& c) { unsigned w = rw(c); c.ret = select(icmp(36, c.a[0], c.a[1], w), VI(0), ibin(I_SUB, c.a[0], c.a[1], w), {TK_INT, (uint16_t)w}); }
static void b_objsize(CallCtx& c) { c.ret = VI(~0ull); }
static void b_expect(CallCtx& c) { c.ret = c.a[0]; }
static void b_isconst(CallCtx& c) { c.ret = VI(0); }
// threads
static void b_mutex_lock(CallCtx& c) { uint64_t m = c.a[0].u; c.ret = VI(0); if (!g_mutex.count(m) && !multi()) { g_mutex[m] = T->id; return; } T->state = Thread::MUTEX; T->wait = m; c.resched = true; }
static void b_mutex_trylock(CallCtx& c) { uint64_t m = c.a[0].u; if (g_mutex.count(m)) c.ret = VI(16); else { g_mutex[m] = T->id; acquireVC(m); c.ret = VI(0); } }
static void b_mutex_unlock(CallCtx& c) { uint64_t m = c.a[0].u; auto it = g_mutex.find(m); if (it == g_mutex.end() || it->second != T->id) programError("unlock-of-unowned-mutex"); releaseVC(m); g_mutex.erase(it); c.ret = VI(0); c.resched = multi(); }
static void b_cond_wait(CallCtx& c) { uint64_t cv = c.a[0].u, m = c.a[1].u; auto it = g_mutex.find(m); if (it == g_mutex.end() || it->second != T->id) programError("wait-without-mutex"); releaseVC(m); g_mutex.erase(it); T->state = Thread::COND; T->wait = cv; T->wait2 = m; c.ret = VI(0); c.resched = true; }
static void notify(uint64_t cv, bool all) {
  std::vector<Thread*> w; for (Thread* t : g_threads) if (t->state == Thread::COND && t->wait == cv) w.push_back(t);
  if (w.empty()) return;
  if (all) { for (Thread* t : w) { t->state = Thread::MUTEX; t->wait = t->wait2; } return; }
  int k = w.size() > 1 ? chooseN(w.size()) : 0;
  if (g_replay && w.size() > 1) { int want = g_rschedPos < g_rsched.size() ? g_rsched[g_rschedPos++] : 0; for (size_t i = 0; i < w.size(); ++i) if (100 + w[i]->id == want) k = i; }
  if (w.size() > 1) g_sched.push_back(100 + w[k]->id);
  w[k]->state = Thread::MUTEX; w[k]->wait = w[k]->wait2;
}
static void b_cond_signal(CallCtx& c) { notify(c.a[0].u, false); c.ret = VI(0); c.resched = multi(); }
static void b_cond_bcast(CallCtx& c) { notify(c.a[0].u, true); c.ret = VI(0); c.resched = multi(); }
static void b_thread_create(CallCtx& c) {
  uint64_t fn = c.a[0].u; auto it = g_funcByAddr.find(fn); if (it == g_funcByAddr.end()) unsupported("thread entry");
  Thread* t = newThread(); if (g_optRace) { vcJoin(t->clock, T->clock); T->clock[T->id]++; }
  Value arg = c.a[1]; pushFrame(t, it->second, &arg, 1, -1, 0); c.ret = VI(t->id); c.resched = true;
}
static void b_thread_join(CallCtx& c) { int id = (int)c.a[0].u; if (id <= 0 || id >= (int)g_threads.size()) programError("join-of-unknown-thread"); T->state = Thread::JOIN; T->joinId = id; c.resched = true; }
static void b_thread_self(CallCtx& c) { c.ret = VI(T->id); }
static void b_yield(CallCtx& c) { c.resched = multi(); }
static void b_nthreads(CallCtx& c) { int n = 0; for (Thread* t : g_threads) if (t->state != Thread::DONE) n++; c.ret = VI(n); }
static void b_rb_color(CallCtx&) {}
static void b_clock(CallCtx& c) { c.ret = VD(0); }

static std::unordered_map<std::string, BFn>& btab() {
  static std::unordered_map<std::string, BFn> t = {
    {"vp_real", b_real}, {"vp_real_in", b_real_in}, {"vp_double", b_double}, {"vp_int", b_int}, {"vp_i64", b_i64}, {"vp_choose", b_choose}, {"vp_bool", b_bool},
    {"vp_assume", b_assume}, {"vp_check", b_check}, {"vp_check_eq", b_check_eq}, {"vp_check_le", b_check_le}, {"vp_reach", b_reach}, {"vp_concretize", b_concretize},
    {"vp_opt", b_opt}, {"vp_square_rule", b_square_rule}, {"vp_expect_abort", b_expect_abort}, {"vp_note", b_dump}, {"vp_is_symbolic", b_issym}, {"vp_live_blocks", b_live}, {"vp_end", b_end}, {"vp_decide", b_decide},
    {"vp_writable", b_writable}, {"vp_is_init", b_isinit}, {"vp_make_uninit", b_uninit}, {"vp_make_inaccessible", b_poison},
    {"vp_check_failed", b_checkfail}, {"malloc", b_malloc}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free}, {"aligned_alloc", b_memalign}, {"memalign", b_memalign}, {"posix_memalign", b_posix_memalign},
    {"_Znwm", b_new}, {"_Znam", b_newarr}, {"_ZnwmSt11align_val_t", b_new}, {"_ZnamSt11align_val_t", b_newarr}, {"_ZnwmRKSt9nothrow_t", b_malloc}, {"_ZnamRKSt9nothrow_t", b_malloc},
    {"_ZdlPv", b_free}, {"_ZdaPv", b_free}, {"_ZdlPvm", b_free}, {"_ZdaPvm", b_free}, {"_ZdlPvSt11align_val_t", b_free}, {"_ZdaPvSt11align_val_t", b_free}, {"_ZdlPvmSt11align_val_t", b_free}, {"_ZdaPvmSt11align_val_t", b_free}, {"_ZdlPvRKSt9nothrow_t", b_free},
    {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset},
    {"abort", b_abort}, {"__assert_fail", b_assertfail}, {"_ZSt9terminatev", b_abort}, {"__cxa_pure_virtual", b_abort}, {"exit", b_exit}, {"_exit", b_exit},
    {"__cxa_guard_acquire", b_guard_acq}, {"__cxa_guard_release", b_guard_rel}, {"__cxa_atexit", b_zero}, {"atexit", b_zero},
    {"printf", b_zero}, {"puts", b_zero}, {"putchar", b_zero}, {"fprintf", b_zero}, {"fflush", b_zero}, {"fwrite", b_zero}, {"fputs", b_zero}, {"fputc", b_zero}, {"vfprintf", b_zero},
    {"_ZNSt8ios_base4InitC1Ev", b_nop}, {"_ZNSt8ios_base4InitD1Ev", b_nop},
    {"sqrt", b_sqrt}, {"sqrtf", b_sqrt}, {"sin", b_sin}, {"cos", b_cos}, {"tan", b_tan}, {"acos", b_acos}, {"asin", b_asin}, {"atan", b_atan}, {"exp", b_exp}, {"log", b_log}, {"cbrt", b_cbrt}, {"tanh", b_tanh}, {"sinh", b_sinh}, {"cosh", b_cosh}, {"erf", b_erf}, {"erfc", b_erfc}, {"j0", b_j0}, {"j1", b_j1}, {"jn", b_jn}, {"_ZNSt8__detail14__cyl_bessel_jIdEET_S1_S1_", b_cylj}, {"_ZSt8__hypot3IdET_S0_S0_S0_", b_hypot3}, {"exp2", b_exp2}, {"log2", b_log2}, {"log10", b_log10}, {"log1p", b_log1p}, {"expm1", b_expm1},
    {"pow", b_pow}, {"atan2", b_atan2}, {"hypot", b_hypot}, {"fabs", b_fabs}, {"fabsf", b_fabs}, {"floor", b_floor}, {"ceil", b_ceil}, {"trunc", b_trunc}, {"round", b_round}, {"rint", b_rint}, {"nearbyint", b_rint}, {"fmin", b_fmin}, {"fmax", b_fmax}, {"fmod", b_fmod}, {"copysign", b_copysign}, {"fma", b_fmuladd}, {"nextafter", b_nextafter},
    {"sinf", b_sin}, {"cosf", b_cos}, {"powf", b_pow}, {"expf", b_exp}, {"logf", b_log}, {"floorf", b_floor}, {"ceilf", b_ceil}, {"atan2f", b_atan2}, {"acosf", b_acos},
    {"pthread_mutex_lock", b_mutex_lock}, {"pthread_mutex_unlock", b_mutex_unlock}, {"pthread_mutex_trylock", b_mutex_trylock}, {"pthread_cond_destroy", b_zero}, {"pthread_cond_init", b_zero}, {"pthread_mutex_init", b_zero}, {"pthread_mutex_destroy", b_zero}, {"vp_cond_wait", b_cond_wait}, {"vp_cond_signal", b_cond_signal}, {"vp_cond_broadcast", b_cond_bcast},
    {"pthread_cond_wait", b_cond_wait}, {"pthread_cond_signal", b_cond_signal}, {"pthread_cond_broadcast", b_cond_bcast}, {"vp_thread_create", b_thread_create}, {"vp_thread_join", b_thread_join}, {"vp_thread_self", b_thread_self}, {"vp_yield", b_yield}, {"vp_num_threads", b_nthreads},
    {"__pthread_key_create", b_one}, {"pthread_self", b_thread_self}, {"sched_yield", b_yield}, {"_ZSt17__throw_bad_allocv", b_throw},
  };
  return t;
}
int builtinFor(const std::string& n) {
  BFn f = nullptr;
  auto it = btab().find(n);
  auto pre = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  if (it != btab().end()) f = it->second;
  else if (pre("llvm.")) {
    static const std::vector<std::pair<const char*, BFn>> L = {
      {"llvm.memcpy", b_memcpy}, {"llvm.memmove", b_memcpy}, {"llvm.memset", b_memset}, {"llvm.fabs", b_fabs}, {"llvm.sqrt", b_sqrt}, {"llvm.sin", b_sin}, {"llvm.cos", b_cos}, {"llvm.exp2", b_exp2}, {"llvm.exp.", b_exp}, {"llvm.log2", b_log2}, {"llvm.log10", b_log10}, {"llvm.log.", b_log},
      {"llvm.powi", b_powi}, {"llvm.pow", b_pow}, {"llvm.floor", b_floor}, {"llvm.ceil", b_ceil}, {"llvm.trunc", b_trunc}, {"llvm.round.", b_round}, {"llvm.rint", b_rint}, {"llvm.nearbyint", b_rint}, {"llvm.minnum", b_fmin}, {"llvm.maxnum", b_fmax}, {"llvm.copysign", b_copysign}, {"llvm.fmuladd", b_fmuladd}, {"llvm.fma.", b_fmuladd}, {"llvm.is.fpclass", b_isfpclass},
      {"llvm.smax", b_smax}, {"llvm.smin", b_smin}, {"llvm.umax", b_umax}, {"llvm.umin", b_umin}, {"llvm.abs", b_iabs}, {"llvm.ctlz", b_ctlz}, {"llvm.cttz", b_cttz}, {"llvm.ctpop", b_ctpop}, {"llvm.bswap", b_bswap}, {"llvm.fshl", b_fshl}, {"llvm.fshr", b_fshr},
      {"llvm.sadd.with", b_sadd}, {"llvm.uadd.with", b_uadd}, {"llvm.ssub.with", b_ssub}, {"llvm.usub.with", b_usub}, {"llvm.smul.with", b_smul}, {"llvm.umul.with", b_umul}, {"llvm.usub.sat", b_usubsat}, {"llvm.objectsize", b_objsize}, {"llvm.expect", b_expect}, {"llvm.is.constant", b_isconst}, {"llvm.trap", b_abort}, {"llvm.threadlocal", b_expect}, {"llvm.stacksave", b_zero}, {"llvm.stackrestore", b_nop}, {"llvm.launder", b_expect}, {"llvm.strip", b_expect}, {"llvm.ptrmask", nullptr}, {"llvm.va_", b_nop}};
    for (auto& p : L) if (pre(p.first)) { f = p.second; break; }
  } else if (pre("_ZSt") && n.find("__throw_") != std::string::npos) f = b_throw;
  else if (n == "__cxa_throw" || n == "__cxa_bad_cast" || n == "__cxa_throw_bad_array_new_length" || n == "__cxa_bad_typeid") f = b_throw;
  if (!f) return -1;
  g_bfn.push_back(f); g_bname.push_back(n); return g_bfn.size() - 1;
}

// ------------------------------------------------------------ integer ops
static bool realBits(Value v) { return v.e && v.e->sort == S_REAL; }
static Value ibin(IOp op, Value a, Value b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.u, y = b.u, r = 0;
    switch (op) {
      case I_ADD: r = x + y; break; case I_SUB: r = x - y; break; case I_MUL: r = x * y; break;
      case I_AND: r = x & y; break; case I_OR: r = x | y; break; case I_XOR: r = x ^ y; break;
      case I_SHL: r = y >= w ? 0 : x << y; break; case I_LSHR: r = y >= w ? 0 : x >> y; break; case I_ASHR: r = (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
      case I_UDIV: if (!y) programError("division-by-zero"); r = x / y; break;
      case I_UREM: if (!y) programError("division-by-zero"); r = x % y; break;
      case I_SDIV: if (!y) programError("division-by-zero"); if (sx(y, w) == -1) r = -x; else r = (uint64_t)(sx(x, w) / sx(y, w)); break;
      case I_SREM: if (!y) programError("division-by-zero"); if (sx(y, w) == -1) r = 0; else r = (uint64_t)(sx(x, w) % sx(y, w)); break;
      default: break;
    }
    return VI(mask(r, w));
  }
  if (realBits(a) || realBits(b)) {
    Value r = realBits(a) ? a : b, k = realBits(a) ? b : a;
    if (!k.e) {
      if (op == I_AND && k.u == 0x7fffffffffffffffull) return fabsV(r, TK_F64);
      if (op == I_XOR && k.u == 0x8000000000000000ull) return fneg(r, TK_F64);
      if (op == I_LSHR && k.u == 63 && realBits(a)) return VE(bool2bv(mkRCmp(O_RLT, r.e, R0()), 64));
      if (op == I_ASHR && k.u == 63 && realBits(a)) return VE(mkIte(mkRCmp(O_RLT, r.e, R0()), mkBV(~0ull, 64), mkBV(0, 64)));
      if (op == I_AND && k.u == 0x8000000000000000ull) return VE(mkIte(mkRCmp(O_RLT, r.e, R0()), mkBV(1ull << 63, 64), mkBV(0, 64)));
      if ((op == I_OR || op == I_XOR || op == I_ADD) && k.u == 0) return r;
    }
    unsupported("bit operation on a symbolic real");
  }
  if (w == 1) {
    Expr *x = toBool(a), *y = toBool(b);
    switch (op) { case I_AND: return VE(mkAnd(x, y)); case I_OR: return VE(mkOr(x, y)); case I_XOR: case I_ADD: case I_SUB: return VE(mkNot(mkBeq(x, y))); case I_MUL: return VE(mkAnd(x, y)); default: unsupported("i1 op"); }
  }
  Expr *x = toBV(a, w), *y = toBV(b, w);
  if (op == I_UDIV || op == I_SDIV || op == I_UREM || op == I_SREM) { if (decide(mkCmp(O_BVEQ, y, mkBV(0, w)))) programError("division-by-zero"); }
  static const Op m[] = {O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_BAND, O_BOR, O_BXOR, O_SHL, O_LSHR, O_ASHR};
  return VE(mkBin(m[op - I_ADD], x, y));
}
static Value icmp(unsigned pred, Value a, Value b, unsigned w) {
  // 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.u, y = b.u; bool r = false; int64_t p = sx(x, w), q = sx(y, w);
    switch (pred) { case 32: r = x == y; break; case 33: r = x != y; break; case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break; case 38: r = p > q; break; case 39: r = p >= q; break; case 40: r = p < q; break; case 41: r = p <= q; break; }
    return VI(r);
  }
  if (realBits(a) || realBits(b)) {
    if (realBits(a) && !b.e) { if (pred == 40 && b.u == 0) return VE(mkRCmp(O_RLT, a.e, R0())); if (pred == 38 && b.u == ~0ull) return VE(mkRCmp(O_RLE, R0(), a.e)); }
    if (pred == 32 || pred == 33) { Expr* e = mkRCmp(O_REQ, toReal(a, TK_F64), toReal(b, TK_F64)); return VE(pred == 32 ? e : mkNot(e)); }
    unsupported("integer comparison of a symbolic real");
  }
  if (w == 1) { Expr *x = toBool(a), *y = toBool(b); switch (pred) { case 32: return VE(mkBeq(x, y)); case 33: return VE(mkNot(mkBeq(x, y))); case 34: case 40: return VE(mkAnd(x, mkNot(y))); case 36: case 38: return VE(mkAnd(y, mkNot(x))); case 35: case 41: return VE(mkOr(x, mkNot(y))); default: return VE(mkOr(y, mkNot(x))); } }
  Expr *x = toBV(a, w), *y = toBV(b, w);
  switch (pred) {
    case 32: return VE(mkCmp(O_BVEQ, x, y)); case 33: return VE(mkNot(mkCmp(O_BVEQ, x, y)));
    case 34: return VE(mkCmp(O_ULT, y, x)); case 35: return VE(mkCmp(O_ULE, y, x)); case 36: return VE(mkCmp(O_ULT, x, y)); case 37: return VE(mkCmp(O_ULE, x, y));
    case 38: return VE(mkCmp(O_SLT, y, x)); case 39: return VE(mkCmp(O_SLE, y, x)); case 40: return VE(mkCmp(O_SLT, x, y)); default: return VE(mkCmp(O_SLE, x, y));
  }
}
static Value castV(const Inst& x, Value v) {
  unsigned w = x.ty.w, w2 = x.ty2.w; TK k = x.ty.k, k2 = x.ty2.k;
  switch (x.op) {
    case I_TRUNC: if (!v.e) return VI(mask(v.u, w)); if (realBits(v)) unsupported("trunc of real bits"); if (w == 1) return VE(toBool(v)); if (k2 != TK_WIDE && v.e->sort == S_BOOL) return VE(bool2bv(v.e, w)); return VE(mkExtract(toBV(v, w2), 0, w));
    case I_ZEXT: if (!v.e) { if (k == TK_WIDE) return {0, mkExt(O_ZEXT, mkBV(v.u, w2), w)}; return v; } return VE(v.e->sort == S_BOOL ? bool2bv(v.e, w) : mkExt(O_ZEXT, toBV(v, w2), w));
    case I_SEXT: if (!v.e) { if (k == TK_WIDE) return {0, mkExt(O_SEXT, mkBV(v.u, w2), w)}; return VI(mask((uint64_t)sx(v.u, w2), w)); } if (v.e->sort == S_BOOL) return VE(mkIte(v.e, mkBV(~0ull, w), mkBV(0, w))); return VE(mkExt(O_SEXT, toBV(v, w2), w));
    case I_SITOFP: case I_UITOFP: {
      bool sg = x.op == I_SITOFP;
      if (!v.e) { if (k == TK_F64) return VD(sg ? (double)sx(v.u, w2) : (double)v.u); return VI(ofF(sg ? (float)sx(v.u, w2) : (float)v.u)); }
      if (v.e->sort == S_BOOL) { return select(v, cV(sg ? -1 : 1, k), cV(0, k), x.ty); }
      if (g_realMode) return VR(mkI2R(sg ? O_S2R : O_U2R, toBV(v, w2)), k);
      return VE(mkFP(sg ? O_SI2F : O_UI2F, k == TK_F64 ? 64 : 32, toBV(v, w2))); }
    case I_FPTOSI: case I_FPTOUI: {
      if (!v.e) { double d = cD(v, k2); if (std::isnan(d) || std::fabs(d) > 9.3e18) return VI(mask(1ull << (w - 1), w)); return VI(mask(x.op == I_FPTOSI ? (uint64_t)(int64_t)d : (uint64_t)d, w)); }
      if (g_realMode) { Value t = floorLike(v, 2, k2); double d = cD(t, k2); return VI(mask((uint64_t)(int64_t)d, w)); }
      return VE(mkF2I(x.op == I_FPTOSI ? O_F2SI : O_F2UI, toFP(v, k2), w)); }
    case I_FPEXT: case I_FPTRUNC:
      if (!v.e) { double d = cD(v, k2); if (g_realMode && k == TK_F32 && std::isfinite(d) && (double)(float)d != d) return {0, mkRatD(d)}; return cV(d, k); }
      if (g_realMode) return v;
      return VE(mkFP(O_FCVT, k == TK_F64 ? 64 : 32, toFP(v, k2)));
    case I_BITCAST: {
      bool f1 = k == TK_F64 || k == TK_F32, f2 = k2 == TK_F64 || k2 == TK_F32;
      if (!v.e || g_realMode || f1 == f2) { if (v.e && g_realMode && f1 && v.e->sort == S_BV) unsupported("bits to real"); return v; }
      return f1 ? VE(mkFP(O_BV2F, w, toBV(v, w))) : VE(mkF2BV(toFP(v, k2))); }
    default: return v;
  }
}
static inline Value get(Frame& f, int32_t i) { return i >= 0 ? f.regs[i] : g_consts[-i - 1]; }
static inline int32_t el(int32_t b, int i) { return b >= 0 ? b + i : b - i; }
static void jump(Frame& f, int bb, int cp) {
  auto& cs = f.f->copies[cp];
  if (cs.size() == 1) f.regs[cs[0].dst] = get(f, cs[0].src);
  else if (!cs.empty()) { static thread_local std::vector<Value> tmp; tmp.clear(); for (auto& c : cs) tmp.push_back(get(f, c.src)); for (size_t i = 0; i < cs.size(); ++i) f.regs[cs[i].dst] = tmp[i]; }
  f.pc = f.f->bbStart[bb];
}
static uint64_t addrOf(Value v) { if (!v.e) return v.u; if (v.e->sort == S_REAL) unsupported("real used as an address"); return concretize(v, 64, "address"); }

static void doRet(Frame& f, const Inst& x) {
  std::vector<Value> rv; for (int i = 0; i < x.n; ++i) rv.push_back(get(f, el(x.a, i)));
  Frame done = f;
  if (T->stackTop > done.stackTop) { g_mem.clearCells(done.stackTop, T->stackTop - done.stackTop); memset(g_mem.sh(done.stackTop), SH_NONE, T->stackTop - done.stackTop); T->stackTop = done.stackTop; }
  T->regTop = done.rpSave; T->st.pop_back();
  if (T->st.empty()) {
    if (T->id == 0) pathEnd(true);
    T->state = Thread::DONE; schedule(); return;
  }
  if (done.retDst >= 0) for (int i = 0; i < done.retN; ++i) T->st.back().regs[done.retDst + i] = rv[i];
}
static void doCall(Frame& f, const Inst& x) {
  CallInfo& ci = f.f->calls[x.ext];
  Func* callee = ci.callee; int bi = ci.builtin;
  if (!callee) {
    uint64_t a = addrOf(get(f, ci.fnOp)); auto it = g_funcByAddr.find(a);
    if (it == g_funcByAddr.end()) programError(a ? "call-of-wild-pointer" : "call-of-null");
    callee = it->second; bi = callee->decl ? callee->builtin : -1;
  }
  if (bi >= 0) {
    CallCtx c; c.x = &x; c.ci = &ci; for (int32_t s : ci.flat) c.a.push_back(get(f, s));
    BFn fn = g_bfn[bi];
    Func* saveCallee = ci.callee; if (!ci.callee) ci.callee = callee;
    fn(c);
    ci.callee = saveCallee;
    if (x.dst >= 0 && x.n == 1) fr().regs[x.dst] = c.ret;
    if (c.resched) schedule();
    return;
  }
  if (callee->decl) unsupported("call of external " + callee->name);
  Value args[64]; int n = 0; size_t fi = 0;
  std::vector<Value> big; Value* ap = args; if (ci.flat.size() > 64) { big.resize(ci.flat.size()); ap = big.data(); }
  for (size_t i = 0; i < ci.flat.size(); ++i) ap[n++] = get(f, ci.flat[i]);
  uint64_t savedTop = T->stackTop;
  for (size_t i = 0; i < ci.argTy.size(); ++i) if (ci.argTy[i].k == TK_WIDE && ci.argTy[i].w && ci.flat.size() == ci.argTy.size()) {  // byval
    uint64_t sz = f.f->aggs[ci.argTy[i].w - 1].leaves[0].first, a = (T->stackTop + 63) & ~63ull;
    T->stackTop = a + sz + 32; memset(g_mem.sh(a), SH_UNINIT, sz); g_mem.copy(a, addrOf(ap[i]), sz); ap[i] = VI(a);
  } else if (ci.argTy[i].k == TK_WIDE && ci.argTy[i].w) { // byval among aggregates: find its flat position
    unsupported("byval with aggregate arguments"); }
  (void)fi;
  pushFrame(T, callee, ap, n, x.dst, x.dst >= 0 ? x.n : 0);
  T->st.back().stackTop = savedTop;
}

static void step(Frame& f, const Inst& x) {
  switch (x.op) {
    case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
      for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = ibin(x.op, get(f, el(x.a, i)), get(f, el(x.b, i)), x.ty.w);
      break;
    case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM:
      for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = fbin(x.op, get(f, el(x.a, i)), get(f, el(x.b, i)), x.ty.k);
      break;
    case I_FNEG: for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = fneg(get(f, el(x.a, i)), x.ty.k); break;
    case I_ICMP: for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = icmp(x.sub, get(f, el(x.a, i)), get(f, el(x.b, i)), x.ty2.w); break;
    case I_FCMP: for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = VE(fcmpE(x.sub, get(f, el(x.a, i)), get(f, el(x.b, i)), x.ty2.k)); break;
    case I_SELECT:
      if (x.n == 1) f.regs[x.dst] = select(get(f, x.a), get(f, x.b), get(f, x.c), x.ty);
      else { Value c0 = get(f, x.a); if (!x.imm && c0.e) c0 = VI(decide(toBool(c0))); for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = select(x.imm ? get(f, el(x.a, i)) : c0, get(f, el(x.b, i)), get(f, el(x.c, i)), x.ty); }
      break;
    case I_LOAD: {
      uint64_t a = addrOf(get(f, x.a));
      raceAccess(a, x.imm, false, x.atomic); if (x.atomic) acquireVC(a);
      if (x.ext < 0) f.regs[x.dst] = loadV(a, x.ty, x.imm);
      else { auto& g = f.f->aggs[x.ext].leaves; for (size_t i = 0; i < g.size(); ++i) f.regs[x.dst + i] = loadV(a + g[i].first, g[i].second, (g[i].second.w + 7) / 8); }
      break; }
    case I_STORE: {
      uint64_t a = addrOf(get(f, x.b));
      raceAccess(a, x.imm, true, x.atomic); if (x.atomic) releaseVC(a);
      if (x.ext < 0) storeV(a, get(f, x.a), x.ty2, x.imm);
      else { auto& g = f.f->aggs[x.ext].leaves; for (size_t i = 0; i < g.size(); ++i) storeV(a + g[i].first, get(f, el(x.a, i)), g[i].second, (g[i].second.w + 7) / 8); }
      break; }
    case I_GEP: {
      auto& g = f.f->geps[x.ext]; Value p = get(f, x.a);
      if (!p.e) {
        uint64_t a = p.u + g.off; Expr* e = nullptr;
        for (auto& t : g.idx) {
          Value v = get(f, std::get<0>(t)); unsigned w = std::get<2>(t);
          if (!v.e) a += (uint64_t)sx(v.u, w) * std::get<1>(t);
          else { Expr* ie = mkBin(O_MUL, mkExt(O_SEXT, toBV(v, w), 64), mkBV(std::get<1>(t), 64)); e = e ? mkBin(O_ADD, e, ie) : ie; }
        }
        f.regs[x.dst] = e ? VE(mkBin(O_ADD, e, mkBV(a, 64))) : VI(a);
      } else {
        Expr* e = mkBin(O_ADD, toBV(p, 64), mkBV(g.off, 64));
        for (auto& t : g.idx) { Value v = get(f, std::get<0>(t)); unsigned w = std::get<2>(t); e = mkBin(O_ADD, e, mkBin(O_MUL, mkExt(O_SEXT, toBV(v, w), 64), mkBV(std::get<1>(t), 64))); }
        f.regs[x.dst] = VE(e);
      }
      break; }
    case I_ALLOCA: {
      uint64_t n = concretize(get(f, x.a), 64, "alloca") * x.imm, al = std::max<uint64_t>(16, x.sub);
      uint64_t a = (T->stackTop + 32 + al - 1) / al * al;
      if (a + n + 64 > T->stackLimit) programError("stack-overflow");
      memset(g_mem.sh(a), SH_UNINIT, n); T->stackTop = a + n; f.regs[x.dst] = VI(a); break; }
    case I_CALL: doCall(f, x); break;
    case I_RET: doRet(f, x); break;
    case I_BR: jump(f, x.b, x.ext); break;
    case I_CONDBR: {
      Value c = get(f, x.a); bool t = c.e ? decide(toBool(c)) : (c.u & 1);
      auto& s = f.f->switches[x.ext]; if (t) jump(f, s.cases[0].second.first, s.cases[0].second.second); else jump(f, s.def.first, s.def.second); break; }
    case I_SWITCH: {
      auto& s = f.f->switches[x.ext]; Value c = get(f, x.a); bool done = false;
      for (auto& k : s.cases) { bool hit = c.e ? decide(x.ty2.w == 1 ? mkBeq(toBool(c), mkBool(k.first & 1)) : mkCmp(O_BVEQ, toBV(c, x.ty2.w), mkBV(k.first, x.ty2.w))) : c.u == k.first; if (hit) { jump(f, k.second.first, k.second.second); done = true; break; } }
      if (!done) jump(f, s.def.first, s.def.second);
      break; }
    case I_TRUNC: case I_ZEXT: case I_SEXT: case I_FPTOSI: case I_FPTOUI: case I_SITOFP: case I_UITOFP: case I_FPEXT: case I_FPTRUNC: case I_BITCAST:
      for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = castV(x, get(f, el(x.a, i)));
      break;
    case I_MOVE:
      if (x.imm == 1 && x.ext >= 0) { auto& cs = f.f->copies[x.ext]; std::vector<Value> t; for (auto& c : cs) t.push_back(get(f, c.src)); for (size_t i = 0; i < cs.size(); ++i) f.regs[cs[i].dst] = t[i]; }
      else for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = get(f, el(x.a, i));
      break;
    case I_INSELT: for (int i = 0; i < x.n; ++i) f.regs[x.dst + i] = (i >= x.imm && i < x.imm + x.c) ? get(f, el(x.b, i - x.imm)) : get(f, el(x.a, i)); break;
    case I_EXTELT: { uint64_t k = concretize(get(f, x.b), 64, "element"); if (k >= (uint64_t)x.imm) unsupported("extractelement range"); f.regs[x.dst] = get(f, el(x.a, k)); break; }
    case I_UNREACHABLE: programError("unreachable-executed");
    case I_RMW: {
      uint64_t a = addrOf(get(f, x.a)); unsigned n = (x.ty.w + 7) / 8; raceAccess(a, n, true, true); acquireVC(a);
      Value o = loadV(a, x.ty, n), v = get(f, x.b), r; unsigned w = x.ty.w;
      switch (x.sub) { case 0: r = v; break; case 1: r = ibin(I_ADD, o, v, w); break; case 2: r = ibin(I_SUB, o, v, w); break; case 3: r = ibin(I_AND, o, v, w); break; case 5: r = ibin(I_OR, o, v, w); break; case 6: r = ibin(I_XOR, o, v, w); break;
        case 7: r = select(icmp(38, o, v, w), o, v, x.ty); break; case 8: r = select(icmp(40, o, v, w), o, v, x.ty); break; case 11: r = fbin(I_FADD, o, v, x.ty.k); break; case 12: r = fbin(I_FSUB, o, v, x.ty.k); break; default: unsupported("atomicrmw"); }
      storeV(a, r, x.ty, n); releaseVC(a); f.regs[x.dst] = o; break; }
    case I_CMPXCHG: {
      uint64_t a = addrOf(get(f, x.a)); unsigned n = (x.ty.w + 7) / 8; raceAccess(a, n, true, true); acquireVC(a);
      Value o = loadV(a, x.ty, n); bool eq = decide(toBool(icmp(32, o, get(f, x.b), x.ty.w)));
      if (eq) { storeV(a, get(f, x.c), x.ty, n); releaseVC(a); }
      f.regs[x.dst] = o; f.regs[x.dst + 1] = VI(eq); break; }
    case I_FENCE: break;
    case I_UNSUP: unsupported("instruction " + instText(x));
  }
}
static void runAll() {
  uint64_t n = 0;
  for (;;) {
    Frame& f = T->st.back();
    const Inst& x = f.f->code[f.pc++];
    ++g_icount;
    if ((++n & 0xfffff) == 0) { if (overBudget()) leave(); if (n > g_maxInst) { incomplete("instruction budget"); leave(); } }
    try {
      if (__builtin_expect(x.atomic, 0) && multi()) { Thread* me = T; f.pc--; schedule(); if (T != me) { T->st.back(); continue; } T->st.back().pc++; step(T->st.back(), x); }
      else step(f, x);
    } catch (MemFault& m) { programError(std::string(m.kind)); }
    catch (std::exception& e) { unsupported(std::string("engine exception ") + e.what()); }
  }
}
static void summary() {
  printf("{\"harness\":%s,\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"witness\":%llu,\"no_witness\":%llu,\"assume_end\":%llu,\"aborted\":%llu,\"sched_points\":%llu,\"maxrss_mb\":%llu,\"violations\":%d,\"incomplete\":%d,\"why\":%s,\"unsupported\":%d,\"unsup\":%s,\n",
    jstr(g_harness).c_str(), (unsigned long long)SHM->paths, (unsigned long long)SHM->forks, (unsigned long long)SHM->insts, (unsigned long long)SHM->queries, (unsigned long long)SHM->sat, (unsigned long long)SHM->unsat, (unsigned long long)SHM->unknown, (unsigned long long)SHM->cache, SHM->usecs / 1e6, now() - g_t0, (unsigned long long)SHM->witness, (unsigned long long)SHM->noWitness, (unsigned long long)SHM->assumeEnd, (unsigned long long)SHM->aborted, (unsigned long long)SHM->schedPoints, (unsigned long long)SHM->maxrss / 1024, (int)SHM->nviol, (int)SHM->incomplete, jstr(SHM->why).c_str(), (int)SHM->unsupported, jstr(SHM->unsup).c_str());
  printf("\"obligations\":[");
  for (int i = 0; i < SHM->nent; ++i) { Ent& e = SHM->ents[i]; printf("%s\n {\"id\":%s,\"reached\":%llu,\"trivial\":%llu,\"nf\":%llu,\"smt\":%llu,\"violated\":%llu,\"unknown\":%llu}", i ? "," : "", jstr(e.id).c_str(), (unsigned long long)e.reached, (unsigned long long)e.trivial, (unsigned long long)e.provedNf, (unsigned long long)e.provedSmt, (unsigned long long)e.violated, (unsigned long long)e.unknown); }
  printf("],\n\"functions\":["); bool first = true;
  for (size_t i = 0; i < g_funcs.size() && i < 200000; ++i) if (SHM->executed[i]) { std::string d = demangled(g_funcs[i]->name); if (d.find("ceres") == std::string::npos || d.find("std::") == 0 || d.find("Eigen::") == 0) continue; size_t p = d.find('('); if (p != std::string::npos && p > 8) d = d.substr(0, p); if (d.size() > 140) d = d.substr(0, 140); printf("%s%s", first ? "" : ",", jstr(d).c_str()); first = false; }
  printf("]}\n"); fflush(stdout);
}
int main(int argc, char** argv) {
  std::string bc; int jobs = 8; double secs = 120;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") g_harness = nx(); else if (a == "--ieee") g_realMode = false; else if (a == "--jobs") jobs = std::stoi(nx()); else if (a == "--time") secs = std::stod(nx());
    else if (a == "--viol") g_violFile = nx(); else if (a == "--wit") { g_witFile = nx(); unlink(g_witFile.c_str()); } else if (a == "--max-paths") g_maxPaths = std::stoull(nx()); else if (a == "--max-inst") g_maxInst = std::stoull(nx());
    else if (a == "--replay") { g_replay = true; g_realMode = false; FILE* f = fopen(nx().c_str(), "r"); char k[8]; char v[64]; while (f && fscanf(f, "%7s %63s", k, v) == 2) { if (k[0] == 's') g_rsched.push_back(atoi(v)); else if (v[0] == 'x') g_rin.push_back(strtoull(v + 1, nullptr, 16)); else g_rin.push_back((uint64_t)strtoll(v, nullptr, 10)); } if (f) fclose(f); }
    else if (a == "--exact") g_replayExact = true;
    else if (a == "--assert-secs") g_secAssert = std::stod(nx()); else if (a == "--branch-secs") g_secBranch = std::stod(nx());
    else bc = a;
  }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  { rlimit rl{512ull << 20, 512ull << 20}; rlimit cur; getrlimit(RLIMIT_STACK, &cur); if (cur.rlim_cur < (256ull << 20) && cur.rlim_max >= (256ull << 20) && !getenv("VP_STACK")) { cur.rlim_cur = std::min<rlim_t>(512ull << 20, cur.rlim_max); if (setrlimit(RLIMIT_STACK, &cur) == 0) { setenv("VP_STACK", "1", 1); execv("/proc/self/exe", argv); } } (void)rl; }
  SHM = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&SHM->tokens, 1, std::max(0, jobs - 1));
  g_t0 = now(); g_deadline = g_t0 + secs; g_solver_deadline = g_deadline + 1;
  if (g_violFile.empty()) g_violFile = "/dev/stderr"; else { FILE* f = fopen(g_violFile.c_str(), "w"); if (f) fclose(f); }
  g_mem.init();
  loadModule(bc.c_str());
  Func* entry = findFunc(g_harness);
  if (!entry || entry->decl) { fprintf(stderr, "ssx: no function %s\n", g_harness.c_str()); return 3; }
  newThread(); T = g_threads[0];
  pushFrame(T, entry, nullptr, 0, -1, 0);
  std::vector<Func*> cs = ctorList();
  for (auto it = cs.rbegin(); it != cs.rend(); ++it) pushFrame(T, *it, nullptr, 0, -1, 0);
  runAll();
}
