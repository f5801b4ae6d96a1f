// Native replay: the real code, compiled for the machine, run on one recorded
// counterexample.  exit 0 nothing wrong, 3 the inputs do not meet an assumption,
// 42 a check failed.
#include <dlfcn.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <string>
#include <vector>
#include "vp.h"
static std::vector<uint64_t> in; static size_t pos; static bool exact, expectAbort;
static uint64_t next() { return pos < in.size() ? in[pos++] : 0; }
static double nextD() { uint64_t u = next(); double d; memcpy(&d, &u, 8); return d; }
[[noreturn]] static void bad(const char* id, const char* what) { printf("REPLAY-FAIL %s %s\n", id, what); fflush(stdout); _exit(42); }
extern "C" {
double vp_real(const char*) { return nextD(); }
double vp_real_in(const char*, double lo, double hi) { double d = nextD(); return std::min(hi, std::max(lo, d)); }
double vp_double(const char*) { return nextD(); }
int vp_int(const char*, int, int) { return (int)next(); }
int64_t vp_i64(const char*, int64_t, int64_t) { return (int64_t)next(); }
int vp_choose(const char*, int) { return (int)next(); }
int vp_bool(const char*) { return (int)next(); }
void vp_assume(int c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(3); } }
void vp_check(int ok, const char* id) { if (!ok) bad(id, "assertion is false"); }
static double tol(double a, double b) { return exact ? 0 : 1e-6 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
void vp_check_eq(double a, double b, const char* id) { if (a == b || (std::isnan(a) && std::isnan(b))) return; if (std::fabs(a - b) <= tol(a, b)) return; char m[100]; snprintf(m, sizeof m, "%.17g != %.17g", a, b); bad(id, m); }
void vp_check_le(double a, double b, const char* id) { if (a <= b + tol(a, b)) return; char m[100]; snprintf(m, sizeof m, "%.17g > %.17g", a, b); bad(id, m); }
void vp_reach(const char*) {}
int vp_concretize(int v) { return v; }
void vp_opt(const char*, int) {}
void vp_square_rule(double, double) {}
void vp_expect_abort(int on) { expectAbort = on; }
void vp_note(const char* n, double v) { if (getenv("VP_DEBUG")) printf("NOTE %s %.17g\n", n, v); }
int vp_is_symbolic(double) { return 0; }
long vp_live_blocks(void) { return 0; }
void vp_end(void) { _exit(0); }
int vp_decide(int c) { return c; }
int vp_writable(const void*, size_t) { return 1; }
int vp_is_init(const void*, size_t) { return 1; }
void vp_make_uninit(void* p, size_t n) { memset(p, 0xa5, n); }
void vp_make_inaccessible(void*, size_t) {}
void vp_check_failed(const char* f, int l, const char* w) { if (expectAbort) _exit(0); printf("REPLAY-FAIL check-failed %s:%d %s\n", f, l, w); fflush(stdout); _exit(42); }
void __assert_fail(const char* e, const char* f, unsigned l, const char*) { if (expectAbort) _exit(0); printf("REPLAY-FAIL assert-failed %s:%u %s\n", f, l, e); fflush(stdout); _exit(42); }
void vp_yield(void) {}
int vp_num_threads(void) { return 1; }
int vp_thread_self(void) { return 0; }
__attribute__((weak)) double vp_clock_now(void) { return 0; }
}
int main(int argc, char** argv) {
  if (argc > 3 && !strcmp(argv[3], "exact")) exact = true;
  FILE* f = fopen(argv[2], "r"); char k[8], v[64];
  while (f && fscanf(f, "%7s %63s", k, v) == 2) { if (k[0] == 's') continue; in.push_back(v[0] == 'x' ? strtoull(v + 1, nullptr, 16) : (uint64_t)strtoll(v, nullptr, 10)); }
  if (f) fclose(f);
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { fprintf(stderr, "no entry\n"); return 5; }
  e();
  fflush(stdout); _exit(0);
}
