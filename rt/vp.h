// What a harness may say.  Under the engine these are built-ins over symbolic
// values; in a native replay (rt/native.cc) they read a recorded counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double vp_real(const char* name);                            // any finite value
double vp_real_in(const char* name, double lo, double hi);
double vp_double(const char* name);                          // any double, NaN and infinities included
int vp_int(const char* name, int lo, int hi);
int64_t vp_i64(const char* name, int64_t lo, int64_t hi);
int vp_choose(const char* name, int n);                      // forks into n explicit cases
int vp_bool(const char* name);
void vp_assume(int c);
void vp_check(int ok, const char* id);
void vp_check_eq(double a, double b, const char* id);
void vp_check_le(double a, double b, const char* id);
void vp_reach(const char* id);
int vp_concretize(int v);
void vp_opt(const char* name, int v);
void vp_square_rule(double var, double value);               // assume var*var == value, and rewrite with it
void vp_expect_abort(int on);                                // a failed CHECK is the right outcome from here on
void vp_note(const char* name, double v);
int vp_is_symbolic(double v);
long vp_live_blocks(void);
void vp_end(void);                                           // ends the path quietly
int vp_decide(int c);                                        // fork now on c
int vp_writable(const void* p, size_t n);
int vp_is_init(const void* p, size_t n);
void vp_make_uninit(void* p, size_t n);
void vp_make_inaccessible(void* p, size_t n);
[[noreturn]] void vp_check_failed(const char* file, int line, const char* what);
long vp_thread_create(void* (*fn)(void*), void* arg);
void vp_thread_join(long id);
int vp_thread_self(void);
void vp_yield(void);
int vp_num_threads(void);
int vp_cond_wait(void* cv, void* mutex);
int vp_cond_signal(void* cv);
int vp_cond_broadcast(void* cv);
double vp_clock_now(void);
}
