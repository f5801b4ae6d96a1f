// Stand-in for absl/log.  A failed CHECK and LOG(FATAL) end the program, as in
// Abseil; other messages are dropped (formatting is outside every claim).
#pragma once
#include <cstdlib>
#include <ctime>
#include <iosfwd>
extern "C" [[noreturn]] void vp_check_failed(const char* file, int line, const char* what);
namespace vp_log {
struct Null { template <class T> const Null& operator<<(const T&) const { return *this; }
  const Null& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; } };
struct Fatal { const char* f; int l; const char* w; Fatal(const char* f_, int l_, const char* w_) : f(f_), l(l_), w(w_) {}
  [[noreturn]] ~Fatal() { vp_check_failed(f, l, w); }
  template <class T> const Fatal& operator<<(const T&) const { return *this; }
  const Fatal& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; } };
struct Voidify { void operator&&(const Null&) const {} void operator&&(const Fatal&) const {} };
template <class T> T NotNull(const char* f, int l, const char* w, T&& t) { if (t == nullptr) vp_check_failed(f, l, w); return static_cast<T&&>(t); }
}
#define VP_LOG_INFO ::vp_log::Null()
#define VP_LOG_WARNING ::vp_log::Null()
#define VP_LOG_ERROR ::vp_log::Null()
#define VP_LOG_DFATAL ::vp_log::Null()
#define VP_LOG_FATAL ::vp_log::Fatal(__FILE__, __LINE__, "LOG(FATAL)")
#define VP_CHECK_IMPL(c, s) (__builtin_expect(!!(c), 1)) ? (void)0 : ::vp_log::Voidify() && ::vp_log::Fatal(__FILE__, __LINE__, s)
#define VP_DEAD(c) (true || (c)) ? (void)0 : ::vp_log::Voidify() && ::vp_log::Null()
#ifdef NDEBUG
#define VP_DCHECK_IMPL(c, s) VP_DEAD(c)
#else
#define VP_DCHECK_IMPL(c, s) VP_CHECK_IMPL(c, s)
#endif
