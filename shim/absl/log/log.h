#pragma once
#include "absl/log/vp_log_impl.h"
#include "absl/log/vlog_is_on.h"
#define LOG(sev) VP_LOG_##sev
#define LOG_IF(sev, c) !(c) ? (void)0 : ::vp_log::Voidify() && VP_LOG_##sev
#define LOG_FIRST_N(sev, n) VP_LOG_##sev
#define LOG_EVERY_N(sev, n) VP_LOG_##sev
#define VLOG(n) !VLOG_IS_ON(n) ? (void)0 : ::vp_log::Voidify() && ::vp_log::Null()
#define DVLOG(n) VLOG(n)
#ifdef NDEBUG
#define DLOG(sev) VP_DEAD(false)
#define DLOG_IF(sev, c) VP_DEAD(c)
#else
#define DLOG(sev) LOG(sev)
#define DLOG_IF(sev, c) LOG_IF(sev, c)
#endif
