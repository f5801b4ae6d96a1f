#pragma once
#include "absl/log/vp_log_impl.h"
#define CHECK(c) VP_CHECK_IMPL(c, "CHECK(" #c ")")
#define QCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) VP_CHECK_IMPL((a) == (b), "CHECK_EQ(" #a "," #b ")")
#define CHECK_NE(a, b) VP_CHECK_IMPL((a) != (b), "CHECK_NE(" #a "," #b ")")
#define CHECK_LE(a, b) VP_CHECK_IMPL((a) <= (b), "CHECK_LE(" #a "," #b ")")
#define CHECK_LT(a, b) VP_CHECK_IMPL((a) < (b), "CHECK_LT(" #a "," #b ")")
#define CHECK_GE(a, b) VP_CHECK_IMPL((a) >= (b), "CHECK_GE(" #a "," #b ")")
#define CHECK_GT(a, b) VP_CHECK_IMPL((a) > (b), "CHECK_GT(" #a "," #b ")")
#define DCHECK(c) VP_DCHECK_IMPL(c, "DCHECK(" #c ")")
#define DCHECK_EQ(a, b) VP_DCHECK_IMPL((a) == (b), "DCHECK_EQ(" #a "," #b ")")
#define DCHECK_NE(a, b) VP_DCHECK_IMPL((a) != (b), "DCHECK_NE(" #a "," #b ")")
#define DCHECK_LE(a, b) VP_DCHECK_IMPL((a) <= (b), "DCHECK_LE(" #a "," #b ")")
#define DCHECK_LT(a, b) VP_DCHECK_IMPL((a) < (b), "DCHECK_LT(" #a "," #b ")")
#define DCHECK_GE(a, b) VP_DCHECK_IMPL((a) >= (b), "DCHECK_GE(" #a "," #b ")")
#define DCHECK_GT(a, b) VP_DCHECK_IMPL((a) > (b), "DCHECK_GT(" #a "," #b ")")
#define CHECK_NOTNULL(p) ::vp_log::NotNull(__FILE__, __LINE__, #p, (p))
#define DCHECK_NOTNULL(p) (p)
#define CHECK_STREQ(a, b) VP_CHECK_IMPL(__builtin_strcmp((a), (b)) == 0, #a)
