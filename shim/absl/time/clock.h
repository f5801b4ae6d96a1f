#pragma once
#include "absl/time/time.h"
namespace absl { inline Time Now() { return Time(vp_clock_now()); } inline void SleepFor(Duration) {} }
