// Keeps std::hypot(x, y, z) out of line, so that the engine can answer it as the
// square root of a sum of squares (libstdc++ scales by the largest argument).
#pragma once
#ifdef __cplusplus
#define __hypot3(...) __attribute__((noinline)) __hypot3(__VA_ARGS__)
#include <cmath>
#undef __hypot3
#endif
