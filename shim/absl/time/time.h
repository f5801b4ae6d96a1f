// The clock is the environment: every reading is supplied by vp_clock_now().
#pragma once
extern "C" double vp_clock_now();
namespace absl {
class Duration { public: double s = 0; constexpr Duration() = default; constexpr explicit Duration(double v) : s(v) {}
  Duration& operator+=(Duration o) { s += o.s; return *this; } Duration& operator-=(Duration o) { s -= o.s; return *this; } };
class Time { public: double s = 0; constexpr Time() = default; constexpr explicit Time(double v) : s(v) {}
  Time& operator+=(Duration o) { s += o.s; return *this; } };
constexpr Duration ZeroDuration() { return Duration(); }
inline Duration operator-(Time a, Time b) { return Duration(a.s - b.s); }
inline Duration operator+(Duration a, Duration b) { return Duration(a.s + b.s); }
inline Duration operator-(Duration a, Duration b) { return Duration(a.s - b.s); }
inline Time operator+(Time a, Duration b) { return Time(a.s + b.s); }
inline bool operator<(Duration a, Duration b) { return a.s < b.s; }
inline bool operator>(Duration a, Duration b) { return a.s > b.s; }
inline bool operator<=(Duration a, Duration b) { return a.s <= b.s; }
inline bool operator>=(Duration a, Duration b) { return a.s >= b.s; }
inline double ToDoubleSeconds(Duration d) { return d.s; }
inline double FDivDuration(Duration a, Duration b) { return a.s / b.s; }
inline Duration Seconds(double v) { return Duration(v); }
inline Duration Milliseconds(double v) { return Duration(v * 1e-3); }
}
