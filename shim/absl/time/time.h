#pragma once
// Reduced stand-in for absl::Duration: a double number of seconds.
#include <limits>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
class Duration { public: constexpr Duration() = default; constexpr explicit Duration(double s) : s_(s) {} double s_ = 0;
  friend bool operator==(Duration a, Duration b) { return a.s_ == b.s_; } friend bool operator<(Duration a, Duration b) { return a.s_ < b.s_; } friend Duration operator-(Duration a) { return Duration(-a.s_); } };
inline Duration InfiniteDuration() { return Duration(std::numeric_limits<double>::infinity()); }
inline Duration ZeroDuration() { return Duration(); }
template <class T> inline Duration Seconds(T s) { return Duration(static_cast<double>(s)); }
template <class T> inline Duration Milliseconds(T s) { return Duration(static_cast<double>(s) / 1000); }
inline double ToDoubleSeconds(Duration d) { return d.s_; }
inline double ToDoubleMilliseconds(Duration d) { return d.s_ * 1000; }
inline std::string FormatDuration(Duration) { return {}; }
}
