#pragma once
#include <cstdint>
#include <limits>
#include <type_traits>
#include "absl/strings/string_view.h"
namespace absl {
// As documented: surrounding whitespace and one sign are allowed; out of range
// or malformed text fails.
template <class I> inline bool SimpleAtoi(string_view s, I* out) {
  auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (!s.empty() && sp(s.front())) s.remove_prefix(1);
  while (!s.empty() && sp(s.back())) s.remove_suffix(1);
  *out = 0;
  bool neg = false;
  if (!s.empty() && (s.front() == '-' || s.front() == '+')) { neg = s.front() == '-'; s.remove_prefix(1); }
  if (s.empty() || (neg && std::is_unsigned_v<I>)) return false;
  if (s.size() > 18) return false;  // no leading zeros in what is parsed here
  const uint64_t hi = static_cast<uint64_t>(std::numeric_limits<I>::max()) + neg;
  uint64_t v = 0;
  for (char c : s) {
    if (c < '0' || c > '9') return false;
    v = v * 10 + static_cast<uint64_t>(c - '0');
  }
  if (v > hi) { *out = neg ? std::numeric_limits<I>::min() : std::numeric_limits<I>::max(); return false; }
  if (neg) v = 0 - v;
  *out = static_cast<I>(v);
  return true;
}
}
