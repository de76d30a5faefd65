#pragma once
#include "absl/strings/string_view.h"
namespace absl {
inline bool StartsWith(string_view a, string_view b) { return a.substr(0, b.size()) == b && a.size() >= b.size(); }
inline bool EndsWith(string_view a, string_view b) { return a.size() >= b.size() && a.substr(a.size() - b.size()) == b; }
inline bool StrContains(string_view a, string_view b) { return a.find(b) != string_view::npos; }
inline bool StrContains(string_view a, char b) { return a.find(b) != string_view::npos; }
inline bool EqualsIgnoreCase(string_view a, string_view b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { auto l = [](unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }; if (l(a[i]) != l(b[i])) return false; } return true; }
inline bool StartsWithIgnoreCase(string_view a, string_view b) { return a.size() >= b.size() && EqualsIgnoreCase(a.substr(0, b.size()), b); }
inline bool EndsWithIgnoreCase(string_view a, string_view b) { return a.size() >= b.size() && EqualsIgnoreCase(a.substr(a.size() - b.size()), b); }
}
