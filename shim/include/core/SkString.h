// Stand-in for Skia's strings.
#pragma once
#include <string>
#include <string_view>
class SkString { public: SkString() = default; explicit SkString(std::string_view v) : s(v) {} const char* data() const { return s.data(); } const char* c_str() const { return s.c_str(); } size_t size() const { return s.size(); } std::string s; };
