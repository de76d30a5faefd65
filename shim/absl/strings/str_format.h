#pragma once
#include <string>
#include "absl/strings/string_view.h"
namespace absl { template <class... A> inline std::string StrFormat(const char*, const A&...) { return std::string(); } template <class S, class... A> inline void Format(S*, const char*, const A&...) {} template <class... A> inline void StrAppendFormat(std::string*, const char*, const A&...) {} struct StreamedT {}; }
