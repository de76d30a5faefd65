#pragma once
#include <string>
#include "absl/strings/string_view.h"
namespace absl { template <class... A> inline std::string StrJoin(const A&...) { return std::string(); }
inline int AlphaNumFormatter() { return 0; } template <class F> inline int PairFormatter(F&&) { return 0; } inline int StreamFormatter() { return 0; } template <class...A> inline int PairFormatter(A&&...) { return 0; } }
