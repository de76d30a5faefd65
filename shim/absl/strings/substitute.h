#pragma once
#include <string>
#include "absl/strings/string_view.h"
namespace absl { template <class... A> inline std::string Substitute(const char*, const A&...) { return std::string(); } }
