#pragma once
#include <cstdint>
typedef uint32_t SkColor; constexpr SkColor SK_ColorWHITE = 0xFFFFFFFF;
struct SkColor4f { float fR, fG, fB, fA; };
