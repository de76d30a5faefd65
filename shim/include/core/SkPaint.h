// Stand-in for Skia's paint: remembers what was set.
#pragma once
#include "include/core/SkColor.h"
#include "include/core/SkColorSpace.h"
#include "include/core/SkShader.h"
class SkPaint {
 public:
  enum Style { kFill_Style, kStroke_Style, kStrokeAndFill_Style };
  void setAntiAlias(bool b) { aa = b; } void setStyle(Style s) { style = s; } void setColor(SkColor) { white = true; } void setColor(const SkColor4f& c, SkColorSpace* s) { color = c; space = s ? s->kind : 2; white = false; } void setShader(sk_sp<SkShader> s) { shader = s; }
  bool aa = false, white = false; Style style = kFill_Style; SkColor4f color{0, 0, 0, 1}; int space = 0; sk_sp<SkShader> shader;
};
