// SRC: ink/types/duration.cc
// BOUND: every 32-bit pattern for each float operand (no bound)
// ASSUME: absl::Duration modelled as a double number of seconds
#include <cmath>
#include <limits>
#include "ink/types/duration.h"
#include "vp.h"
using ink::Duration32;
static const float kInf = std::numeric_limits<float>::infinity();
// Any representable duration value: built from a float through the factory.
static Duration32 AnyD(const char* n) { return Duration32::Seconds(__vp_f32(n)); }
static void NotNan(Duration32 d) {
  __vp_assert(!std::isnan(d.ToSeconds()), "seconds never NaN");
  __vp_assert(!std::isnan(d.ToMillis()), "millis never NaN");
}
VP_ENTRY(t01_factories) {
  float x = __vp_f32("x");
  Duration32 s = Duration32::Seconds(x), m = Duration32::Millis(x);
  NotNan(s); NotNan(m);
  if (std::isnan(x)) {
    __vp_reach("nan");
    __vp_assert(s.ToSeconds() == kInf && m.ToSeconds() == kInf, "NaN makes +inf");
  } else {
    __vp_reach("num");
    __vp_assert(s.ToSeconds() == x, "seconds read back");
    __vp_assert(m.ToSeconds() == 0.001f * x, "millis converted by 0.001");
    __vp_assert(s.ToMillis() == 1000.0f * x, "ToMillis is 1000 * seconds");
  }
  __vp_assert(s.IsFinite() == (std::isfinite(x)), "IsFinite");
  __vp_assert(Duration32::Zero().ToSeconds() == 0 && Duration32().ToSeconds() == 0, "zero");
  __vp_assert(Duration32::Infinite().ToSeconds() == kInf, "infinite");
  Duration32 neg = -s;
  __vp_assert(neg.ToSeconds() == -s.ToSeconds(), "negation");
}
VP_ENTRY(t01_abseil) {
  float x = __vp_f32("x");
  __vp_assume(!std::isnan(x));
  Duration32 d = Duration32::Seconds(x);
  Duration32 e(d.ToAbseil());
  __vp_assert(e.ToSeconds() == x, "round trip through absl::Duration");
  __vp_reach("end");
}
VP_ENTRY(t01_compare) {
  Duration32 a = AnyD("a"), b = AnyD("b");
  float x = a.ToSeconds(), y = b.ToSeconds();
  __vp_assert((a == b) == (x == y), "==");
  __vp_assert((a != b) == (x != y), "!=");
  __vp_assert((a < b) == (x < y), "<");
  __vp_assert((a > b) == (x > y), ">");
  __vp_assert((a <= b) == (x <= y), "<=");
  __vp_assert((a >= b) == (x >= y), ">=");
  __vp_reach("end");
}
VP_ENTRY(t01_addsub) {
  Duration32 a = AnyD("a"), b = AnyD("b");
  float x = a.ToSeconds(), y = b.ToSeconds();
  Duration32 s = a + b, d = a - b;
  NotNan(s); NotNan(d);
  if (std::isinf(x)) {
    __vp_reach("inf");
    __vp_assert(s.ToSeconds() == x, "inf + d == inf");
    __vp_assert(d.ToSeconds() == x, "inf - d == inf");
  } else {
    __vp_reach("fin");
    __vp_assert(s.ToSeconds() == x + y, "sum");
    __vp_assert(d.ToSeconds() == x - y, "difference");
  }
  Duration32 c = a; c += b; __vp_assert(c == s, "+=");
  Duration32 e = a; e -= b; __vp_assert(e == d, "-=");
}
VP_ENTRY(t01_scale) {
  Duration32 a = AnyD("a"); float x = a.ToSeconds(), k = __vp_f32("k");
  Duration32 p = a * k, q = k * a;
  NotNan(p);
  float w = x * k;
  if (std::isnan(k)) {
    __vp_reach("nan");
    __vp_assert(p.ToSeconds() == (x >= 0 ? kInf : -kInf), "d * NaN");
  } else if (std::isnan(w)) {
    __vp_reach("zero_times_inf");
    __vp_assert(!p.IsFinite(), "0 * inf saturates");
  } else {
    __vp_reach("num");
    __vp_assert(p.ToSeconds() == w, "product");
  }
  __vp_assert(p == q, "scaling commutes");
  Duration32 c = a; c *= k; __vp_assert(c == p, "*=");
}
VP_ENTRY(t01_div) {
  Duration32 a = AnyD("a"); float x = a.ToSeconds(), k = __vp_f32("k");
  Duration32 p = a / k;
  NotNan(p);
  if (std::isnan(k)) {
    __vp_reach("nan");
    __vp_assert(p.ToSeconds() == (x >= 0 ? kInf : -kInf), "d / NaN");
  } else if (std::isinf(x) ) {
    __vp_reach("inf");
    __vp_assert(!p.IsFinite(), "inf / k is infinite");
    if (k != 0) __vp_assert((p.ToSeconds() > 0) == ((x > 0) == (k > 0)), "sign of inf / k");
  } else if (x == 0 && k == 0) {
    __vp_reach("zero");
    __vp_assert(!p.IsFinite(), "0 / 0 saturates");
  } else {
    __vp_reach("num");
    __vp_assert(p.ToSeconds() == x / k, "quotient");
  }
  Duration32 c = a; c /= k; __vp_assert(c == p, "/=");
}
VP_ENTRY(t01_ratio) {
  Duration32 a = AnyD("a"), b = AnyD("b"); float x = a.ToSeconds(), y = b.ToSeconds();
  float r = a / b;
  __vp_assert(!std::isnan(r), "ratio never NaN");
  if (y == 0) { __vp_reach("zero"); __vp_assert(std::isinf(r) && (r > 0) == (x >= 0), "division by zero duration"); }
  else if (std::isinf(x)) { __vp_reach("inf"); __vp_assert(std::isinf(r) && (r > 0) == ((x >= 0) == (y >= 0)), "inf / y"); }
  else { __vp_reach("num"); __vp_assert(r == x / y, "ratio"); }
}
