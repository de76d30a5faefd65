// SRC: ink/types/physical_distance.cc
// BOUND: every 32-bit pattern for each float operand (no bound)
#include <cmath>
#include <cstdint>
#include <limits>
#include "ink/types/physical_distance.h"
#include "vp.h"
using ink::PhysicalDistance;
static PhysicalDistance AnyD(const char* n) { return PhysicalDistance::Centimeters(__vp_f32(n)); }
// Equal, or off by rounding only: conversions are stated up to rounding.
static bool Near(float a, float b) { return vp::same(a, b) || std::fabs(a - b) <= 1e-6f * std::fabs(b) + 1e-44f; }
VP_ENTRY(t02_units) {
  float x = __vp_f32("x");
  PhysicalDistance c = PhysicalDistance::Centimeters(x), i = PhysicalDistance::Inches(x), m = PhysicalDistance::Meters(x);
  __vp_assert(vp::same(c.ToCentimeters(), x), "centimetres read back exactly");
  __vp_assert(Near(i.ToCentimeters(), x * 2.54f), "an inch is 2.54 cm");
  __vp_assert(Near(m.ToCentimeters(), x * 100.0f), "a metre is 100 cm");
  __vp_assert(Near(c.ToInches(), x / 2.54f), "centimetres to inches");
  __vp_assert(Near(c.ToMeters(), x / 100.0f), "centimetres to metres");
  __vp_assert(c.IsFinite() == std::isfinite(x), "IsFinite");
  __vp_assert(vp::same((-c).ToCentimeters(), -x), "negation");
  __vp_assert(PhysicalDistance::Zero().ToCentimeters() == 0 && PhysicalDistance().ToCentimeters() == 0, "zero");
  __vp_reach("end");
}
// Independent of floating-point comparison: order of the bit patterns.
static int64_t Key(float f) { uint32_t u = __builtin_bit_cast(uint32_t, f); int64_t m = u & 0x7fffffff; return (u >> 31) ? -m : m; }
VP_ENTRY(t02_order_bits) {
  float x = __vp_f32("x"), y = __vp_f32("y");
  __vp_assume(!std::isnan(x) && !std::isnan(y));
  PhysicalDistance a = PhysicalDistance::Centimeters(x), b = PhysicalDistance::Centimeters(y);
  __vp_assert((a < b) == (Key(x) < Key(y)), "< orders the values"); __vp_assert((a == b) == (Key(x) == Key(y)), "== compares the values");
  __vp_assert((a >= b) == (Key(x) >= Key(y)), ">= orders the values"); __vp_assert((a > b) == (Key(x) > Key(y)), "> orders the values");
  __vp_assert((a <= b) == (Key(x) <= Key(y)), "<= orders the values"); __vp_assert((a != b) == (Key(x) != Key(y)), "!= compares the values");
  __vp_reach("end");
}
VP_ENTRY(t02_compare) {
  PhysicalDistance a = AnyD("a"), b = AnyD("b");
  float x = a.ToCentimeters(), y = b.ToCentimeters();
  __vp_assert((a == b) == (x == y), "==");
  __vp_assert((a != b) == (x != y), "!=");
  __vp_assert((a < b) == (x < y), "<");
  __vp_assert((a > b) == (x > y), ">");
  __vp_assert((a <= b) == (x <= y), "<=");
  __vp_assert((a >= b) == (x >= y), ">=");
  __vp_reach("end");
}
VP_ENTRY(t02_arith) {
  PhysicalDistance a = AnyD("a"), b = AnyD("b");
  float x = a.ToCentimeters(), y = b.ToCentimeters(), k = __vp_f32("k");
  __vp_assert(vp::same((a + b).ToCentimeters(), x + y), "+");
  __vp_assert(vp::same((a - b).ToCentimeters(), x - y), "-");
  __vp_assert(vp::same((a * k).ToCentimeters(), x * k), "d * k");
  __vp_assert(vp::same((k * a).ToCentimeters(), k * x), "k * d");
  __vp_assert(vp::same((a / k).ToCentimeters(), x / k), "d / k");
  __vp_assert(vp::same(a / b, x / y), "ratio");
  PhysicalDistance c = a;
  PhysicalDistance* r = &(c += b);
  __vp_assert(r == &c && vp::same(c.ToCentimeters(), x + y), "+=");
  c = a; r = &(c -= b); __vp_assert(r == &c && vp::same(c.ToCentimeters(), x - y), "-=");
  c = a; r = &(c *= k); __vp_assert(r == &c && vp::same(c.ToCentimeters(), x * k), "*=");
  c = a; r = &(c /= k); __vp_assert(r == &c && vp::same(c.ToCentimeters(), x / k), "/=");
  __vp_reach("end");
}
