// Reference rules and symbolic stroke inputs shared by the stroke input checks.
#pragma once
#include "ink/geometry/angle.h"
#include "ink/strokes/input/stroke_input.h"
#include "vp.h"
namespace ref {
using ink::Angle; using ink::Duration32; using ink::PhysicalDistance; using ink::StrokeInput;
inline bool Fin(float x) { return (x - x) == 0; }
struct Names { const char *tool, *x, *y, *t, *u, *p, *ti, *o; };
#define VP_N(s) {"tool" s, "x" s, "y" s, "t" s, "u" s, "p" s, "ti" s, "o" s}
inline const Names kN[6] = {VP_N("0"), VP_N("1"), VP_N("2"), VP_N("3"), VP_N("4"), VP_N("5")};
// any bit pattern in every field
inline StrokeInput Any(int i) {
  const Names& n = kN[i]; StrokeInput s; s.tool_type = (StrokeInput::ToolType)__vp_u8(n.tool); s.position = {__vp_f32(n.x), __vp_f32(n.y)}; float t = __vp_f32(n.t); __vp_assume(t == t); s.elapsed_time = Duration32::Seconds(t);
  s.stroke_unit_length = PhysicalDistance::Centimeters(__vp_f32(n.u)); s.pressure = __vp_f32(n.p); s.tilt = Angle::Radians(__vp_f32(n.ti)); s.orientation = Angle::Radians(__vp_f32(n.o)); return s;
}
struct Format { int tool; float unit; bool p, t, o; };
inline Format AnyFormat() { Format f; int k = __vp_concretize(__vp_range("format", 0, 7)); f.p = k & 1; f.t = k & 2; f.o = k & 4; f.tool = __vp_range("tool", 0, 3); f.unit = __vp_f32_range("unit", 0, 3e38f); return f; }
// an input that is valid on its own, in the given format
inline StrokeInput Valid(int i, const Format& f) {
  const Names& n = kN[i]; StrokeInput s; s.tool_type = (StrokeInput::ToolType)f.tool; s.position = {__vp_f32_range(n.x, -3e38f, 3e38f), __vp_f32_range(n.y, -3e38f, 3e38f)}; s.elapsed_time = Duration32::Seconds(__vp_f32_range(n.t, 0, 3e38f)); s.stroke_unit_length = PhysicalDistance::Centimeters(f.unit);
  if (f.p) s.pressure = __vp_f32_range(n.p, 0, 1); if (f.t) s.tilt = Angle::Radians(__vp_f32_range(n.ti, 0, 1.57079637f)); if (f.o) s.orientation = Angle::Radians(__vp_f32_range(n.o, 0, 6.2831850f)); return s;
}
inline bool Single(const StrokeInput& s) {
  int tool = (int)s.tool_type; float u = s.stroke_unit_length.ToCentimeters(), t = s.elapsed_time.ToSeconds(), p = s.pressure, ti = s.tilt.ValueInRadians(), o = s.orientation.ValueInRadians();
  return (tool >= 0) & (tool <= 3) & Fin(s.position.x) & Fin(s.position.y) & Fin(t) & (t >= 0) & Fin(u) & (u >= 0) & ((p == -1) | ((p >= 0) & (p <= 1))) & ((ti == -1) | ((ti >= 0) & (ti <= 1.57079637f))) & ((o == -1) | ((o >= 0) & (o < 6.28318548f)));
}
inline bool Pair(const StrokeInput& a, const StrokeInput& b) {
  return (a.tool_type == b.tool_type) & (a.stroke_unit_length.ToCentimeters() == b.stroke_unit_length.ToCentimeters()) & ((a.pressure == -1) == (b.pressure == -1)) & ((a.tilt.ValueInRadians() == -1) == (b.tilt.ValueInRadians() == -1)) & ((a.orientation.ValueInRadians() == -1) == (b.orientation.ValueInRadians() == -1)) & (a.elapsed_time.ToSeconds() <= b.elapsed_time.ToSeconds()) &
         !((a.position.x == b.position.x) & (a.position.y == b.position.y) & (a.elapsed_time.ToSeconds() == b.elapsed_time.ToSeconds()));
}
inline bool Same(const StrokeInput& a, const StrokeInput& b) {
  return (a.tool_type == b.tool_type) & (a.position.x == b.position.x) & (a.position.y == b.position.y) & (a.elapsed_time.ToSeconds() == b.elapsed_time.ToSeconds()) & (a.stroke_unit_length.ToCentimeters() == b.stroke_unit_length.ToCentimeters()) & (a.pressure == b.pressure) & (a.tilt.ValueInRadians() == b.tilt.ValueInRadians()) & (a.orientation.ValueInRadians() == b.orientation.ValueInRadians());
}
}  // namespace ref
