B=[
dict(id='rect-resize-xmax',prop='G03',edits=[('ink/geometry/rect.h','''  x_max_ = x_max;
  if (x_min_ > x_max_) {
    x_min_ = x_max_;''','''  if (x_min_ > x_max_) {
    x_min_ = x_max;
  }
  x_max_ = x_max;
  if (y_min_ > y_max_) {
    y_min_ = y_max_;''')],srcs=['ink/geometry/rect.cc','ink/geometry/segment.cc'],
 demo='''#include "ink/geometry/rect.h"
int main() { ink::Rect r = ink::Rect::FromTwoPoints({0, 0}, {10, 10}); r.ResizeSettingXMaxTo(-5); REQ(r.XMin() <= r.XMax()); REQ(r.XMin() == -5); return 0; }
''',needs='moving the right edge to the left of the left edge',breaks='the rectangle becomes inverted because the comparison uses the old maximum'),
dict(id='quad-stale-axes-on-width-flip',prop='G05',edits=[('ink/geometry/quad.h','''  semi_axes_.reset();
  width_ = width;
  Normalize();''','''  if (std::abs(width) != width_) semi_axes_.reset();
  width_ = width;
  Normalize();''')],srcs=['ink/geometry/quad.cc','ink/geometry/rect.cc','ink/geometry/segment.cc','ink/geometry/angle.cc','ink/geometry/vec.cc'],
 demo='''#include "ink/geometry/quad.h"
int main() { ink::Quad q = ink::Quad::FromCenterDimensionsAndRotation({0, 0}, 4, 2, ink::Angle::Radians(0.5f)); q.SemiAxes(); q.SetWidth(-4);
 ink::Quad f = ink::Quad::FromCenterDimensionsRotationAndShear(q.Center(), q.Width(), q.Height(), q.Rotation(), q.ShearFactor());
 REQ((q.SemiAxes().first - f.SemiAxes().first).Magnitude() < 1e-3f); return 0; }
''',needs='querying the axes, then setting the width to exactly the negated current width',breaks='cached semi-axes stay stale when a negative width of the same magnitude turns the quad'),
dict(id='duration-div-nan',prop='T01',edits=[('ink/types/duration.cc','',''),],srcs=[],demo='',needs='',breaks=''),
]
B=B[:2]
