// Oracle for tip shapes: the convex hull of circles with equal radii, in double precision.
#pragma once
#include <cmath>
#include <vector>

#include "ink/geometry/point.h"
#include "ink/strokes/internal/brush_tip_shape.h"
struct HullD { double x, y; };
struct Hull {
  std::vector<HullD> c; double r = 0;
  Hull() {}
  explicit Hull(const ink::strokes_internal::BrushTipShape& s) { for (auto& k : s.PerimeterCircles()) { c.push_back({k.Center().x, k.Center().y}); r = k.Radius(); } }
  double Support(double nx, double ny) const { double b = -1e300; for (auto& p : c) b = std::fmax(b, p.x * nx + p.y * ny); return b + r; }
  // distance of a point outside of the polygon of the centers, or minus the distance to its nearest edge inside
  double Signed(double x, double y) const {
    int n = (int)c.size(); double out = 1e300, in = -1e300; bool inside = n > 2;
    for (int i = 0; i < n; ++i) { HullD a = c[i], b = c[(i + 1) % n]; double ux = b.x - a.x, uy = b.y - a.y, wx = x - a.x, wy = y - a.y, l = ux * ux + uy * uy, t = l > 0 ? (wx * ux + wy * uy) / l : 0; t = std::fmin(1.0, std::fmax(0.0, t)); out = std::fmin(out, std::hypot(wx - t * ux, wy - t * uy)); if (l > 0) { double e = -(ux * wy - uy * wx) / std::sqrt(l); inside = inside & (e < 0); in = std::fmax(in, e); } else inside = false; }
    return inside ? in : out;
  }
  // > 0: contains it with room to spare, < 0: it sticks out
  double Room(const Hull& o) const { double m = 1e300; for (auto& p : o.c) m = std::fmin(m, r - o.r - Signed(p.x, p.y)); return m; }
};
