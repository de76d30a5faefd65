// Integer reference predicates (closed shapes, degenerate ones included).
#pragma once
#include "ink/geometry/point.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "vp.h"
namespace ref {
struct P { int x, y; };
inline P Pt(const char* nx, const char* ny, int lo, int hi) { return {__vp_range(nx, lo, hi), __vp_range(ny, lo, hi)}; }
inline ink::Point F(P p) { return {static_cast<float>(p.x), static_cast<float>(p.y)}; }
inline int Det(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
inline bool Btw(int v, int a, int b) { return ((a <= v) & (v <= b)) | ((b <= v) & (v <= a)); }
inline bool Same(P a, P b) { return (a.x == b.x) & (a.y == b.y); }
inline bool On(P p, P a, P b) { return (Det(a, b, p) == 0) & Btw(p.x, a.x, b.x) & Btw(p.y, a.y, b.y); }
inline bool Opp(int u, int v) { return ((u < 0) & (v > 0)) | ((u > 0) & (v < 0)); }
inline bool SegSeg(P a, P b, P c, P d) { return On(c, a, b) | On(d, a, b) | On(a, c, d) | On(b, c, d) | (Opp(Det(a, b, c), Det(a, b, d)) & Opp(Det(c, d, a), Det(c, d, b))); }
inline bool InTri(P p, P a, P b, P c) {
  int u = Det(a, b, p), v = Det(b, c, p), w = Det(c, a, p); bool flat = Det(a, b, c) == 0;
  return (!flat & (((u >= 0) & (v >= 0) & (w >= 0)) | ((u <= 0) & (v <= 0) & (w <= 0)))) | (flat & (On(p, a, b) | On(p, b, c) | On(p, c, a)));
}
inline bool SegTri(P s, P e, P a, P b, P c) { return InTri(s, a, b, c) | InTri(e, a, b, c) | SegSeg(s, e, a, b) | SegSeg(s, e, b, c) | SegSeg(s, e, c, a); }
inline bool TriTri(P a, P b, P c, P d, P e, P f) { return SegTri(a, b, d, e, f) | SegTri(b, c, d, e, f) | SegTri(c, a, d, e, f) | InTri(d, a, b, c); }
struct R { int x0, y0, x1, y1; };
inline R Rc(const char* a, const char* b, const char* c, const char* d, int lo, int hi) { R r{__vp_range(a, lo, hi), __vp_range(b, lo, hi), __vp_range(c, lo, hi), __vp_range(d, lo, hi)}; __vp_assume((r.x0 <= r.x1) & (r.y0 <= r.y1)); return r; }
inline ink::Rect F(R r) { return ink::Rect::FromTwoPoints({(float)r.x0, (float)r.y0}, {(float)r.x1, (float)r.y1}); }
inline bool InRect(P p, R r) { return (r.x0 <= p.x) & (p.x <= r.x1) & (r.y0 <= p.y) & (p.y <= r.y1); }
inline bool SegRect(P s, P e, R r) { P a{r.x0, r.y0}, b{r.x1, r.y0}, c{r.x1, r.y1}, d{r.x0, r.y1}; return InRect(s, r) | InRect(e, r) | SegSeg(s, e, a, c) | SegSeg(s, e, b, d); }
inline bool TriRect(P t, P u, P v, R r) { return SegRect(t, u, r) | SegRect(u, v, r) | SegRect(v, t, r) | InTri({r.x0, r.y0}, t, u, v); }
}  // namespace ref
