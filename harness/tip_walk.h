// Deterministic pseudo-random tip state walks, named by their seed: the fixed part of extrusion scenarios.
#pragma once
#include <vector>

#include "ink/strokes/internal/brush_tip_state.h"
struct Walk {
  unsigned s; explicit Walk(unsigned seed) : s(seed * 2654435761u + 12345u) { Next(7); Next(7); }
  int Next(int n) { s = s * 1664525u + 1013904223u; return (int)((s >> 16) % (unsigned)n); }
  ink::strokes_internal::BrushTipState State(float x, float y, float w, float h, float round) { ink::strokes_internal::BrushTipState t; t.position = {x, y}; t.width = w; t.height = h; t.percent_radius = round; t.rotation = ink::Angle(); t.slant = ink::Angle(); t.pinch = 0; return t; }
  // n states whose direction turns by a drifting amount
  std::vector<ink::strokes_internal::BrushTipState> Make(int n) {
    static const float dx[16] = {1, .875f, .75f, .375f, 0, -.375f, -.75f, -.875f, -1, -.875f, -.75f, -.375f, 0, .375f, .75f, .875f}; std::vector<ink::strokes_internal::BrushTipState> r; float x = 0, y = 0, w = 1 + Next(6) * 0.5f, round = Next(3) * 0.5f, ratio = Next(3) ? 1 : 0.25f; int d = Next(16), turn = Next(5) - 2; int step = 1 + Next(6); bool vary = Next(2), spin = Next(4) == 0;
    for (int i = 0; i < n; ++i) { auto t = State(x, y, w, w * ratio, round); if (spin) t.rotation = ink::Angle::Radians(0.25f * i); r.push_back(t); float l = step * 0.25f; x += dx[d] * l; y += dx[(d + 12) % 16] * l; if (Next(3) == 0) turn = Next(7) - 3; d = (d + turn + 16) % 16; if (vary && Next(3) == 0) w = 1 + Next(6) * 0.5f; if (Next(24) == 0) w = Next(2) ? 8 : 0; else if (w == 0 || w == 8) w = 2; if (Next(6) == 0) step = 1 + Next(6); }
    return r;
  }
};
