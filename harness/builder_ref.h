// A stand-in for StrokeShapeBuilder that keeps its documented contract: the
// mesh holds one triangle per real input since StartStroke() and per predicted
// input of the last ExtendStroke(); everything before is replaced.
#pragma once
#include <vector>

#include "ink/strokes/internal/stroke_shape_builder.h"
#include "ink/strokes/internal/stroke_vertex.h"
namespace builder_ref {
struct Log { int starts = 0, extends = 0; std::vector<float> times; int busy = 0; std::vector<std::pair<const void*, bool>> marked; float size = 0, epsilon = 0; int tips = 0; bool bad = false, fixed = false; };
inline Log log;
static const uint32_t kOutline[12][3] = {{2, 1, 0}, {5, 4, 3}, {8, 7, 6}, {11, 10, 9}, {14, 13, 12}, {17, 16, 15}, {20, 19, 18}, {23, 22, 21}, {26, 25, 24}, {29, 28, 27}, {32, 31, 30}, {35, 34, 33}};
}  // namespace builder_ref
namespace ink::strokes_internal {
void StrokeShapeBuilder::StartStroke(const BrushFamily::InputModel& model, const BrushCoat& coat, float size, float epsilon) {
  bool mark = !coat.tips.empty() && coat.tips[0].pinch == 0.5f, known = false; for (auto& m : builder_ref::log.marked) if (m.first == this) { m.second = mark; known = true; } if (!known) builder_ref::log.marked.push_back({this, mark});
  builder_ref::log.starts++; builder_ref::log.size = size; builder_ref::log.epsilon = epsilon; mesh_.Clear(); mesh_bounds_.Reset(); outlines_.clear(); tip_count_ = 0; // reused as the number of real inputs
}
StrokeShapeUpdate StrokeShapeBuilder::ExtendStroke(const StrokeInputBatch& real, const StrokeInputBatch& predicted, Duration32 now) {
  auto& l = builder_ref::log; l.extends++; l.times.push_back(now.ToSeconds()); StrokeShapeUpdate u; for (uint32_t i = tip_count_ * 3; i < mesh_.VertexCount(); ++i) u.region.Add(mesh_.VertexPosition(i)); mesh_.Resize(3 * tip_count_, tip_count_); outlines_.clear();
  auto add = [&](const StrokeInputBatch& b) { for (size_t i = 0; i < b.Size(); ++i) { Point p = b.Get(i).position; float w = l.fixed ? 1 : l.size, h = l.fixed ? 1 : l.epsilon; if (l.bad) h = __builtin_nanf(""); uint32_t v = mesh_.VertexCount(); for (Point q : {p, Point{p.x + w, p.y}, Point{p.x, p.y + h}}) { StrokeVertex s; s.position = q; StrokeVertex::AppendToMesh(mesh_, s); u.region.Add(q); } mesh_.AppendTriangleIndices({v, v + 1, v + 2}); } };
  add(real); add(predicted); tip_count_ += real.Size(); mesh_bounds_.Reset(); for (uint32_t i = 0; i < mesh_.VertexCount(); ++i) mesh_bounds_.Add(mesh_.VertexPosition(i)); for (uint32_t i = 0; i < mesh_.TriangleCount() && i < 12; ++i) outlines_.push_back(absl::MakeConstSpan(builder_ref::kOutline[i], 3)); return u;
}
bool StrokeShapeBuilder::HasUnfinishedTimeBehaviors() const { // busy: 0 never, 1 always, 2 for coats whose tip is marked by its pinch, 3 for the others
  bool mark = false; for (auto& m : builder_ref::log.marked) if (m.first == this) mark = m.second; int b = builder_ref::log.busy; return b == 1 || (b == 2 && mark) || (b == 3 && !mark);
}
}  // namespace ink::strokes_internal
