// Stand-in for Skia's canvas: records what is drawn.
#pragma once
#include <vector>
#include "include/core/SkBlender.h"
#include "include/core/SkMesh.h"
#include "include/core/SkPaint.h"
#include "include/core/SkPath.h"
class SkCanvas {
 public:
  struct PathCall { SkPath path; SkPaint paint; }; struct MeshCall { SkMesh mesh; sk_sp<SkBlender> blender; SkPaint paint; };
  void drawPath(const SkPath& p, const SkPaint& q) { paths.push_back({p, q}); } void drawMesh(const SkMesh& m, sk_sp<SkBlender> b, const SkPaint& q) { meshes.push_back({m, b, q}); }
  std::vector<PathCall> paths; std::vector<MeshCall> meshes;
};
