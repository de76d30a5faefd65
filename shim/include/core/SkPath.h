// Stand-in for Skia's paths: a list of verbs with points.
#pragma once
#include <vector>
#include "include/core/SkPathTypes.h"
class SkPath {
 public:
  struct Verb { int kind; float x, y; };  // 0 move, 1 line, 2 close
  void setFillType(SkPathFillType t) { fill = t; } void moveTo(float x, float y) { verbs.push_back({0, x, y}); } void lineTo(float x, float y) { verbs.push_back({1, x, y}); } void close() { verbs.push_back({2, 0, 0}); }
  SkPathFillType fill = SkPathFillType::kWinding; std::vector<Verb> verbs;
};
