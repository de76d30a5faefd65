From 11afe935120c81c311b24235d3ce5cc6debbf658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 01/34] fix: keep Duration32 scaling from producing NaN

Zero() * inf and Zero() / 0 evaluated to a NaN number of seconds, which
Duration32 promises never to hold (comparisons would all be false).
---
 ink/types/duration.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ink/types/duration.cc b/ink/types/duration.cc
index 56154b6..98bfb1b 100644
--- a/ink/types/duration.cc
+++ b/ink/types/duration.cc
@@ -32,7 +32,13 @@ Duration32 operator*(Duration32 d, float scale) {
     return (d >= Duration32::Zero()) == (scale >= 0) ? Duration32::Infinite()
                                                      : -Duration32::Infinite();
   }
-  return Duration32(d.value_seconds_ * scale);
+  float seconds = d.value_seconds_ * scale;
+  // Zero times infinity saturates, since a `Duration32` must never be NaN.
+  if (std::isnan(seconds)) {
+    return (d >= Duration32::Zero()) == (scale >= 0) ? Duration32::Infinite()
+                                                     : -Duration32::Infinite();
+  }
+  return Duration32(seconds);
 }
 
 Duration32 operator/(Duration32 d, float divisor) {
@@ -45,7 +51,14 @@ Duration32 operator/(Duration32 d, float divisor) {
                ? Duration32::Infinite()
                : -Duration32::Infinite();
   }
-  return Duration32(d.value_seconds_ / divisor);
+  float seconds = d.value_seconds_ / divisor;
+  // Zero divided by zero saturates, since a `Duration32` must never be NaN.
+  if (std::isnan(seconds)) {
+    return (d >= Duration32::Zero()) == (divisor >= 0)
+               ? Duration32::Infinite()
+               : -Duration32::Infinite();
+  }
+  return Duration32(seconds);
 }
 
 float operator/(Duration32 a, Duration32 b) {
-- 
2.43.0


From edb98b81b4e3129ea07258081291a60443ca74ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 02/34] fix: do not CHECK-fail in Vec::AsUnitVec for subnormal
 vectors

Scaling the smallest subnormal components by 0.5 rounded them to zero, so
AsUnitVec divided by a zero magnitude, which CHECK-fails.
---
 ink/geometry/vec.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/vec.cc b/ink/geometry/vec.cc
index 97479d0..e2bb67b 100644
--- a/ink/geometry/vec.cc
+++ b/ink/geometry/vec.cc
@@ -55,9 +55,12 @@ Vec Vec::AsUnitVec() const {
 
   // Finally, we have the finite, nonzero case.  In theory, we can just divide
   // the vector by its magnitude, but the magnitude can overflow to infinity if
-  // e.g. x and y are both very large finite floats.  We can avoid this by
-  // pre-scaling the vector before normalizing.
-  Vec scaled = 0.5f * *this;
+  // e.g. x and y are both very large finite floats, and very small components
+  // lose precision or even underflow to zero.  We can avoid this by pre-scaling
+  // the vector by a suitable power of two before normalizing.
+  const float scale =
+      std::max(std::abs(x), std::abs(y)) < 1.f ? 0x1p100f : 0.5f;
+  Vec scaled = scale * *this;
   return scaled / scaled.Magnitude();
 }
 
-- 
2.43.0


From 761cd8b4928fa7c692297fa39100be9330e95ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 03/34] fix: keep the center in Rect::SetWidth and SetHeight
 for huge bounds

---
 ink/geometry/rect.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/rect.h b/ink/geometry/rect.h
index 33a1d8f..1e7ae63 100644
--- a/ink/geometry/rect.h
+++ b/ink/geometry/rect.h
@@ -249,7 +249,8 @@ inline float Rect::Width() const { return x_max_ - x_min_; }
 
 inline void Rect::SetWidth(float width) {
   ABSL_CHECK(width >= 0) << "Cannot set a width less than 0";
-  float x_center = (x_min_ + x_max_) / 2;
+  // Halve before adding, to avoid overflow (see `Center`).
+  float x_center = 0.5f * x_min_ + 0.5f * x_max_;
   x_min_ = x_center - width / 2;
   x_max_ = x_center + width / 2;
 }
@@ -258,7 +259,8 @@ inline float Rect::Height() const { return y_max_ - y_min_; }
 
 inline void Rect::SetHeight(float height) {
   ABSL_CHECK(height >= 0) << "Cannot set a height less than 0";
-  float y_center = (y_min_ + y_max_) / 2;
+  // Halve before adding, to avoid overflow (see `Center`).
+  float y_center = 0.5f * y_min_ + 0.5f * y_max_;
   y_min_ = y_center - height / 2;
   y_max_ = y_center + height / 2;
 }
-- 
2.43.0


From 2b61733f611726c07811b0c5e5dc9631f65788c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 04/34] fix: define the default constructor of Quad

---
 ink/geometry/quad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.h b/ink/geometry/quad.h
index f97cc7d..26c9b40 100644
--- a/ink/geometry/quad.h
+++ b/ink/geometry/quad.h
@@ -83,7 +83,7 @@ class Quad {
  public:
   // Constructs a Quad centered on the origin, with zero width, height,
   // rotation, and shear factor.
-  Quad();
+  Quad() = default;
 
   // Constructs a Quad with the specified parameters, setting unspecified
   // parameters to zero. If the given width is less than zero, the Quad will be
-- 
2.43.0


From bdee4de43f4be1a5d874474dc8454b5693333ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 05/34] fix: use the floating-point abs in Quad::Join

---
 ink/geometry/quad.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/quad.cc b/ink/geometry/quad.cc
index 8bb5afc..13bd7d4 100644
--- a/ink/geometry/quad.cc
+++ b/ink/geometry/quad.cc
@@ -83,8 +83,8 @@ void Quad::Join(Point point) {
   float u_dot_q = Vec::DotProduct(unit_axes.first, q);
   float u_cross_q = Vec::Determinant(unit_axes.first, q);
   float v_cross_q = Vec::Determinant(unit_axes.second, q);
-  float new_width =
-      std::max(width_, .5f * width_ + abs(u_dot_q - shear_factor_ * u_cross_q));
+  float new_width = std::max(
+      width_, .5f * width_ + std::abs(u_dot_q - shear_factor_ * u_cross_q));
   float new_height = std::copysign(1.f, height_) *
                      std::max(std::abs(height_),
                               .5f * std::abs(height_) + std::abs(u_cross_q));
-- 
2.43.0


From 17ec965bf217ade52832a5687b37dae6c2ebf3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 06/34] fix: order vertically aligned points by distance in
 ConvexHull

Points at the same angle from the start point were compared by their
horizontal distance only, so points straight above the start point had no
defined order and a farther one could be dropped from the hull.
---
 ink/geometry/internal/convex_hull_helper.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index b6e436f..3583b45 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -127,8 +127,12 @@ std::vector<typename VertexTessellationHelper::VertexType> ConvexHull(
               Vec rhs_vec{GetX(rhs) - GetX(start_point),
                           GetY(rhs) - GetY(start_point)};
               float det = Vec::Determinant(lhs_vec, rhs_vec);
-              return det > 0 ||
-                     (det == 0 && std::abs(lhs_vec.x) < std::abs(rhs_vec.x));
+              if (det != 0) return det > 0;
+              float lhs_x = std::abs(lhs_vec.x);
+              float rhs_x = std::abs(rhs_vec.x);
+              return lhs_x < rhs_x ||
+                     (lhs_x == rhs_x &&
+                      std::abs(lhs_vec.y) < std::abs(rhs_vec.y));
             });
 
   // Add the sorted points to the hull, removing any that form concavities.
-- 
2.43.0


From 84c9cdf1cf66f9c75c04ee967772c60ca6da7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 07/34] fix: keep the extreme points when pruning for the
 convex hull

The Akl-Toussaint pruning dropped every point in the closed quadrilateral
spanned by the extrema, including the extrema, so the hull of a large point
set lost its own corners.
---
 ink/geometry/internal/convex_hull_helper.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index 3583b45..48d6758 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -77,12 +77,18 @@ PruneUsingAkiToussaint(
                           Point{GetX(min_y_point), GetY(min_y_point)},
                           Point{GetX(max_x_point), GetY(max_x_point)}};
 
+  // The extrema themselves are corners of those triangles, but must be kept.
+  auto is_extremum = [&](Point p) {
+    return p == upper_triangle.p0 || p == upper_triangle.p1 ||
+           p == upper_triangle.p2 || p == lower_triangle.p1;
+  };
+
   std::vector<VertexType> pruned_points;
   pruned_points.reserve(points.size());
   for (const auto& p : points) {
     Point test_point{GetX(p), GetY(p)};
-    if (!upper_triangle.Contains(test_point) &&
-        !lower_triangle.Contains(test_point))
+    if (is_extremum(test_point) || (!upper_triangle.Contains(test_point) &&
+                                    !lower_triangle.Contains(test_point)))
       pruned_points.push_back(p);
   }
 
-- 
2.43.0


From 796806e2228dfe27a3ff1cadd2fcf2c7ed333ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 08/34] fix: visiting an empty StaticRTree reads no root node

VisitIntersectedElements dereferenced the root of a tree that has no
nodes.
---
 ink/geometry/internal/static_rtree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/geometry/internal/static_rtree.h b/ink/geometry/internal/static_rtree.h
index da0a591..74eaace 100644
--- a/ink/geometry/internal/static_rtree.h
+++ b/ink/geometry/internal/static_rtree.h
@@ -382,6 +382,9 @@ void StaticRTree<T, kBranchingFactor>::InitializeTree() {
 template <typename T, uint32_t kBranchingFactor>
 void StaticRTree<T, kBranchingFactor>::VisitIntersectedElements(
     const Rect& bounds, absl::FunctionRef<bool(const T&)> visitor) const {
+  // An empty R-Tree has no root node.
+  if (branch_nodes_.empty()) return;
+
   if (!IntersectsInternal(branch_nodes_.front().bounds, bounds)) return;
   VisitIntersectedElementsInSubTree(0, bounds, visitor);
 }
-- 
2.43.0


From 94ac3cf9eb720735315f46834e01edd170a821c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 09/34] fix: keep coding params representable for tiny ranges

---
 ink/geometry/internal/mesh_packing.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 548cca6..3843904 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -875,8 +875,14 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
 
     // If the min and max are the same, we would get a scale of zero, which
     // wouldn't make sense, since multiplying by zero is not invertible --
-    // so in that case we set the scale to 1 instead.
-    coding_params.components[i].scale = range > 0 ? range / max_values[i] : 1;
+    // so in that case we set the scale to 1 instead. A tiny range would
+    // underflow to a scale of zero, or to a subnormal one that is too inexact
+    // for the maximum to be representable, so we don't go below the smallest
+    // normal value.
+    coding_params.components[i].scale =
+        range > 0 ? std::max(range / max_values[i],
+                             std::numeric_limits<float>::min())
+                  : 1;
   }
 
   return coding_params;
-- 
2.43.0


From 8f114e37113f5042ec283958bd88c9f2ee0ec125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 10/34] fix: keep infinite channels from turning into NaN in
 Color::ScaledToGamut

---
 ink/color/color.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ink/color/color.cc b/ink/color/color.cc
index aec3f4a..06fd99f 100644
--- a/ink/color/color.cc
+++ b/ink/color/color.cc
@@ -166,7 +166,13 @@ Color Color::ScaledToGamut() const {
   const float max_val =
       std::max(copy.rgba_[kChannelRed],
                std::max(copy.rgba_[kChannelGreen], copy.rgba_[kChannelBlue]));
-  if (max_val > 1.0f) {
+  if (std::isinf(max_val)) {
+    // Dividing infinity by infinity would give NaN. An infinite channel
+    // dominates all finite ones, so those scale down to zero.
+    for (int i = 0; i < kNumChannelsColorOnly; ++i) {
+      copy.rgba_[i] = std::isinf(copy.rgba_[i]) ? 1.0f : 0.0f;
+    }
+  } else if (max_val > 1.0f) {
     for (int i = 0; i < kNumChannelsColorOnly; ++i) {
       copy.rgba_[i] = copy.rgba_[i] / max_val;
     }
-- 
2.43.0


From 65e1a14ec69fba8576f41f61494ca979c38e676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 11/34] fix: reject a stroke input orientation of exactly 2*pi,
 as documented

---
 ink/strokes/input/stroke_input_batch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/strokes/input/stroke_input_batch.cc b/ink/strokes/input/stroke_input_batch.cc
index d22da46..708053f 100644
--- a/ink/strokes/input/stroke_input_batch.cc
+++ b/ink/strokes/input/stroke_input_batch.cc
@@ -145,7 +145,7 @@ absl::Status ValidateSingleInput(const StrokeInput& input) {
 
   if (!std::isfinite(input.orientation.ValueInRadians()) ||
       (input.HasOrientation() &&
-       !(input.orientation >= Angle() && input.orientation <= kFullTurn))) {
+       !(input.orientation >= Angle() && input.orientation < kFullTurn))) {
     return absl::InvalidArgumentError(
         absl::Substitute("`StrokeInput::orientation` must be -1 or in the "
                          "range [0, 2 * pi). Got: $0",
-- 
2.43.0


From 30cd4f1859da57b3e4153eb50391d3c3c3ff5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 12/34] fix: appending a StrokeInputBatch to itself no longer
 reads the vector being extended

---
 ink/strokes/input/stroke_input_batch.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/strokes/input/stroke_input_batch.cc b/ink/strokes/input/stroke_input_batch.cc
index 708053f..b653095 100644
--- a/ink/strokes/input/stroke_input_batch.cc
+++ b/ink/strokes/input/stroke_input_batch.cc
@@ -334,6 +334,9 @@ absl::Status StrokeInputBatch::Append(const StrokeInputBatch& inputs) {
     return absl::OkStatus();
   }
 
+  // Appending a batch to itself must not read from the vector being extended.
+  if (&inputs == this) return Append(StrokeInputBatch(inputs));
+
   if (absl::Status status =
           ValidateConsecutiveInputs(Get(Size() - 1), inputs.Get(0));
       !status.ok()) {
-- 
2.43.0


From d119a6ad7ee26bdc8df57def8be2fdba15125be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 13/34] fix: treat an overflowing brush response as null

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index cf52d25..8a83ff5 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -397,7 +397,13 @@ void ProcessBehaviorNodeImpl(const DampingNodeImplementation& node,
 void ProcessBehaviorNodeImpl(const EasingImplementation& node,
                              const BehaviorNodeContext& context) {
   ABSL_DCHECK(!context.stack.empty());
-  context.stack.back() = node.GetY(context.stack.back());
+  float& value = context.stack.back();
+  value = node.GetY(value);
+  // If the above resulted in a non-finite value (e.g. overflow to infinity),
+  // treat the result as null.
+  if (!std::isfinite(value)) {
+    value = kNullBehaviorNodeValue;
+  }
 }
 
 void ProcessBehaviorNodeImpl(const BrushBehavior::BinaryOpNode& node,
-- 
2.43.0


From 26a246adf6e16c35a9733201e5eb33965e0571b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 14/34] fix: keep brush behavior target modifiers finite

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 8a83ff5..da65f60 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -471,8 +471,12 @@ void ProcessBehaviorNodeImpl(const TargetNodeImplementation& node,
   float input = context.stack.back();
   context.stack.pop_back();
   if (IsNullBehaviorNodeValue(input)) return;
-  context.target_modifiers[node.target_index] =
+  float modifier =
       Lerp(node.target_modifier_range[0], node.target_modifier_range[1], input);
+  // If the above resulted in a non-finite value (e.g. overflow to infinity),
+  // treat the result as null.
+  if (!std::isfinite(modifier)) return;
+  context.target_modifiers[node.target_index] = modifier;
 }
 
 }  // namespace
-- 
2.43.0


From fa771f595eb0bcc6452c3eadb9f0313e1b365c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 15/34] fix: treat an overflowing damped brush value as null

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index da65f60..d7b9fa5 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -391,6 +391,11 @@ void ProcessBehaviorNodeImpl(const DampingNodeImplementation& node,
       } break;
     }
   }
+  // If any of the above resulted in a non-finite value (e.g. overflow to
+  // infinity), treat the result as null.
+  if (!std::isfinite(damped_value)) {
+    damped_value = kNullBehaviorNodeValue;
+  }
   context.stack.back() = damped_value;
 }
 
-- 
2.43.0


From 433f7f56475747ecf4d313618e362d25c89294d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 16/34] fix: keep accumulated brush behavior modifiers finite

---
 .../internal/brush_tip_modeler_helpers.cc     | 50 ++++++++++++++-----
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index d7b9fa5..d0c75cd 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -18,6 +18,7 @@
 #include <array>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <optional>
 #include <variant>
 #include <vector>
@@ -510,6 +511,16 @@ struct BrushTipStateModifiers {
   float opacity_multiplier = 1;
 };
 
+// Clamps `value` to the range of finite values. This keeps accumulated modifiers
+// from overflowing to infinity, which later modifiers could then turn into NaN.
+float ClampToFinite(float value) {
+  return std::clamp(value, std::numeric_limits<float>::lowest(),
+                    std::numeric_limits<float>::max());
+}
+Angle ClampToFinite(Angle value) {
+  return Angle::Radians(ClampToFinite(value.ValueInRadians()));
+}
+
 // Adds `modifier` to the appropriate member of `tip_state_modifiers` according
 // to the `target` enum.
 void ApplyModifierToTarget(float modifier, BrushBehavior::Target target,
@@ -519,26 +530,34 @@ void ApplyModifierToTarget(float modifier, BrushBehavior::Target target,
   ABSL_DCHECK(std::isfinite(modifier));
   switch (target) {
     case BrushBehavior::Target::kWidthMultiplier:
-      tip_state_modifiers.width_multiplier *= modifier;
+      tip_state_modifiers.width_multiplier =
+          ClampToFinite(tip_state_modifiers.width_multiplier * modifier);
       break;
     case BrushBehavior::Target::kHeightMultiplier:
-      tip_state_modifiers.height_multiplier *= modifier;
+      tip_state_modifiers.height_multiplier =
+          ClampToFinite(tip_state_modifiers.height_multiplier * modifier);
       break;
     case BrushBehavior::Target::kSizeMultiplier:
-      tip_state_modifiers.width_multiplier *= modifier;
-      tip_state_modifiers.height_multiplier *= modifier;
+      tip_state_modifiers.width_multiplier =
+          ClampToFinite(tip_state_modifiers.width_multiplier * modifier);
+      tip_state_modifiers.height_multiplier =
+          ClampToFinite(tip_state_modifiers.height_multiplier * modifier);
       break;
     case BrushBehavior::Target::kSlantOffsetInRadians:
-      tip_state_modifiers.slant_offset += Angle::Radians(modifier);
+      tip_state_modifiers.slant_offset = ClampToFinite(
+          tip_state_modifiers.slant_offset + Angle::Radians(modifier));
       break;
     case BrushBehavior::Target::kPinchOffset:
-      tip_state_modifiers.pinch_offset += modifier;
+      tip_state_modifiers.pinch_offset =
+          ClampToFinite(tip_state_modifiers.pinch_offset + modifier);
       break;
     case BrushBehavior::Target::kRotationOffsetInRadians:
-      tip_state_modifiers.rotation_offset += Angle::Radians(modifier);
+      tip_state_modifiers.rotation_offset = ClampToFinite(
+          tip_state_modifiers.rotation_offset + Angle::Radians(modifier));
       break;
     case BrushBehavior::Target::kCornerRoundingOffset:
-      tip_state_modifiers.corner_rounding_offset += modifier;
+      tip_state_modifiers.corner_rounding_offset =
+          ClampToFinite(tip_state_modifiers.corner_rounding_offset + modifier);
       break;
     case BrushBehavior::Target::kPositionOffsetXInMultiplesOfBrushSize:
       tip_state_modifiers.position_offset_in_stroke_units.x +=
@@ -563,16 +582,20 @@ void ApplyModifierToTarget(float modifier, BrushBehavior::Target target,
       }
       break;
     case BrushBehavior::Target::kHueOffsetInRadians:
-      tip_state_modifiers.hue_offset += Angle::Radians(modifier);
+      tip_state_modifiers.hue_offset = ClampToFinite(
+          tip_state_modifiers.hue_offset + Angle::Radians(modifier));
       break;
     case BrushBehavior::Target::kSaturationMultiplier:
-      tip_state_modifiers.saturation_multiplier *= modifier;
+      tip_state_modifiers.saturation_multiplier =
+          ClampToFinite(tip_state_modifiers.saturation_multiplier * modifier);
       break;
     case BrushBehavior::Target::kLuminosity:
-      tip_state_modifiers.luminosity += modifier;
+      tip_state_modifiers.luminosity =
+          ClampToFinite(tip_state_modifiers.luminosity + modifier);
       break;
     case BrushBehavior::Target::kOpacityMultiplier:
-      tip_state_modifiers.opacity_multiplier *= modifier;
+      tip_state_modifiers.opacity_multiplier =
+          ClampToFinite(tip_state_modifiers.opacity_multiplier * modifier);
       break;
   }
 }
@@ -596,7 +619,8 @@ void ApplyModifiersToTipState(const BrushTipStateModifiers& modifiers,
   }
   if (modifiers.rotation_offset != Angle()) {
     tip_state.rotation =
-        (tip_state.rotation + modifiers.rotation_offset).Normalized();
+        ClampToFinite(tip_state.rotation + modifiers.rotation_offset)
+            .Normalized();
   }
   if (modifiers.corner_rounding_offset != 0) {
     tip_state.percent_radius = std::clamp(
-- 
2.43.0


From 78152c0dd8508cc246cf0900731e137090a3f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 17/34] fix: direction-relative brush targets depend on the
 next modeled input

---
 ink/strokes/internal/brush_tip_modeler.cc | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index b96db30..aa0d4fa 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -260,6 +260,29 @@ bool SourceDependsOnNextModeledInput(BrushBehavior::Source source) {
   return false;
 }
 
+bool TargetDependsOnNextModeledInput(BrushBehavior::Target target) {
+  switch (target) {
+    case BrushBehavior::Target::kPositionOffsetForwardInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kPositionOffsetLateralInMultiplesOfBrushSize:
+      return true;
+    case BrushBehavior::Target::kWidthMultiplier:
+    case BrushBehavior::Target::kHeightMultiplier:
+    case BrushBehavior::Target::kSizeMultiplier:
+    case BrushBehavior::Target::kSlantOffsetInRadians:
+    case BrushBehavior::Target::kPinchOffset:
+    case BrushBehavior::Target::kRotationOffsetInRadians:
+    case BrushBehavior::Target::kCornerRoundingOffset:
+    case BrushBehavior::Target::kPositionOffsetXInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kPositionOffsetYInMultiplesOfBrushSize:
+    case BrushBehavior::Target::kHueOffsetInRadians:
+    case BrushBehavior::Target::kSaturationMultiplier:
+    case BrushBehavior::Target::kLuminosity:
+    case BrushBehavior::Target::kOpacityMultiplier:
+      break;
+  }
+  return false;
+}
+
 Duration32 TimeSinceLastInput(
     const StrokeInputModeler::State& input_modeler_state) {
   // TODO: b/287041801 - Do we need to consider predicted inputs here too?
@@ -370,6 +393,9 @@ void BrushTipModeler::AppendBehaviorNode(
       .target_modifier_range = node.target_modifier_range,
   });
   behavior_targets_.push_back(node.target);
+  if (TargetDependsOnNextModeledInput(node.target)) {
+    behaviors_depend_on_next_input_ = true;
+  }
   float initial_modifier = InitialTargetModifierValue(node.target);
   current_target_modifiers_.push_back(initial_modifier);
   fixed_target_modifiers_.push_back(initial_modifier);
-- 
2.43.0


From 0a2cd36c601860ebda3b89549dd09e91237c787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 18/34] fix: keep a missing orientation missing when
 interpolating modeled inputs

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index d0c75cd..f0de519 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -683,8 +683,11 @@ ModeledStrokeInput Lerp(const ModeledStrokeInput& a,
               a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t)),
           .pressure = geometry_internal::Lerp(a.pressure, b.pressure, t),
           .tilt = geometry_internal::Lerp(a.tilt, b.tilt, t),
-          .orientation = geometry_internal::NormalizedAngleLerp(
-              a.orientation, b.orientation, t)};
+          .orientation = a.orientation == StrokeInput::kNoOrientation ||
+                                 b.orientation == StrokeInput::kNoOrientation
+                             ? StrokeInput::kNoOrientation
+                             : geometry_internal::NormalizedAngleLerp(
+                                   a.orientation, b.orientation, t)};
 }
 
 }  // namespace ink::strokes_internal
-- 
2.43.0


From 581ea184a6640308d80e5fb43466c6e0bd2fd75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 19/34] fix: stop emitting particles when the gap is too small
 to make progress

---
 ink/strokes/internal/brush_tip_modeler.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index aa0d4fa..a1b6307 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -580,6 +580,7 @@ void BrushTipModeler::ProcessSingleInput(
                           input_delta.elapsed_time);
     }
     ModeledStrokeInput lerped_input = Lerp(current_input, *previous_input, t);
+    InputMetrics previous_particle_metrics = *last_modeled_tip_state_metrics;
     AddNewTipState(input_modeler_state, lerped_input, current_travel_direction,
                    // Use `last_modeled_tip_state_metrics` as the "previous
                    // input" metrics (copied by value):
@@ -589,6 +590,15 @@ void BrushTipModeler::ProcessSingleInput(
                    last_modeled_tip_state_metrics);
 
     AppendParticleGapTipState();
+
+    // If the gap is too small relative to the traveled distance and elapsed
+    // time to be represented, then there is no progress to be made.
+    if (last_modeled_tip_state_metrics->traveled_distance <=
+            previous_particle_metrics.traveled_distance &&
+        last_modeled_tip_state_metrics->elapsed_time <=
+            previous_particle_metrics.elapsed_time) {
+      break;
+    }
   }
 }
 
-- 
2.43.0


From 78f43f3fce47519d8687c1e2825cd6b29fe6fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 20/34] fix: no traveled distance is left when the last modeled
 input disappears

---
 ink/strokes/internal/stroke_input_modeler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index d278753..315e68f 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -311,6 +311,7 @@ void StrokeInputModeler::UpdateStateTimeAndDistance(
     Duration32 current_elapsed_time) {
   if (modeled_inputs_.empty()) {
     state_.complete_elapsed_time = current_elapsed_time;
+    state_.complete_traveled_distance = 0;
     return;
   }
 
-- 
2.43.0


From 2891d509485dfd6d867c2a19358c32335522e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 21/34] fix: bitmaps with unknown color formats or color spaces
 are not valid

---
 ink/rendering/bitmap.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ink/rendering/bitmap.cc b/ink/rendering/bitmap.cc
index bfec32f..daed230 100644
--- a/ink/rendering/bitmap.cc
+++ b/ink/rendering/bitmap.cc
@@ -38,6 +38,25 @@ bool IsValidPixelFormat(Bitmap::PixelFormat format) {
   return false;
 }
 
+bool IsValidColorFormat(Color::Format format) {
+  switch (format) {
+    case Color::Format::kLinear:
+    case Color::Format::kGammaEncoded:
+    case Color::Format::kPremultipliedAlpha:
+      return true;
+  }
+  return false;
+}
+
+bool IsValidColorSpace(ColorSpace color_space) {
+  switch (color_space) {
+    case ColorSpace::kSrgb:
+    case ColorSpace::kDisplayP3:
+      return true;
+  }
+  return false;
+}
+
 }  // namespace
 
 absl::Status ValidateBitmap(const Bitmap& bitmap) {
@@ -54,6 +73,16 @@ absl::Status ValidateBitmap(const Bitmap& bitmap) {
         absl::StrCat("`Bitmap::pixel_format` holds non-enumerator value ",
                      static_cast<int>(bitmap.pixel_format())));
   }
+  if (!IsValidColorFormat(bitmap.color_format())) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("`Bitmap::color_format` holds non-enumerator value ",
+                     static_cast<int>(bitmap.color_format())));
+  }
+  if (!IsValidColorSpace(bitmap.color_space())) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("`Bitmap::color_space` holds non-enumerator value ",
+                     static_cast<int>(bitmap.color_space())));
+  }
   size_t expected_data_size = static_cast<size_t>(bitmap.width()) *
                               static_cast<size_t>(bitmap.height()) *
                               PixelFormatBytesPerPixel(bitmap.pixel_format());
-- 
2.43.0


From 13f8253a5696e5a0d957702ef217ac72df23adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 22/34] fix: leave out outlines without any vertex that belongs
 to a triangle

---
 ink/geometry/partitioned_mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 4201951..483ff23 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -160,6 +160,9 @@ absl::StatusOr<PartitionedMesh> PartitionedMesh::FromMutableMeshGroups(
             outline_index_pairs.push_back(it->second);
           }
         }
+        // None of the outline's vertices belong to a triangle, so none of them
+        // exist in the partitioned meshes.
+        if (outline_index_pairs.empty()) group_partitioned_outlines.pop_back();
       }
     }
 
-- 
2.43.0


From bf870f018bff4dda84c91f8db686b4045f64277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 23/34] fix: shapes with only empty groups can be queried

---
 ink/geometry/partitioned_mesh.cc | 28 ++++++++++++++--------------
 ink/geometry/partitioned_mesh.h  |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 483ff23..61faaad 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -331,7 +331,7 @@ void VisitIntersectedTrianglesHelper(
 void PartitionedMesh::VisitIntersectedTriangles(
     Point query, absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -341,7 +341,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Segment& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -351,7 +351,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Triangle& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -361,7 +361,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Rect& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -371,7 +371,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Quad& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -427,7 +427,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const PartitionedMesh& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   // If `query` is empty, it can't intersect this shape.
   if (query.Meshes().empty()) return;
@@ -478,28 +478,28 @@ float ComputeCoverage(const QueryType& query,
 
 float PartitionedMesh::Coverage(const Triangle& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Rect& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Quad& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const PartitionedMesh& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
@@ -536,7 +536,7 @@ float CoverageIsGreaterThanHelper(const QueryType& query,
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Triangle& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -545,7 +545,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Rect& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -554,7 +554,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Quad& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -563,7 +563,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const PartitionedMesh& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index 34b5876..a8ee5a0 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -474,7 +474,7 @@ inline uint32_t PartitionedMesh::OutlineVertexCount(
 }
 
 inline void PartitionedMesh::InitializeSpatialIndex() {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   (void)data_->SpatialIndex();
 }
-- 
2.43.0


From 3880450934b2ab5f353c5fff79ea4191b2238472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 24/34] fix: collapse shapes whose bounds' diagonal is
 collapsed by the transform

---
 ink/geometry/internal/algorithms.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ink/geometry/internal/algorithms.cc b/ink/geometry/internal/algorithms.cc
index f82f9bd..2ff0555 100644
--- a/ink/geometry/internal/algorithms.cc
+++ b/ink/geometry/internal/algorithms.cc
@@ -243,6 +243,14 @@ Segment CalculateCollapsedSegment(
   std::array<Point, 4> corners = bounds.Corners();
   Segment transformed_diagonal =
       non_invertible_transform.Apply(Segment{corners[0], corners[2]});
+  // The transform may collapse (almost) exactly that diagonal, in which case
+  // the other one gives us the line.
+  Segment other_diagonal =
+      non_invertible_transform.Apply(Segment{corners[1], corners[3]});
+  if (transformed_diagonal.Vector().MagnitudeSquared() <
+      1e-6f * other_diagonal.Vector().MagnitudeSquared()) {
+    transformed_diagonal = other_diagonal;
+  }
 
   if (transformed_diagonal.Vector().MagnitudeSquared() == 0) {
     // The transform collapses the shape to a single point.
-- 
2.43.0


From 869baf0c26b005fdef261012f54cab85403aee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 25/34] fix: setting a stroke's own inputs keeps them

---
 ink/strokes/stroke.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ink/strokes/stroke.cc b/ink/strokes/stroke.cc
index cd6ad7f..666adda 100644
--- a/ink/strokes/stroke.cc
+++ b/ink/strokes/stroke.cc
@@ -125,8 +125,7 @@ absl::Status Stroke::SetBrushEpsilon(float epsilon) {
 }
 
 void Stroke::SetInputs(const StrokeInputBatch& inputs) {
-  inputs_.Clear();
-  ABSL_CHECK_OK(inputs_.Append(inputs));
+  inputs_ = inputs;
   RegenerateShape();
 }
 
-- 
2.43.0


From 73198822bc3558dc2e6c359ff7a1515af009e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 26/34] fix: predicted inputs whose geometry is dropped do not
 remain in the stroke

---
 ink/strokes/in_progress_stroke.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index fb38212..509f9d3 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -122,11 +122,9 @@ absl::Status InProgressStroke::UpdateShape(Duration32 current_elapsed_time) {
       !status.ok()) {
     return status;
   }
-  if (inputs_are_finished_ || !queued_real_inputs_.IsEmpty() ||
-      !queued_predicted_inputs_.IsEmpty()) {
-    // Erase any old predicted inputs.
-    processed_inputs_.Erase(real_input_count_);
-  }
+  // Erase any old predicted inputs. The `shape_builders_` always replace the
+  // geometry of old predicted inputs, even if there are no new inputs.
+  processed_inputs_.Erase(real_input_count_);
 
   if (absl::Status status = processed_inputs_.Append(queued_real_inputs_);
       !status.ok()) {
@@ -168,6 +166,10 @@ bool InProgressStroke::NeedsUpdate() const {
   if (!queued_real_inputs_.IsEmpty() || !queued_predicted_inputs_.IsEmpty()) {
     return true;
   }
+  // Predicted inputs must not remain in a stroke whose inputs are finished.
+  if (inputs_are_finished_ && PredictedInputCount() > 0) {
+    return true;
+  }
   uint32_t num_coats = BrushCoatCount();
   for (uint32_t coat_index = 0; coat_index < num_coats; ++coat_index) {
     if (shape_builders_[coat_index].HasUnfinishedTimeBehaviors()) {
-- 
2.43.0


From fc000ac678d282d7fb1adfec44fbbc5191442c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 27/34] fix: report the position of an intersection with a
 degenerate outline

---
 .../internal/brush_tip_extruder/directed_partial_outline.cc      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc b/ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc
index 0a230ec..e89f5af 100644
--- a/ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc
+++ b/ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc
@@ -136,6 +136,7 @@ OutlineIntersectionResult FindOutlineIntersection(
         LegacyIntersection(outline_segment, segment);
     if (result.has_value()) {
       OutlineIntersectionResult::SegmentIntersection intersection = {
+          .position = last_position,
           .starting_index = outline.Size() - 1,
           .ending_index = outline.Size() - 1,
           .outline_interpolation_value = result->segment1_interval[0],
-- 
2.43.0


From 3369a4219d3a13229ebbef2cba6ea8b3abd91bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:10 +0000
Subject: [PATCH 28/34] fix: processing short polylines and polylines with
 repeated points

---
 ink/geometry/internal/polyline_processing.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/polyline_processing.cc b/ink/geometry/internal/polyline_processing.cc
index 0fb87f4..ab7c531 100644
--- a/ink/geometry/internal/polyline_processing.cc
+++ b/ink/geometry/internal/polyline_processing.cc
@@ -396,7 +396,18 @@ std::vector<Point> ProcessPolylineForMeshCreation(
     absl::Span<const Point> points, float min_walk_distance,
     float max_connection_distance, float min_connection_ratio,
     float min_trimming_ratio) {
-  PolylineData polyline = CreateNewPolylineData(points);
+  // Repeated points would make zero-length segments, across which the segments
+  // before and after would appear to intersect each other.
+  std::vector<Point> distinct_points(points.begin(), points.end());
+  distinct_points.erase(
+      std::unique(distinct_points.begin(), distinct_points.end()),
+      distinct_points.end());
+  // There is nothing to intersect or to connect to with fewer than 3 segments.
+  if (distinct_points.size() < 4) {
+    return std::vector<Point>(points.begin(), points.end());
+  }
+
+  PolylineData polyline = CreateNewPolylineData(distinct_points);
 
   polyline.min_walk_distance = min_walk_distance;
   polyline.max_connection_distance = max_connection_distance;
@@ -407,7 +418,10 @@ std::vector<Point> ProcessPolylineForMeshCreation(
                                                            segment_bounds);
   FindFirstAndLastIntersections(rtree, polyline);
   FindBestEndpointConnections(rtree, polyline);
-  return CreateNewPolylineFromPolylineData(polyline, points);
+  if (!polyline.has_intersection) {
+    return std::vector<Point>(points.begin(), points.end());
+  }
+  return CreateNewPolylineFromPolylineData(polyline, distinct_points);
 }
 
 }  // namespace ink::geometry_internal
-- 
2.43.0


From c1dd88b84dd66a467c7e6cf289b77f1cc090b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:10 +0000
Subject: [PATCH 29/34] fix: an arc of length zero with a tiny chord height
 takes one step

---
 ink/geometry/internal/circle.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/circle.cc b/ink/geometry/internal/circle.cc
index 28840e2..bc1c563 100644
--- a/ink/geometry/internal/circle.cc
+++ b/ink/geometry/internal/circle.cc
@@ -41,9 +41,13 @@ void Circle::AppendArcToPolyline(Angle start, Angle arc_angle,
 
   Angle max_step_angle = GetArcAngleForChordHeight(max_chord_height);
 
+  // An arc of length zero always takes one step. Note that `max_step_angle` may
+  // be zero as well, if the chord height is very small relative to the radius.
   int32_t steps =
-      std::clamp<float>(std::ceil(std::abs(arc_angle / max_step_angle)), 1,
-                        std::numeric_limits<int16_t>::max());
+      arc_angle == Angle()
+          ? 1
+          : std::clamp<float>(std::ceil(std::abs(arc_angle / max_step_angle)),
+                              1, std::numeric_limits<int16_t>::max());
   Angle step_angle = arc_angle / steps;
 
   // We do not call `vector::reserve` because we expect cases with multiple
-- 
2.43.0


From e88615c14c208d3ee439969caf9d6749994262ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 30/34] fix: combine circles of a brush tip that slant or
 precision loss brings together

---
 ink/strokes/internal/brush_tip_shape.cc | 59 +++++++++++++++----------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 13a5536..40fd7d3 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <initializer_list>
 #include <limits>
 #include <optional>
 #include <tuple>
@@ -98,26 +99,44 @@ SmallArray<Circle, 4> MakeShapeControlCircles(
   AffineTransform rotate_and_translate =
       AffineTransform::Translate(tip_state.position.Offset()) *
       AffineTransform::Rotate(tip_state.rotation);
-  auto make_circle = [&rotate_and_translate, &slant,
-                      radius](Point circle_center) {
-    Point center_with_slant =
-        slant.Apply(Point{0, circle_center.y}) + Vec{circle_center.x, 0};
-    return Circle(rotate_and_translate.Apply(center_with_slant), radius);
+  // Slant can bring circles closer together than the threshold, in which case
+  // they are combined as well. This allows for some rounding error, so that
+  // circles that are just separated enough before applying slant are kept.
+  float min_separation_after_slant = 0.999f * min_nonzero_radius_and_separation;
+  auto make_circles = [&](std::initializer_list<Point> circle_centers) {
+    absl::InlinedVector<Point, 4> centers_with_slant;
+    absl::InlinedVector<Circle, 4> circles;
+    for (Point circle_center : circle_centers) {
+      Point center_with_slant =
+          slant.Apply(Point{0, circle_center.y}) + Vec{circle_center.x, 0};
+      Circle circle(rotate_and_translate.Apply(center_with_slant), radius);
+
+      bool should_combine = false;
+      for (size_t i = 0; i < circles.size(); ++i) {
+        // Circles far away from the origin may also end up in the same place
+        // due to precision loss; circles of the same shape must never contain
+        // one another.
+        if ((center_with_slant - centers_with_slant[i]).Magnitude() <
+                min_separation_after_slant ||
+            circles[i].Contains(circle)) {
+          should_combine = true;
+          break;
+        }
+      }
+      if (should_combine) continue;
+      centers_with_slant.push_back(center_with_slant);
+      circles.push_back(circle);
+    }
+    return SmallArray<Circle, 4>(absl::MakeConstSpan(circles));
   };
 
   // When exactly one of `x` and `y` is zero, the shape is a stadium made with
   // only two circles:
   if (y == 0) {
-    return {
-        make_circle({x, 0}),
-        make_circle({-x, 0}),
-    };
+    return make_circles({{x, 0}, {-x, 0}});
   }
   if (x == 0) {
-    return {
-        make_circle({0, y}),
-        make_circle({0, -y}),
-    };
+    return make_circles({{0, y}, {0, -y}});
   }
 
   // The value of `x` after applying `tip_state.pinch`, which moves closer
@@ -127,20 +146,12 @@ SmallArray<Circle, 4> MakeShapeControlCircles(
   // If `x_after_pinch` falls below the minimum separatation, the shape should
   // be a rounded-triangle:
   if (2 * x_after_pinch < min_nonzero_radius_and_separation) {
-    return {
-        make_circle({x, y}),
-        make_circle({-x, y}),
-        make_circle({0, -y}),
-    };
+    return make_circles({{x, y}, {-x, y}, {0, -y}});
   }
 
   // The shape uses all four control circles for a rounded trapezoid.
-  return {
-      make_circle({x, y}),
-      make_circle({-x, y}),
-      make_circle({-x_after_pinch, -y}),
-      make_circle({x_after_pinch, -y}),
-  };
+  return make_circles(
+      {{x, y}, {-x, y}, {-x_after_pinch, -y}, {x_after_pinch, -y}});
 }
 
 }  // namespace
-- 
2.43.0


From 41f9ae7feb91e3e663ac2e7ccd77877e7836a2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 31/34] fix: tips that touch from the inside have no tangents

---
 ink/strokes/internal/brush_tip_extrusion.cc | 43 +++++++++++++++------
 ink/strokes/internal/brush_tip_shape.cc     | 25 ++++++------
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index a720bfa..a1ffc55 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -89,17 +89,6 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   BrushTipShape::TangentCircleIndices indices =
       BrushTipShape::GetTangentCircleIndices(first, second);
 
-  // If the first circle is immediately *clockwise* to the last circle for
-  // each shape, then all circles contribute to the boundary of the joined
-  // shape and there are no unused circles.
-  // NOMUTANTS -- This is just a short-circuit for performance.
-  if (first.GetNextPerimeterIndexCw(indices.left.first) ==
-          indices.right.first &&
-      second.GetNextPerimeterIndexCw(indices.right.second) ==
-          indices.left.second) {
-    return BrushTipExtrusion::TangentQuality::kGoodTangents;
-  }
-
   // In order to avoid false-negatives from `RoundedPolygon::ContainsCircle` due
   // to floating-point precision issues, we enlarge the joined shape by a small
   // amount.
@@ -112,6 +101,38 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
        std::abs(second_bounds.YMin()), std::abs(second_bounds.YMax())});
   float offset = 1e-6 * max_absolute_coordinate;
 
+  // If one shape touches the boundary of the other from the inside, then the
+  // checks for containment above might have missed that, also due to
+  // floating-point precision issues. In that case, the tangents may not exist.
+  auto tangents_exist = [offset](const Circle& c1, const Circle& c2) {
+    Circle c1_with_offset(c1.Center(), c1.Radius() + offset);
+    Circle c2_with_offset(c2.Center(), c2.Radius() + offset);
+    return !c1.Contains(c2) && !c2.Contains(c1) &&
+           !c1_with_offset.Contains(c2_with_offset) &&
+           !c2_with_offset.Contains(c1_with_offset);
+  };
+  if (!tangents_exist(first.PerimeterCircles()[indices.left.first],
+                      second.PerimeterCircles()[indices.left.second]) ||
+      !tangents_exist(first.PerimeterCircles()[indices.right.first],
+                      second.PerimeterCircles()[indices.right.second])) {
+    return first_bounds.Area() >= second_bounds.Area()
+               ? BrushTipExtrusion::TangentQuality::
+                     kNoTangentsFirstContainsSecond
+               : BrushTipExtrusion::TangentQuality::
+                     kNoTangentsSecondContainsFirst;
+  }
+
+  // If the first circle is immediately *clockwise* to the last circle for
+  // each shape, then all circles contribute to the boundary of the joined
+  // shape and there are no unused circles.
+  // NOMUTANTS -- This is just a short-circuit for performance.
+  if (first.GetNextPerimeterIndexCw(indices.left.first) ==
+          indices.right.first &&
+      second.GetNextPerimeterIndexCw(indices.right.second) ==
+          indices.left.second) {
+    return BrushTipExtrusion::TangentQuality::kGoodTangents;
+  }
+
   // Construct the joined shape, with the offset.
   RoundedPolygon joined_shape =
       ConstructJoinedShape(first, second, indices, offset);
diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 40fd7d3..7bf16fd 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -341,11 +341,10 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
         GetLeftmostTurningIndex(first.circles_[0], forward, second, -kHalfTurn);
     std::optional<int> second_right =
         GetRightmostTurningIndex(first.circles_[0], forward, second, kHalfTurn);
-    // It should be impossible for the second indices to not have a value with
-    // the relaxed threshold and limit angles. At least one perimeter circle in
-    // `second` should not be traveling backwards relative to `forward`.
-    ABSL_DCHECK(second_left.has_value());
-    ABSL_DCHECK(second_right.has_value());
+    // The second indices should have a value with the relaxed threshold and
+    // limit angles. At least one perimeter circle in `second` should not be
+    // traveling backwards relative to `forward`. The exception are shapes that
+    // touch each other from the inside to within floating-point precision.
 
     return TangentCircleIndices{std::make_pair(0, second_left.value_or(0)),
                                 std::make_pair(0, second_right.value_or(0))};
@@ -397,10 +396,10 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // find an index on `second`.
     std::optional<int> index_on_second = GetLeftmostTurningIndex(
         first.circles_[indices.left.first], forward, second, -kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
-    ABSL_DCHECK(index_on_second.has_value());
+    // The second index should have a value. At least one control point in
+    // second should not be traveling backwards from the rearmost control point
+    // in `first`. The exception are shapes that touch each other from the inside
+    // to within floating-point precision.
     indices.left.second = index_on_second.value_or(0);
   }
 
@@ -433,10 +432,10 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // index on `second`.
     std::optional<int> index_on_second = GetRightmostTurningIndex(
         first.circles_[indices.right.first], forward, second, kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
-    ABSL_DCHECK(index_on_second.has_value());
+    // The second index should have a value. At least one control point in
+    // second should not be traveling backwards from the rearmost control point
+    // in `first`. The exception are shapes that touch each other from the inside
+    // to within floating-point precision.
     indices.right.second = index_on_second.value_or(0);
   }
 
-- 
2.43.0


From 50e6fa57605594cdbe68345ab28904d46ef892d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 32/34] fix: circles beyond the ends of a stadium-shaped
 RoundedPolygon are not contained

---
 ink/strokes/internal/rounded_polygon.cc | 54 ++++++++++++++++---------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/ink/strokes/internal/rounded_polygon.cc b/ink/strokes/internal/rounded_polygon.cc
index 0c3d154..b5f7422 100644
--- a/ink/strokes/internal/rounded_polygon.cc
+++ b/ink/strokes/internal/rounded_polygon.cc
@@ -76,33 +76,44 @@ namespace {
 // nothing is between the arcs and this returns `std::nullopt`.
 std::optional<float> SignedDistanceToArc(const RoundedPolygon::Arc& arc,
                                          Point point) {
-  // Check if `point` is between the two aforementioned rays.
+  // Check if `point` is between the two aforementioned rays. The rays are moved
+  // apart slightly, so that points on one of them do not end up neither between
+  // the rays nor beside the adjacent segment due to floating-point precision.
+  constexpr float kTolerance = 5e-6;
   Vec circle_center_to_point_vector = point - arc.circle.Center();
+  float distance_to_center = circle_center_to_point_vector.Magnitude();
+  bool is_left_of_start =
+      Vec::Determinant(arc.start_unit_vector, circle_center_to_point_vector) >=
+      -kTolerance * distance_to_center;
+  bool is_right_of_end =
+      Vec::Determinant(arc.end_unit_vector, circle_center_to_point_vector) <=
+      kTolerance * distance_to_center;
   float arc_vector_det =
       Vec::Determinant(arc.start_unit_vector, arc.end_unit_vector);
-  if (std::abs(arc_vector_det) < 5e-6) {
-    // The start and end vector are sufficiently close that we consider there to
-    // be no arc. This includes the case where the arc nominally loops all the
-    // way around, which can occur due to floating-point precision loss.
-    return std::nullopt;
+  if (std::abs(arc_vector_det) < kTolerance) {
+    // If the vectors point in opposite directions, then the arc is a half-turn,
+    // as in a shape made from two circles of the same radius; `point` is inside
+    // if it is left of `arc.start_unit_vector`. Otherwise, the start and end
+    // vector are sufficiently close that we consider there to be no arc. This
+    // includes the case where the arc nominally loops all the way around, which
+    // can occur due to floating-point precision loss.
+    if (Vec::DotProduct(arc.start_unit_vector, arc.end_unit_vector) > 0 ||
+        !is_left_of_start) {
+      return std::nullopt;
+    }
   } else if (arc_vector_det < 0) {
     // This is a major arc (i.e. it winds around the long way); `point` is
     // inside if it is left of `arc.start_unit_vector` *or* right of
     // `arc.end_unit_vector`.
-    if (Vec::Determinant(arc.start_unit_vector, circle_center_to_point_vector) <
-            0 &&
-        Vec::Determinant(arc.end_unit_vector, circle_center_to_point_vector) >
-            0) {
-      return std::nullopt;
-    }
+    if (!is_left_of_start && !is_right_of_end) return std::nullopt;
   } else {
     // This is a minor arc (i.e. it winds around the short way); `point` is
     // inside if it is left of `arc.start_unit_vector` *and* right of
-    // `arc.end_unit_vector`.
-    if (Vec::Determinant(arc.start_unit_vector, circle_center_to_point_vector) <
-            0 ||
-        Vec::Determinant(arc.end_unit_vector, circle_center_to_point_vector) >
-            0) {
+    // `arc.end_unit_vector`. Points on the opposite side of the circle can only
+    // satisfy both because of the tolerance.
+    if (!is_left_of_start || !is_right_of_end ||
+        Vec::DotProduct(arc.start_unit_vector + arc.end_unit_vector,
+                        circle_center_to_point_vector) < 0) {
       return std::nullopt;
     }
   }
@@ -110,7 +121,7 @@ std::optional<float> SignedDistanceToArc(const RoundedPolygon::Arc& arc,
   // `point` is inside the circular sector; the distance from `point` to the arc
   // is equal to the distance from `point` to the circle's center minus the
   // circle's radius.
-  return circle_center_to_point_vector.Magnitude() - arc.circle.Radius();
+  return distance_to_center - arc.circle.Radius();
 }
 
 // Returns the signed distance from `point` to `segment` if the projection of
@@ -119,9 +130,14 @@ std::optional<float> SignedDistanceToArc(const RoundedPolygon::Arc& arc,
 // returns `std::nullopt`.
 std::optional<float> SignedDistanceToSegment(const Segment& segment,
                                              Point point) {
+  // As above, allow for a small tolerance, so that there is no gap between a
+  // segment and what is next to it.
+  constexpr float kTolerance = 5e-6;
   std::optional<float> projection = segment.Project(point);
-  if (!projection.has_value() || *projection < 0 || *projection > 1)
+  if (!projection.has_value() || *projection < -kTolerance ||
+      *projection > 1 + kTolerance) {
     return std::nullopt;
+  }
 
   return -Vec::Determinant(segment.Vector(), point - segment.start) /
          segment.Length();
-- 
2.43.0


From 6b6a287f4ff145e8775c9adfd494b83956a3cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:55 +0000
Subject: [PATCH 33/34] hook: INK_VERIFY_MAX_VERTICES_PER_PARTITION lowers the
 partition size for verification

---
 ink/geometry/internal/mesh_packing.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 3843904..da316de 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -786,6 +786,10 @@ SmallArray<float, 4> ReadUnpackedFloatAttributeFromByteArray(
 absl::InlinedVector<PartitionInfo, 1> PartitionTriangles(
     absl::Span<const std::byte> index_data,
     MeshFormat::IndexFormat index_format, uint64_t max_vertices_per_partition) {
+#ifdef INK_VERIFY_MAX_VERTICES_PER_PARTITION
+  // Lets verification code reach meshes of several partitions with few vertices.
+  max_vertices_per_partition = INK_VERIFY_MAX_VERTICES_PER_PARTITION;
+#endif
   uint8_t index_stride = MeshFormat::UnpackedIndexSize(index_format);
   ABSL_DCHECK(index_stride == 2 || index_stride == 4);
   ABSL_DCHECK_EQ(index_data.size() % (3 * index_stride), 0);
-- 
2.43.0


From 2c93505ab7890c2389580c033172905b74a01bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 34/34] fix: uniform data for specifications without uniforms

---
 ink/rendering/skia/native/internal/mesh_uniform_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/rendering/skia/native/internal/mesh_uniform_data.cc b/ink/rendering/skia/native/internal/mesh_uniform_data.cc
index 2383278..f8fafe4 100644
--- a/ink/rendering/skia/native/internal/mesh_uniform_data.cc
+++ b/ink/rendering/skia/native/internal/mesh_uniform_data.cc
@@ -154,6 +154,7 @@ MeshUniformData::MeshUniformData(
     absl::FunctionRef<const MeshAttributeCodingParams&(int)>
         get_attribute_unpacking_transform)
     : MeshUniformData(spec) {
+  if (data_ == nullptr) return;
   InitializeAttributeUnpackingTransforms(spec, ink_attributes,
                                          get_attribute_unpacking_transform,
                                          data_->writable_data());
-- 
2.43.0

