// Declarations of the parts of the external ink-stroke-modeler library that
// google/ink uses (the library itself is not available offline). The methods of
// StrokeModeler are defined by the harness that needs them.
#pragma once
#include <vector>

#include "absl/status/status.h"
namespace ink::stroke_model {
struct Vec2 { float x = 0, y = 0; };
class Duration { public: Duration() = default; explicit Duration(double v) : v_(v) {} double Value() const { return v_; } private: double v_ = 0; };
class Time { public: Time() = default; explicit Time(double v) : v_(v) {} double Value() const { return v_; } private: double v_ = 0; };
struct Input { enum class EventType { kDown, kMove, kUp }; EventType event_type; Vec2 position; Time time; float pressure = -1; float tilt = -1; float orientation = -1; };
struct Result { Vec2 position; Vec2 velocity; Vec2 acceleration; Time time; float pressure = -1; float tilt = -1; float orientation = -1; };
}  // namespace ink::stroke_model
