#pragma once
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
class StrokeModeler { public: absl::Status Reset(const StrokeModelParams& p); absl::Status Update(const Input& i, std::vector<Result>& r); void Save(); void Restore(); };
}  // namespace ink::stroke_model
