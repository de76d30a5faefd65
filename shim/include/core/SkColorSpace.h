#pragma once
#include "include/core/SkMesh.h"
struct SkColorSpace : SkCounted { int kind = 0; static sk_sp<SkColorSpace> MakeSRGBLinear() { SkColorSpace* s = new SkColorSpace; s->kind = 1; return sk_sp<SkColorSpace>(s); } static sk_sp<SkColorSpace> MakeSRGB() { SkColorSpace* s = new SkColorSpace; s->kind = 2; return sk_sp<SkColorSpace>(s); } };
