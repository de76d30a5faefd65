#pragma once
#include "include/core/SkMesh.h"
struct SkShader : SkCounted {};
