#pragma once
#include "include/core/SkMesh.h"
struct SkBlender : SkCounted {};
