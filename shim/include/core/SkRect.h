#pragma once
struct SkRect { float fLeft = 0, fTop = 0, fRight = 0, fBottom = 0; };
