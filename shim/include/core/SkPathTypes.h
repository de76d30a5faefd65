#pragma once
enum class SkPathFillType { kWinding, kEvenOdd, kInverseWinding, kInverseEvenOdd };
