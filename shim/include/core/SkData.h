// Stand-in for Skia's reference counted byte buffers.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include "include/core/SkRefCnt.h"
class SkData {
 public:
  static sk_sp<SkData> MakeUninitialized(size_t n) { SkData* d = new SkData; d->n_ = n; d->b_ = (uint8_t*)malloc(n); memset(d->b_, 0xEE, n); return sk_sp<SkData>(d); }
  static sk_sp<SkData> MakeWithCopy(const void* p, size_t n) { sk_sp<SkData> d = MakeUninitialized(n); memcpy(d->b_, p, n); return d; }
  const uint8_t* bytes() const { return b_; } const void* data() const { return b_; } void* writable_data() { return b_; } size_t size() const { return n_; } bool unique() const { return c_ == 1; }
  void ref() const { ++c_; } void unref() const { if (--c_ == 0) { free(b_); delete this; } }
 private:
  uint8_t* b_ = nullptr; size_t n_ = 0; mutable int c_ = 1;
};
