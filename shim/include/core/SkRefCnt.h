// Stand-in for Skia's intrusive pointer (Skia is not available here): same meaning, plain counts.
#pragma once
#include <cstddef>
#include <utility>
template <typename T> class sk_sp {
 public:
  sk_sp() = default; sk_sp(std::nullptr_t) {} explicit sk_sp(T* p) : p_(p) {}
  sk_sp(const sk_sp& o) : p_(o.p_) { if (p_) p_->ref(); } sk_sp(sk_sp&& o) : p_(o.p_) { o.p_ = nullptr; }
  template <typename U> sk_sp(const sk_sp<U>& o) : p_(o.get()) { if (p_) p_->ref(); }
  sk_sp& operator=(const sk_sp& o) { sk_sp c(o); std::swap(p_, c.p_); return *this; } sk_sp& operator=(sk_sp&& o) { std::swap(p_, o.p_); return *this; }
  ~sk_sp() { if (p_) p_->unref(); }
  T* get() const { return p_; } T* operator->() const { return p_; } T& operator*() const { return *p_; } explicit operator bool() const { return p_ != nullptr; } void reset() { *this = sk_sp(); }
  friend bool operator==(const sk_sp& a, std::nullptr_t) { return a.p_ == nullptr; } friend bool operator!=(const sk_sp& a, std::nullptr_t) { return a.p_ != nullptr; }
 private:
  T* p_ = nullptr;
};
