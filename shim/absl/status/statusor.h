#pragma once
#include <optional>
#include <utility>
#include "absl/status/status.h"
namespace absl {
template <class T> class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown, {}) {}
  StatusOr(const Status& s) : s_(s) { if (s.ok()) __vp_check_failed("StatusOr from OK status"); }
  template <class U = T, std::enable_if_t<std::is_convertible_v<U&&, T> && !std::is_same_v<std::decay_t<U>, Status> && !std::is_same_v<std::decay_t<U>, StatusOr>, int> = 0>
  StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <class U, std::enable_if_t<std::is_convertible_v<const U&, T> && !std::is_same_v<U, T>, int> = 0>
  StatusOr(const StatusOr<U>& o) : s_(o.status()) { if (o.ok()) v_.emplace(*o); }
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  const T& value() const& { C(); return *v_; }
  T& value() & { C(); return *v_; }
  T&& value() && { C(); return std::move(*v_); }
  const T& operator*() const& { C(); return *v_; }
  T& operator*() & { C(); return *v_; }
  T&& operator*() && { C(); return std::move(*v_); }
  const T* operator->() const { C(); return &*v_; }
  T* operator->() { C(); return &*v_; }
  template <class U> T value_or(U&& u) const { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <class... A> T& emplace(A&&... a) { s_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
 private:
  void C() const { if (!s_.ok()) __vp_check_failed("StatusOr value() on error"); }
  Status s_; std::optional<T> v_;
};
}
