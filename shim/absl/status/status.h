#pragma once
#include <string>
#include <string_view>
#include "absl/strings/string_view.h"
#include "absl/log/absl_check.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
class [[nodiscard]] Status {
 public:
  Status() = default;
  Status(StatusCode c, string_view) : code_(c) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  string_view message() const { return {}; }
  std::string ToString() const { return {}; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_; }
  template <class S> friend void AbslStringify(S&, const Status&) {}
 private:
  StatusCode code_ = StatusCode::kOk;
};
inline Status OkStatus() { return Status(); }
#define VP_ERR(N) template <class T> inline Status N##Error(const T&) { return Status(StatusCode::k##N, {}); } inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
VP_ERR(Cancelled) VP_ERR(Unknown) VP_ERR(InvalidArgument) VP_ERR(NotFound) VP_ERR(AlreadyExists) VP_ERR(FailedPrecondition) VP_ERR(OutOfRange) VP_ERR(Unimplemented) VP_ERR(Internal) VP_ERR(ResourceExhausted) VP_ERR(Aborted) VP_ERR(Unavailable) VP_ERR(DataLoss)
#undef VP_ERR
}
