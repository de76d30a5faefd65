#pragma once
#include <utility>
namespace absl { template <class F> class Cleanup { public: Cleanup(F f) : f_(std::move(f)) {} Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; } ~Cleanup() { if (on_) f_(); } void Cancel() && { on_ = false; } private: F f_; bool on_ = true; }; template <class F> Cleanup(F) -> Cleanup<F>; template <class F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); } }
