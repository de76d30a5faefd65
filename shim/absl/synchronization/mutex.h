#pragma once
#include "absl/base/thread_annotations.h"
#include "vp.h"
// Stand-in for one thread at a time. Every acquisition is a scheduling point:
// a harness may install a hook that lets another thread's call run there.
// Acquiring a held mutex (which would deadlock) is reported.
namespace absl {
inline void (*vp_lock_hook)() = nullptr;
class Mutex {
 public:
  ~Mutex() { __vp_assert(!held_, "mutex is not destroyed while held"); }
  void Lock() { if (vp_lock_hook && !held_) vp_lock_hook(); __vp_assert(!held_, "mutex is not acquired twice"); held_ = true; }
  void Unlock() { __vp_assert(held_, "only held mutexes are released"); held_ = false; if (vp_lock_hook) vp_lock_hook(); }
  void ReaderLock() { Lock(); } void ReaderUnlock() { Unlock(); } void AssertHeld() const { __vp_assert(held_, "mutex is held"); }
  void lock() { Lock(); } void unlock() { Unlock(); }
 private:
  bool held_ = false;
};
class MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); } explicit MutexLock(Mutex& m) : MutexLock(&m) {} MutexLock(const MutexLock&) = delete; ~MutexLock() { m_->Unlock(); } private: Mutex* m_; };
using ReaderMutexLock = MutexLock; using WriterMutexLock = MutexLock;
}  // namespace absl
