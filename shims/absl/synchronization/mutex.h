// Adds the by-reference scoped-lock constructors of newer Abseil. In the TSan
// build absl::Mutex is replaced by a std:: mutex, because apt's libabsl is not
// instrumented and its synchronisation would be invisible to the detector.
#ifndef VERIF_SHIM_MUTEX_H_
#define VERIF_SHIM_MUTEX_H_
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VERIF_TSAN_MUTEX 1
#endif
#endif
#ifdef VERIF_TSAN_MUTEX
#include <shared_mutex>
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
namespace absl {
class ABSL_LOCKABLE VerifMutex {
 public:
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { m_.lock_shared(); }
  void ReaderUnlock() { m_.unlock_shared(); }
  void WriterLock() { m_.lock(); }
  void WriterUnlock() { m_.unlock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
 private:
  std::shared_mutex m_;
};
#define Mutex VerifMutex
}
#else
#include_next "absl/synchronization/mutex.h"
#endif
namespace absl {
class VerifMutexLock {
 public:
  explicit VerifMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit VerifMutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  VerifMutexLock(const VerifMutexLock&) = delete;
  ~VerifMutexLock() { m_->Unlock(); }
 private:
  Mutex* m_;
};
class VerifReaderMutexLock {
 public:
  explicit VerifReaderMutexLock(Mutex* m) : m_(m) { m_->ReaderLock(); }
  explicit VerifReaderMutexLock(Mutex& m) : m_(&m) { m_->ReaderLock(); }
  VerifReaderMutexLock(const VerifReaderMutexLock&) = delete;
  ~VerifReaderMutexLock() { m_->ReaderUnlock(); }
 private:
  Mutex* m_;
};
}
#define MutexLock VerifMutexLock
#define WriterMutexLock VerifMutexLock
#define ReaderMutexLock VerifReaderMutexLock
#endif
