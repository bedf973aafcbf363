// absl::Mutex and friends on top of the standard library, for the builds whose
// race detector cannot see into the prebuilt abseil. Every lock and unlock is
// also a point where the harness may perturb the schedule.
#ifndef VERIF_SHIM_SYNC_H_
#define VERIF_SHIM_SYNC_H_

// Force-included. The real headers come first: abseil's own types keep using abseil's own mutex.
#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "absl/synchronization/blocking_counter.h"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>

#include "absl/base/attributes.h"
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/node_hash_map.h"
#include "absl/random/random.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"

// The installed protobuf was built without the detector, which changes the
// layout of map fields.
#include <map>
#include <mutex>
#include <string>
#include <unordered_map>
#include <vector>
#undef __SANITIZE_THREAD__
#include "google/protobuf/map_field.h"
#include "google/protobuf/map_field_inl.h"
#include "google/protobuf/map_entry.h"
#define __SANITIZE_THREAD__ 1

namespace verif_sched {

// 0: off. Otherwise roughly one in `rate` points yields or sleeps.
inline std::atomic<uint32_t>& rate() {
  static std::atomic<uint32_t> r{0};
  return r;
}
inline std::atomic<uint64_t>& seed() {
  static std::atomic<uint64_t> s{1};
  return s;
}
inline std::atomic<uint64_t>& points() {
  static std::atomic<uint64_t> p{0};
  return p;
}
inline void Perturb() {
  uint32_t r = rate().load(std::memory_order_relaxed);
  if (r == 0) return;
  static std::atomic<uint64_t> next_thread{1};
  thread_local uint64_t state = 0;
  thread_local uint64_t state_seed = 0;
  uint64_t s = seed().load(std::memory_order_relaxed);
  if (state_seed != s) {
    state_seed = s;
    state = (s * 0x9E3779B97F4A7C15ull) ^
            (next_thread.fetch_add(1, std::memory_order_relaxed) * 0xD1B54A32D192ED03ull) | 1;
  }
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  if (state % r != 0) return;
  points().fetch_add(1, std::memory_order_relaxed);
  uint64_t kind = (state >> 32) % 8;
  if (kind < 5) {
    std::this_thread::yield();
  } else {
    std::this_thread::sleep_for(std::chrono::microseconds((state >> 40) % 120));
  }
}

}  // namespace verif_sched

namespace absl {
inline namespace verif_sync {

class VerifCondition;

namespace mutex_detail {
inline std::chrono::steady_clock::time_point ToSteady(absl::Time t) {
  absl::Duration d = t - absl::Now();
  if (d > absl::Hours(24)) d = absl::Hours(24);
  return std::chrono::steady_clock::now() + absl::ToChronoNanoseconds(d);
}
}  // namespace mutex_detail

class ABSL_LOCKABLE VerifMutex {
 public:
  VerifMutex() : core_(std::make_unique<Core>()) {}
  explicit constexpr VerifMutex(absl::ConstInitType) {}
  VerifMutex(const VerifMutex&) = delete;
  VerifMutex& operator=(const VerifMutex&) = delete;
  ~VerifMutex() = default;

  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    verif_sched::Perturb();
    core().mu.lock();
  }
  void Unlock() ABSL_UNLOCK_FUNCTION() {
    Core& c = core();
    if (c.waiters > 0) c.cv.notify_all();
    c.mu.unlock();
    verif_sched::Perturb();
  }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    return core().mu.try_lock();
  }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {}
  void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() {}
  void AssertNotHeld() const {}
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() {
    verif_sched::Perturb();
    core().mu.lock_shared();
  }
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION() {
    core().mu.unlock_shared();
    verif_sched::Perturb();
  }
  void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  inline void Await(const VerifCondition& cond);
  inline bool AwaitWithDeadline(const VerifCondition& cond, absl::Time deadline);
  bool AwaitWithTimeout(const VerifCondition& cond, absl::Duration d) {
    return AwaitWithDeadline(cond, absl::Now() + d);
  }
  void LockWhen(const VerifCondition& cond) ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    Lock();
    Await(cond);
  }

 private:
  friend class VerifCondVar;
  struct Core {
    std::shared_mutex mu;
    std::condition_variable_any cv;
    int waiters = 0;  // guarded by mu, held exclusively
  };
  Core& core() {
    // Constant-initialised mutexes get their state on first use.
    if (core_ == nullptr) {
      static std::mutex* init = new std::mutex;
      std::lock_guard<std::mutex> l(*init);
      if (late_ == nullptr) late_ = new Core;
      return *late_;
    }
    return *core_;
  }
  std::unique_ptr<Core> core_;
  Core* late_ = nullptr;
};

class VerifCondition {
 public:
  VerifCondition(bool (*func)(void*), void* arg)
      : eval_([func, arg] { return func(arg); }) {}
  template <typename T>
  VerifCondition(bool (*func)(T*), T* arg) : eval_([func, arg] { return func(arg); }) {}
  template <typename T>
  VerifCondition(T* object, bool (T::*method)())
      : eval_([object, method] { return (object->*method)(); }) {}
  template <typename T>
  VerifCondition(const T* object, bool (T::*method)() const)
      : eval_([object, method] { return (object->*method)(); }) {}
  explicit VerifCondition(const bool* cond) : eval_([cond] { return *cond; }) {}
  template <typename T, typename = decltype(static_cast<bool (T::*)() const>(&T::operator()))>
  explicit VerifCondition(const T* obj) : eval_([obj] { return (*obj)(); }) {}
  bool Eval() const { return eval_(); }

 private:
  std::function<bool()> eval_;
};

inline void VerifMutex::Await(const VerifCondition& cond) {
  Core& c = core();
  ++c.waiters;
  if (!cond.Eval()) {
    c.cv.notify_all();  // releasing the lock may satisfy another waiter
  }
  while (!cond.Eval()) c.cv.wait(c.mu);
  --c.waiters;
}

inline bool VerifMutex::AwaitWithDeadline(const VerifCondition& cond, absl::Time deadline) {
  Core& c = core();
  auto until = mutex_detail::ToSteady(deadline);
  ++c.waiters;
  bool ok;
  while (!(ok = cond.Eval())) {
    if (c.cv.wait_until(c.mu, until) == std::cv_status::timeout) {
      ok = cond.Eval();
      break;
    }
  }
  --c.waiters;
  return ok;
}

class ABSL_SCOPED_LOCKABLE VerifMutexLock {
 public:
  explicit VerifMutexLock(VerifMutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->Lock();
  }
  VerifMutexLock(VerifMutex* mu, const VerifCondition& cond) : mu_(mu) { mu_->LockWhen(cond); }
  VerifMutexLock(const VerifMutexLock&) = delete;
  ~VerifMutexLock() ABSL_UNLOCK_FUNCTION() { mu_->Unlock(); }

 private:
  VerifMutex* const mu_;
};

class ABSL_SCOPED_LOCKABLE VerifReaderMutexLock {
 public:
  explicit VerifReaderMutexLock(VerifMutex* mu) ABSL_SHARED_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->ReaderLock();
  }
  VerifReaderMutexLock(const VerifReaderMutexLock&) = delete;
  ~VerifReaderMutexLock() ABSL_UNLOCK_FUNCTION() { mu_->ReaderUnlock(); }

 private:
  VerifMutex* const mu_;
};

class ABSL_SCOPED_LOCKABLE VerifWriterMutexLock {
 public:
  explicit VerifWriterMutexLock(VerifMutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->Lock();
  }
  VerifWriterMutexLock(const VerifWriterMutexLock&) = delete;
  ~VerifWriterMutexLock() ABSL_UNLOCK_FUNCTION() { mu_->Unlock(); }

 private:
  VerifMutex* const mu_;
};

class ABSL_SCOPED_LOCKABLE VerifReleasableMutexLock {
 public:
  explicit VerifReleasableMutexLock(VerifMutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) {
    mu_->Lock();
  }
  ~VerifReleasableMutexLock() ABSL_UNLOCK_FUNCTION() {
    if (mu_ != nullptr) mu_->Unlock();
  }
  void Release() ABSL_UNLOCK_FUNCTION() {
    mu_->Unlock();
    mu_ = nullptr;
  }

 private:
  VerifMutex* mu_;
};

class ABSL_SCOPED_LOCKABLE VerifMutexLockMaybe {
 public:
  explicit VerifMutexLockMaybe(VerifMutex* mu) : mu_(mu) {
    if (mu_ != nullptr) mu_->Lock();
  }
  ~VerifMutexLockMaybe() {
    if (mu_ != nullptr) mu_->Unlock();
  }

 private:
  VerifMutex* const mu_;
};

class VerifCondVar {
 public:
  VerifCondVar() = default;
  VerifCondVar(const VerifCondVar&) = delete;
  void Wait(VerifMutex* mu) {
    auto& c = mu->core();
    if (c.waiters > 0) c.cv.notify_all();
    cv_.wait(c.mu);
  }
  bool WaitWithDeadline(VerifMutex* mu, absl::Time deadline) {
    auto& c = mu->core();
    if (c.waiters > 0) c.cv.notify_all();
    return cv_.wait_until(c.mu, mutex_detail::ToSteady(deadline)) ==
           std::cv_status::timeout;
  }
  bool WaitWithTimeout(VerifMutex* mu, absl::Duration d) {
    return WaitWithDeadline(mu, absl::Now() + d);
  }
  void Signal() { cv_.notify_one(); }
  void SignalAll() { cv_.notify_all(); }

 private:
  std::condition_variable_any cv_;
};



class VerifNotification {
 public:
  VerifNotification() = default;
  explicit VerifNotification(bool prenotify) : done_(prenotify) {}
  VerifNotification(const VerifNotification&) = delete;
  ~VerifNotification() { VerifMutexLock l(&mu_); }
  bool HasBeenNotified() const {
    VerifMutexLock l(&mu_);
    return done_;
  }
  void WaitForNotification() const {
    VerifMutexLock l(&mu_);
    mu_.Await(VerifCondition(&done_));
  }
  bool WaitForNotificationWithTimeout(absl::Duration d) const {
    VerifMutexLock l(&mu_);
    return mu_.AwaitWithTimeout(VerifCondition(&done_), d);
  }
  bool WaitForNotificationWithDeadline(absl::Time t) const {
    VerifMutexLock l(&mu_);
    return mu_.AwaitWithDeadline(VerifCondition(&done_), t);
  }
  void Notify() {
    VerifMutexLock l(&mu_);
    done_ = true;
  }

 private:
  mutable VerifMutex mu_;
  bool done_ = false;
};



class VerifBlockingCounter {
 public:
  explicit VerifBlockingCounter(int n) : count_(n), done_(n == 0) {}
  VerifBlockingCounter(const VerifBlockingCounter&) = delete;
  bool DecrementCount() {
    VerifMutexLock l(&mu_);
    done_ = --count_ == 0;
    return done_;
  }
  void Wait() {
    VerifMutexLock l(&mu_);
    mu_.Await(VerifCondition(&done_));
  }

 private:
  VerifMutex mu_;
  int count_;
  bool done_;
};

}  // namespace verif_sync
}  // namespace absl


#define Mutex VerifMutex
#define MutexLock VerifMutexLock
#define ReaderMutexLock VerifReaderMutexLock
#define WriterMutexLock VerifWriterMutexLock
#define ReleasableMutexLock VerifReleasableMutexLock
#define MutexLockMaybe VerifMutexLockMaybe
#define CondVar VerifCondVar
#define Condition VerifCondition
#define Notification VerifNotification
#define BlockingCounter VerifBlockingCounter

#endif  // VERIF_SHIM_SYNC_H_
