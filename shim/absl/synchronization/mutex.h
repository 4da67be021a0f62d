#pragma once
#include <condition_variable>
#include <mutex>
namespace absl {
// On std primitives, which the simulator schedules (the library's own ones use
// raw futexes).
class Mutex { public: void Lock() { m.lock(); } void Unlock() { m.unlock(); } bool TryLock() { return m.try_lock(); } std::mutex m; };
class MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); } ~MutexLock() { m_->Unlock(); } private: Mutex* m_; };
}  // namespace absl
