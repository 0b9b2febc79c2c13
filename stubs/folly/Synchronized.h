#pragma once
#include <condition_variable>
#include <mutex>
#include <utility>
namespace folly {
// readers share, a writer is alone
class SharedMutex {
 public:
  void lock() {
    std::unique_lock<std::mutex> l(m_);
    waiting_++;
    cv_.wait(l, [&] { return !writer_ && !readers_; });
    waiting_--;
    writer_ = true;
  }
  void unlock() {
    {
      std::lock_guard<std::mutex> l(m_);
      writer_ = false;
    }
    cv_.notify_all();
  }
  void lock_shared() {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [&] { return !writer_ && !waiting_; });
    readers_++;
  }
  void unlock_shared() {
    bool last;
    {
      std::lock_guard<std::mutex> l(m_);
      last = !--readers_;
    }
    if (last) cv_.notify_all();
  }

 private:
  std::mutex m_;
  std::condition_variable cv_;
  int readers_ = 0, waiting_ = 0;
  bool writer_ = false;
};
template <class M>
struct SharedGuard {
  explicit SharedGuard(M& m) : m_(&m) { m.lock_shared(); }
  SharedGuard(SharedGuard&& o) : m_(o.m_) { o.m_ = nullptr; }
  ~SharedGuard() { unlock(); }
  void unlock() {
    if (m_) m_->unlock_shared();
    m_ = nullptr;
  }
  M* m_;
};
template <>
struct SharedGuard<std::mutex> : std::unique_lock<std::mutex> {
  explicit SharedGuard(std::mutex& m) : std::unique_lock<std::mutex>(m) {}
};
template <class T, class M = SharedMutex>
class Synchronized {
 public:
  Synchronized() = default;
  explicit Synchronized(T t) : t_(std::move(t)) {}
  template <class P, class L>
  struct Locked {
    L l;
    P* p;
    P* operator->() { return p; }
    P& operator*() { return *p; }
    void unlock() { l.unlock(); p = nullptr; }
  };
  using W = std::unique_lock<M>;
  using R = SharedGuard<M>;
  Locked<T, W> lock() { return {W(m_), &t_}; }
  Locked<T, W> wlock() { return {W(m_), &t_}; }
  Locked<const T, R> rlock() const { return {R(m_), &t_}; }
  template <class F>
  auto withWLock(F&& f) { W g(m_); return f(t_); }
  template <class F>
  auto withRLock(F&& f) const { R g(m_); return f((const T&)t_); }
  template <class F>
  auto withLock(F&& f) { W g(m_); return f(t_); }
  T copy() const { R g(m_); return t_; }
 private:
  T t_;
  mutable M m_;
};
} // namespace folly
