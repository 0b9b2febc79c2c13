#pragma once
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "task_queue/UnboundedBlockingQueue.h"
namespace folly {
// Behavioural stand-in: workers are started on demand up to the limit and take tasks from an unbounded FIFO queue;
// a task that throws is logged and swallowed; join() drains the queue, stop() and the destructor drop what has not
// begun; a pool that was joined or stopped has no workers any more. As folly does.
class CPUThreadPoolExecutor {
 public:
  struct CPUTask { std::function<void()> f; };
  struct ThreadHandle {};
  struct Observer {
    virtual ~Observer() = default;
    virtual void threadStarted(ThreadHandle*) {}
    virtual void threadStopped(ThreadHandle*) {}
    virtual void threadPreviouslyStarted(ThreadHandle* h) { threadStarted(h); }
    virtual void threadNotYetStopped(ThreadHandle* h) { threadStopped(h); }
  };
  CPUThreadPoolExecutor(size_t n, std::unique_ptr<UnboundedBlockingQueue<CPUTask>> = nullptr) : max_(n) {}
  ~CPUThreadPoolExecutor() { end(false); }
  void addObserver(std::shared_ptr<Observer> o) { obs_.push_back(std::move(o)); }
  void add(std::function<void()> f) {
    {
      std::lock_guard<std::mutex> l(m_);
      q_.push_back(std::move(f));
      if (!done_ && ts_.size() < max_) {
        ts_.emplace_back([this] { worker(); });
        for (auto& o : obs_) o->threadStarted(&handle_);
      }
    }
    cv_.notify_one();
  }
  void join() { end(true); }
  void stop() { end(false); }
  size_t numThreads() const { return max_; }

 private:
  void worker() {
    for (;;) {
      std::function<void()> f;
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return done_ || !q_.empty(); });
        if (q_.empty() || drop_) {
          for (auto& o : obs_) o->threadStopped(&handle_);
          return;
        }
        f = std::move(q_.front());
        q_.pop_front();
      }
      try { f(); } catch (...) {}
    }
  }
  void end(bool drain) {
    {
      std::lock_guard<std::mutex> l(m_);
      done_ = true;
      if (!drain) drop_ = true;
    }
    cv_.notify_all();
    for (auto& t : ts_) if (t.joinable()) t.join();
    ts_.clear();
  }
  size_t max_;
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<std::function<void()>> q_;
  std::vector<std::thread> ts_;
  std::vector<std::shared_ptr<Observer>> obs_;
  ThreadHandle handle_;
  bool done_ = false, drop_ = false;
};
} // namespace folly
