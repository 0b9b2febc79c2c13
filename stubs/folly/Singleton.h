#pragma once
#include <memory>
#include <mutex>
namespace folly {
// created by the first use, under a lock
template <class T, class Tag>
class Singleton {
 public:
  Singleton() {}
  static std::shared_ptr<T> try_get() {
    static std::mutex m;
    static std::shared_ptr<T> p;
    std::lock_guard<std::mutex> l(m);
    if (!p) p = std::shared_ptr<T>(new T);
    return p;
  }
};
} // namespace folly
