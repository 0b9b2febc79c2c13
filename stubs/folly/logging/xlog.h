// Stand-in for folly/logging/xlog.h: arguments are evaluated, nothing is written.
#pragma once
#include <cstdlib>
#include <ostream>
#include <string>
#include <utility>
#include <fmt/format.h>
namespace folly::stub {
inline std::ostream& nullStream() {
  static std::ostream s(nullptr);
  return s;
}
enum class L { DBG0, DBG1, DBG2, DBG3, DBG, INFO, WARN, WARNING, ERR, CRITICAL, FATAL, DFATAL };
struct Line {
  L l;
  ~Line() {
    if (l == L::FATAL) std::abort();
  }
  template <class T>
  Line& operator<<(const T& v) {
    nullStream() << v;
    return *this;
  }
  Line& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
template <class... A>
inline Line line(L l, A&&... a) {
  ((void)a, ...);
  return Line{l};
}
} // namespace folly::stub
#define XLOG(level, ...) ::folly::stub::line(::folly::stub::L::level, ##__VA_ARGS__)
#define XLOGF(level, ...) ::folly::stub::line(::folly::stub::L::level, ##__VA_ARGS__)
#define XLOG_EVERY_MS(level, ms, ...) ::folly::stub::line(::folly::stub::L::level, ##__VA_ARGS__)
#define XLOG_EVERY_N(level, n, ...) ::folly::stub::line(::folly::stub::L::level, ##__VA_ARGS__)
#define XLOG_IF(level, cond, ...) if (cond) ::folly::stub::line(::folly::stub::L::level, ##__VA_ARGS__)
#define XCHECK(cond) if (!(cond)) ::folly::stub::line(::folly::stub::L::FATAL)
#define XDCHECK(cond) if (false) ::folly::stub::line(::folly::stub::L::FATAL)
