#pragma once
#include <string>
#include <utility>
#include <vector>
#include <fmt/format.h>
namespace folly {
template <class... A>
std::string sformat(const char* f, const A&... a) {
  return fmt::vformat(f, fmt::make_format_args(a...));
}
template <class... A>
std::string sformat(const std::string& f, const A&... a) {
  return fmt::vformat(f, fmt::make_format_args(a...));
}
} // namespace folly
