#pragma once
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>
#include "Range.h"
namespace folly {
template <class C>
std::string join(const std::string& d, const C& c) {
  std::ostringstream o;
  bool f = true;
  for (const auto& x : c) {
    if (!f) o << d;
    f = false;
    o << x;
  }
  return o.str();
}
namespace stub {
template <class T> T to(const std::string& s);
template <> inline std::string to(const std::string& s) { return s; }
template <> inline uint32_t to(const std::string& s) { return (uint32_t)std::stoul(s); }
template <> inline int32_t to(const std::string& s) { return std::stoi(s); }
template <> inline uint64_t to(const std::string& s) { return std::stoull(s); }
}
template <class V>
void split(char d, const std::string& s, V& out) {
  using T = typename V::value_type;
  size_t b = 0;
  for (;;) {
    size_t e = s.find(d, b);
    out.push_back(stub::to<T>(s.substr(b, e == std::string::npos ? e : e - b)));
    if (e == std::string::npos) break;
    b = e + 1;
  }
}
} // namespace folly
