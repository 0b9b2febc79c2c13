#pragma once
#include <algorithm>
#include <stdexcept>
#include <string>
namespace folly {
class Uri {
 public:
  explicit Uri(const std::string& s) {
    auto p = s.find("://");
    if (p == std::string::npos || p == 0) throw std::invalid_argument("invalid URI " + s);
    scheme_ = s.substr(0, p);
    std::transform(scheme_.begin(), scheme_.end(), scheme_.begin(), ::tolower);
    auto r = s.substr(p + 3);
    auto q = r.find_first_of("?#");
    if (q != std::string::npos) r = r.substr(0, q);
    auto sl = r.find('/');
    host_ = r.substr(0, sl);
    if (sl != std::string::npos) path_ = r.substr(sl);
  }
  const std::string& scheme() const { return scheme_; }
  const std::string& host() const { return host_; }
  const std::string& path() const { return path_; }
 private:
  std::string scheme_, host_, path_;
};
}
