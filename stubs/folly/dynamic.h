// Small stand-in for folly::dynamic.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace folly {
class dynamic {
 public:
  enum Type { NULLT, ARRAY, BOOL, DOUBLE, INT64, OBJECT, STRING };
  struct ObjectMaker {
    std::vector<std::pair<std::string, std::shared_ptr<dynamic>>> kv;
    ObjectMaker& operator()(const dynamic& k, const dynamic& v) {
      kv.emplace_back(k.asString(), std::make_shared<dynamic>(v));
      return *this;
    }
  };
  static ObjectMaker object() { return {}; }
  static ObjectMaker object(const dynamic& k, const dynamic& v) {
    ObjectMaker m;
    m(k, v);
    return m;
  }
  using OM0 = ObjectMaker (*)();
  dynamic() = default;
  dynamic(std::nullptr_t) {}
  dynamic(OM0) : t_(OBJECT) {}
  dynamic(const ObjectMaker& m) : t_(OBJECT) {
    for (auto& p : m.kv) o_.emplace_back(dynamic(p.first), *p.second);
  }
  dynamic(const char* s) : t_(STRING), s_(s) {}
  dynamic(const std::string& s) : t_(STRING), s_(s) {}
  dynamic(bool b) : t_(BOOL), i_(b) {}
  template <class T, class = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
  dynamic(T v) : t_(INT64), i_((int64_t)v) {}
  dynamic(double d) : t_(DOUBLE), d_(d) {}
  template <class C>
  static dynamic array_range(const C& c) {
    dynamic d;
    d.t_ = ARRAY;
    for (const auto& x : c) d.a_.push_back(dynamic(x));
    return d;
  }
  Type type() const { return t_; }
  bool isNumber() const { return t_ == INT64 || t_ == DOUBLE; }
  bool isObject() const { return t_ == OBJECT; }
  bool isString() const { return t_ == STRING; }
  std::string asString() const {
    if (t_ == STRING) return s_;
    if (t_ == INT64) return std::to_string(i_);
    throw std::runtime_error("dynamic: not a string");
  }
  int64_t asInt() const {
    if (t_ == INT64 || t_ == BOOL) return i_;
    if (t_ == DOUBLE) return (int64_t)d_;
    if (t_ == STRING) return std::stoll(s_);
    throw std::runtime_error("dynamic: not a number");
  }
  double asDouble() const { return t_ == DOUBLE ? d_ : (double)asInt(); }
  size_t size() const { return t_ == ARRAY ? a_.size() : t_ == OBJECT ? o_.size() : s_.size(); }
  bool empty() const { return size() == 0; }
  const std::vector<std::pair<dynamic, dynamic>>& items() const {
    if (t_ != OBJECT) throw std::runtime_error("dynamic: not an object");
    return o_;
  }
  void insert(const dynamic& k, const dynamic& v) { (*this)[k] = v; }
  size_t count(const dynamic& k) const { return find_(k.asString()) != nullptr; }
  dynamic& operator[](const dynamic& k) & {
    if (t_ == ARRAY) return a_.at(k.asInt());
    if (t_ != OBJECT) throw std::runtime_error("dynamic: not an object");
    auto s = k.asString();
    if (auto* p = const_cast<dynamic*>(find_(s))) return *p;
    o_.emplace_back(dynamic(s), dynamic());
    return o_.back().second;
  }
  const dynamic& operator[](const dynamic& k) const& { return at(k); }
  dynamic operator[](const dynamic& k) && { return at(k); }
  const dynamic& at(const dynamic& k) const {
    if (t_ == ARRAY) return a_.at(k.asInt());
    auto* p = find_(k.asString());
    if (!p) throw std::out_of_range("dynamic: no key " + k.asString());
    return *p;
  }
  dynamic& operator+=(const dynamic& v) {
    if (t_ == DOUBLE || v.t_ == DOUBLE) {
      d_ = asDouble() + v.asDouble();
      t_ = DOUBLE;
    } else
      i_ += v.asInt();
    return *this;
  }
  void push_back(const dynamic& v) {
    t_ = ARRAY;
    a_.push_back(v);
  }
  bool operator==(const dynamic& o) const {
    if (isNumber() && o.isNumber()) return asDouble() == o.asDouble();
    if (t_ != o.t_) return false;
    if (t_ == STRING) return s_ == o.s_;
    return i_ == o.i_ && a_ == o.a_;
  }
  bool operator!=(const dynamic& o) const { return !(*this == o); }

 private:
  const dynamic* find_(const std::string& s) const {
    for (auto& p : o_)
      if (p.first.s_ == s) return &p.second;
    return nullptr;
  }
  Type t_ = NULLT;
  int64_t i_ = 0;
  double d_ = 0;
  std::string s_;
  std::vector<dynamic> a_;
  std::vector<std::pair<dynamic, dynamic>> o_;
};
} // namespace folly
