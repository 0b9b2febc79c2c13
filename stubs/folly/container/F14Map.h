#pragma once
#include <unordered_map>
namespace folly {
template <class K, class V> using F14FastMap = std::unordered_map<K, V>;
template <class K, class V> using F14NodeMap = std::unordered_map<K, V>;
template <class K, class V> using F14ValueMap = std::unordered_map<K, V>;
}
