#pragma once
#include <unordered_map>
namespace folly { template <class K, class V> using F14FastMap = std::unordered_map<K, V>; }
