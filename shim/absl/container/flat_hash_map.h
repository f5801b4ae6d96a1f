#pragma once
#include <unordered_map>
#include "absl/hash/hash.h"
namespace absl {
template <class K, class V, class H = absl::Hash<K>, class E = std::equal_to<K>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
  using B = std::unordered_map<K, V, H, E>;
 public:
  using B::B;
  bool contains(const K& q) const { return B::find(q) != B::end(); }
};
}
