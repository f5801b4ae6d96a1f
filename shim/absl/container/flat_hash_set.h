#pragma once
#include <unordered_set>
#include "absl/hash/hash.h"
namespace absl {
template <class K, class H = absl::Hash<K>, class E = std::equal_to<K>>
class flat_hash_set : public std::unordered_set<K, H, E> {
  using B = std::unordered_set<K, H, E>;
 public:
  using B::B;
  bool contains(const K& q) const { return B::find(q) != B::end(); }
};
}
