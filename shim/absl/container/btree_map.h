// Stand-in for Abseil (absent from this sandbox): ordered containers.
#pragma once
#include <map>
namespace absl {
template <class K, class V, class C = std::less<K>>
class btree_map : public std::map<K, V, C> {
  using B = std::map<K, V, C>;
 public:
  using B::B;
  template <class Q> bool contains(const Q& q) const { return B::find(q) != B::end(); }
};
template <class K, class V, class C = std::less<K>>
class btree_multimap : public std::multimap<K, V, C> { using std::multimap<K, V, C>::multimap; };
}
