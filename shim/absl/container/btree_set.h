#pragma once
#include <set>
namespace absl {
template <class K, class C = std::less<K>>
class btree_set : public std::set<K, C> {
  using B = std::set<K, C>;
 public:
  using B::B;
  template <class Q> bool contains(const Q& q) const { return B::find(q) != B::end(); }
};
template <class K, class C = std::less<K>>
class btree_multiset : public std::multiset<K, C> { using std::multiset<K, C>::multiset; };
}
