#pragma once
#include <functional>
#include <utility>
#include <tuple>
namespace absl {
template <class T> struct Hash { size_t operator()(const T& t) const { return std::hash<T>()(t); } };
template <class A, class B> struct Hash<std::pair<A, B>> {
  size_t operator()(const std::pair<A, B>& p) const { return Hash<A>()(p.first) * 1000003u + Hash<B>()(p.second); }
};
}
