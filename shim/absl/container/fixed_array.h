#pragma once
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <stdexcept>
namespace absl {
// Run-time sized, fixed for life. Trivial element types stay uninitialised in
// FixedArray(n), exactly as in Abseil, so a read-before-write stays visible.
template <class T, size_t N = static_cast<size_t>(-1), class A = std::allocator<T>>
class FixedArray {
 public:
  using value_type = T; using iterator = T*; using const_iterator = const T*;
  using reference = T&; using const_reference = const T&; using size_type = size_t;
  using pointer = T*; using const_pointer = const T*; using difference_type = std::ptrdiff_t;
  explicit FixedArray(size_t n, const A& = A()) : n_(n), p_(new T[n]) {}
  FixedArray(size_t n, const T& v, const A& = A()) : n_(n), p_(new T[n]) { for (size_t i = 0; i < n; ++i) p_[i] = v; }
  FixedArray(std::initializer_list<T> l, const A& = A()) : n_(l.size()), p_(new T[l.size()]) { size_t i = 0; for (const auto& v : l) p_[i++] = v; }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  FixedArray(It b, It e, const A& = A()) : n_(std::distance(b, e)), p_(new T[n_]) { for (size_t i = 0; b != e; ++b) p_[i++] = *b; }
  FixedArray(const FixedArray& o) : n_(o.n_), p_(new T[o.n_]) { for (size_t i = 0; i < n_; ++i) p_[i] = o.p_[i]; }
  FixedArray& operator=(const FixedArray&) = delete;
  ~FixedArray() { delete[] p_; }
  size_t size() const { return n_; } bool empty() const { return n_ == 0; }
  T* data() { return p_; } const T* data() const { return p_; }
  T& operator[](size_t i) { return p_[i]; } const T& operator[](size_t i) const { return p_[i]; }
  T& at(size_t i) { return p_[i]; } const T& at(size_t i) const { return p_[i]; }
  T& front() { return p_[0]; } const T& front() const { return p_[0]; }
  T& back() { return p_[n_ - 1]; } const T& back() const { return p_[n_ - 1]; }
  T* begin() { return p_; } T* end() { return p_ + n_; }
  const T* begin() const { return p_; } const T* end() const { return p_ + n_; }
  const T* cbegin() const { return p_; } const T* cend() const { return p_ + n_; }
  void fill(const T& v) { for (size_t i = 0; i < n_; ++i) p_[i] = v; }
 private:
  size_t n_; T* p_;
};
}
