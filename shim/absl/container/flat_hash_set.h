#pragma once
#include <iterator>
#include <vector>
#include <utility>
#include <initializer_list>
namespace absl {
template <class K, class...> class flat_hash_set {
 public:
  using value_type = K; using const_iterator = typename std::vector<K>::const_iterator; using iterator = const_iterator;
  flat_hash_set() = default; flat_hash_set(std::initializer_list<K> l) { for (auto& x : l) insert(x); }
  template <class It> flat_hash_set(It a, It b) { for (; a != b; ++a) insert(*a); }
  const_iterator begin() const { return v_.begin(); } const_iterator end() const { return v_.end(); }
  template <class Q> const_iterator find(const Q& k) const { auto i = v_.begin(); for (; i != v_.end(); ++i) if (*i == k) break; return i; }
  template <class Q> bool contains(const Q& k) const { return find(k) != v_.end(); } template <class Q> size_t count(const Q& k) const { return contains(k); }
  std::pair<const_iterator, bool> insert(const K& x) { auto i = find(x); if (i != v_.end()) return {i, false}; v_.push_back(x); return {v_.end() - 1, true}; }
  const_iterator insert(const_iterator, const K& x) { return insert(x).first; }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> void insert(It a, It b) { for (; a != b; ++a) insert(*a); }
  template <class Q> std::pair<const_iterator, bool> emplace(Q&& q) { return insert(K(std::forward<Q>(q))); }
  size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); } void clear() { v_.clear(); } void reserve(size_t n) { v_.reserve(n); }
  template <class Q> size_t erase(const Q& k) { for (auto i = v_.begin(); i != v_.end(); ++i) if (*i == k) { v_.erase(i); return 1; } return 0; }
  friend bool operator==(const flat_hash_set& a, const flat_hash_set& b) { if (a.size() != b.size()) return false; for (auto& x : a) if (!b.contains(x)) return false; return true; }
 private: std::vector<K> v_;
};
}
