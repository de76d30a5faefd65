#pragma once
// Ordered association list with the interface used here; hashing and bucket
// order are not modelled.
#include <vector>
#include <utility>
#include <initializer_list>
namespace absl {
template <class K, class V, class...> class flat_hash_map {
 public:
  using value_type = std::pair<K, V>; using key_type = K; using mapped_type = V;
  using iterator = typename std::vector<value_type>::iterator; using const_iterator = typename std::vector<value_type>::const_iterator;
  flat_hash_map() = default; flat_hash_map(std::initializer_list<value_type> l) { for (auto& x : l) insert(x); }
  template <class It> flat_hash_map(It a, It b) { for (; a != b; ++a) insert(*a); }
  iterator begin() { return v_.begin(); } iterator end() { return v_.end(); } const_iterator begin() const { return v_.begin(); } const_iterator end() const { return v_.end(); } const_iterator cbegin() const { return v_.begin(); }
  template <class Q> iterator find(const Q& k) { auto i = v_.begin(); for (; i != v_.end(); ++i) if (i->first == k) break; return i; }
  template <class Q> const_iterator find(const Q& k) const { auto i = v_.begin(); for (; i != v_.end(); ++i) if (i->first == k) break; return i; }
  template <class Q> bool contains(const Q& k) const { return find(k) != v_.end(); } template <class Q> size_t count(const Q& k) const { return contains(k); }
  std::pair<iterator, bool> insert(const value_type& x) { auto i = find(x.first); if (i != v_.end()) return {i, false}; v_.push_back(x); return {v_.end() - 1, true}; }
  template <class Q, class... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) { auto i = find(k); if (i != v_.end()) return {i, false}; v_.push_back(value_type(K(std::forward<Q>(k)), V(std::forward<A>(a)...))); return {v_.end() - 1, true}; }
  template <class Q, class A> std::pair<iterator, bool> emplace(Q&& k, A&& a) { return try_emplace(std::forward<Q>(k), std::forward<A>(a)); }
  template <class Q, class A> std::pair<iterator, bool> insert_or_assign(Q&& k, A&& a) { auto r = try_emplace(std::forward<Q>(k)); r.first->second = std::forward<A>(a); return r; }
  template <class Q> V& operator[](Q&& k) { return try_emplace(std::forward<Q>(k)).first->second; }
  template <class Q> V& at(const Q& k) { return find(k)->second; } template <class Q> const V& at(const Q& k) const { return find(k)->second; }
  size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); } void clear() { v_.clear(); } void reserve(size_t n) { v_.reserve(n); }
  template <class Q> size_t erase(const Q& k) { auto i = find(k); if (i == v_.end()) return 0; v_.erase(i); return 1; }
  friend bool operator==(const flat_hash_map& a, const flat_hash_map& b) { if (a.size() != b.size()) return false; for (auto& x : a) { auto i = b.find(x.first); if (i == b.end() || !(i->second == x.second)) return false; } return true; }
 private: std::vector<value_type> v_;
};
}
