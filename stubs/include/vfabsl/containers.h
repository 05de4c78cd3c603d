// Hash containers as insertion-ordered lists with linear lookup: same observable contract
// (unspecified iteration order is fixed to insertion order), cheap to execute symbolically.
#pragma once
#include <list>
#include <map>
#include <set>
#include <algorithm>
#include "vfabsl/base.h"
namespace vfabsl {
template <class N> struct node_handle { std::list<N> l; bool empty() const { return l.empty(); } explicit operator bool() const { return !l.empty(); } N& value() { return l.front(); } auto& mapped() { return l.front().second; } auto& key() { return l.front().first; } };
template <class V, class K, class GetK, class Eq> class hbase {
 public:
  using list = std::list<V>; using iterator = typename list::iterator; using const_iterator = typename list::const_iterator; using value_type = V; using key_type = K; using size_type = size_t; using difference_type = ptrdiff_t; using reference = V&; using const_reference = const V&; using key_equal = Eq; using node_type = node_handle<V>;
  iterator begin() { return l_.begin(); } iterator end() { return l_.end(); } const_iterator begin() const { return l_.begin(); } const_iterator end() const { return l_.end(); } const_iterator cbegin() const { return l_.begin(); } const_iterator cend() const { return l_.end(); }
  size_t size() const { return l_.size(); } bool empty() const { return l_.empty(); } void clear() { l_.clear(); } void reserve(size_t) {} void rehash(size_t) {} size_t capacity() const { return l_.size(); } size_t bucket_count() const { return l_.size(); } float load_factor() const { return 0; }
  template <class Q = K> iterator find(const Q& k) { for (auto i = l_.begin(); i != l_.end(); ++i) if (Eq()(GetK()(*i), k)) return i; return l_.end(); }
  template <class Q = K> const_iterator find(const Q& k) const { for (auto i = l_.begin(); i != l_.end(); ++i) if (Eq()(GetK()(*i), k)) return i; return l_.end(); }
  template <class Q = K> bool contains(const Q& k) const { return find(k) != l_.end(); }
  template <class Q = K> size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
  std::pair<iterator, bool> insert(const V& v) { auto i = find(GetK()(v)); if (i != l_.end()) return {i, false}; l_.push_back(v); return {--l_.end(), true}; }
  std::pair<iterator, bool> insert(V&& v) { auto i = find(GetK()(v)); if (i != l_.end()) return {i, false}; l_.push_back(std::move(v)); return {--l_.end(), true}; }
  template <class P, class = std::enable_if_t<std::is_constructible<V, P&&>::value>> std::pair<iterator, bool> insert(P&& p) { return insert(V(std::forward<P>(p))); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> void insert(It a, It b) { for (; a != b; ++a) insert(V(*a)); }
  void insert(std::initializer_list<V> il) { for (auto& x : il) insert(x); }
  iterator insert(const_iterator, const V& v) { return insert(v).first; } iterator insert(const_iterator, V&& v) { return insert(std::move(v)).first; }
  std::pair<iterator, bool> insert(node_type&& n) { if (n.empty()) return {end(), false}; auto i = find(GetK()(n.value())); if (i != l_.end()) return {i, false}; l_.splice(l_.end(), n.l); return {--l_.end(), true}; }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { list t; t.emplace_back(std::forward<A>(a)...); auto i = find(GetK()(t.front())); if (i != l_.end()) return {i, false}; l_.splice(l_.end(), t); return {--l_.end(), true}; }
  template <class... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
  void erase(iterator i) { l_.erase(i); } void erase(const_iterator i) { l_.erase(i); } iterator erase(const_iterator a, const_iterator b) { return l_.erase(a, b); }
  template <class Q = K, class = std::enable_if_t<!std::is_convertible<const Q&, const_iterator>::value>> size_t erase(const Q& k) { auto i = find(k); if (i == l_.end()) return 0; l_.erase(i); return 1; }
  template <class Q = K, class = std::enable_if_t<!std::is_convertible<const Q&, const_iterator>::value>> node_type extract(const Q& k) { node_type n; auto i = find(k); if (i != l_.end()) n.l.splice(n.l.end(), l_, i); return n; }
  node_type extract(const_iterator i) { node_type n; n.l.splice(n.l.end(), l_, i); return n; }
  template <class H> void merge(H& o) { for (auto i = o.l_.begin(); i != o.l_.end();) { auto j = i++; if (!contains(GetK()(*j))) l_.splice(l_.end(), o.l_, j); } } template <class H> void merge(H&& o) { merge(static_cast<H&>(o)); }
  template <class Q = K> std::pair<iterator, iterator> equal_range(const Q& k) { auto i = find(k); auto j = i; if (j != l_.end()) ++j; return {i, j}; }
  void swap(hbase& o) { l_.swap(o.l_); }
  list l_;
};
struct first_of { template <class P> const auto& operator()(const P& p) const { return p.first; } };
struct self_of { template <class P> const P& operator()(const P& p) const { return p; } };
template <class K, class V, class Eq> class hmap : public hbase<std::pair<const K, V>, K, first_of, Eq> {
  using B = hbase<std::pair<const K, V>, K, first_of, Eq>;
 public:
  using mapped_type = V; using typename B::iterator; using typename B::const_iterator;
  hmap() {} hmap(std::initializer_list<std::pair<const K, V>> il) { for (auto& x : il) this->insert(x); } template <class It, class = typename std::iterator_traits<It>::iterator_category> hmap(It a, It b) { for (; a != b; ++a) this->insert(std::pair<const K, V>(*a)); } explicit hmap(size_t) {}
  V& operator[](const K& k) { auto i = this->find(k); if (i == this->end()) { this->l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::tuple<>()); return this->l_.back().second; } return i->second; }
  V& operator[](K&& k) { auto i = this->find(k); if (i == this->end()) { this->l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::tuple<>()); return this->l_.back().second; } return i->second; }
  template <class Q, class = std::enable_if_t<!std::is_convertible<const Q&, const K&>::value && std::is_constructible<K, const Q&>::value>> V& operator[](const Q& q) { auto i = this->find(q); if (i == this->end()) { this->l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(K(q)), std::tuple<>()); return this->l_.back().second; } return i->second; }
  template <class Q = K> V& at(const Q& k) { auto i = this->find(k); if (i == this->end()) abort(); return i->second; }
  template <class Q = K> const V& at(const Q& k) const { auto i = this->find(k); if (i == this->end()) abort(); return i->second; }
  template <class Q = K, class... A> std::pair<iterator, bool> try_emplace(const Q& k, A&&... a) { auto i = this->find(k); if (i != this->end()) return {i, false}; this->l_.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...)); return {--this->l_.end(), true}; }
  template <class Q = K, class W> std::pair<iterator, bool> insert_or_assign(const Q& k, W&& w) { auto i = this->find(k); if (i != this->end()) { i->second = std::forward<W>(w); return {i, false}; } this->l_.emplace_back(K(k), std::forward<W>(w)); return {--this->l_.end(), true}; }
  friend bool operator==(const hmap& a, const hmap& b) { if (a.size() != b.size()) return false; for (auto& x : a) { auto i = b.find(x.first); if (i == b.end() || !(i->second == x.second)) return false; } return true; }
  friend bool operator!=(const hmap& a, const hmap& b) { return !(a == b); }
};
template <class K, class Eq> class hset : public hbase<K, K, self_of, Eq> {
 public:
  hset() {} hset(std::initializer_list<K> il) { for (auto& x : il) this->insert(x); } template <class It, class = typename std::iterator_traits<It>::iterator_category> hset(It a, It b) { for (; a != b; ++a) this->insert(K(*a)); } explicit hset(size_t) {}
  using iterator = typename hbase<K, K, self_of, Eq>::const_iterator;
  friend bool operator==(const hset& a, const hset& b) { if (a.size() != b.size()) return false; for (auto& x : a) if (!b.contains(x)) return false; return true; }
  friend bool operator!=(const hset& a, const hset& b) { return !(a == b); }
};
}
namespace absl {
template <class K> struct vf_default_hash {};
template <class K, class V, class H = vf_default_hash<K>, class E = std::equal_to<>, class A = void> class flat_hash_map : public vfabsl::hmap<K, V, E> { public: using vfabsl::hmap<K, V, E>::hmap; };
template <class K, class V, class H = vf_default_hash<K>, class E = std::equal_to<>, class A = void> class node_hash_map : public vfabsl::hmap<K, V, E> { public: using vfabsl::hmap<K, V, E>::hmap; };
template <class K, class H = vf_default_hash<K>, class E = std::equal_to<>, class A = void> class flat_hash_set : public vfabsl::hset<K, E> { public: using vfabsl::hset<K, E>::hset; };
template <class K, class H = vf_default_hash<K>, class E = std::equal_to<>, class A = void> class node_hash_set : public vfabsl::hset<K, E> { public: using vfabsl::hset<K, E>::hset; };
template <class C, class P, class = decltype(std::declval<C&>().l_)> size_t erase_if(C& c, P p) { size_t n = 0; for (auto i = c.l_.begin(); i != c.l_.end();) { if (p(*i)) { i = c.l_.erase(i); n++; } else ++i; } return n; }
template <class K, class V, class C = std::less<>> using btree_map = std::map<K, V, C>;
template <class K, class C = std::less<>> using btree_set = std::set<K, C>;
template <class K, class V, class C = std::less<>> using btree_multimap = std::multimap<K, V, C>;
template <class T, size_t N> class FixedArrayT : public std::vector<T> { public: using std::vector<T>::vector; };
template <class T, size_t N = 0> using FixedArray = FixedArrayT<T, N>;
template <class T, size_t N, class A = void> class InlinedVector : public std::vector<T> { public: using std::vector<T>::vector; };
}
