// Stand-in for libcppbor: items, canonical-length encoding and parsing as in RFC 8949 (no tags, no indefinite lengths).
#pragma once
#include <stdint.h>
#include <string.h>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace cppbor {
enum MajorType : uint8_t { UINT = 0 << 5, NINT = 1 << 5, BSTR = 2 << 5, TSTR = 3 << 5, ARRAY = 4 << 5, MAP = 5 << 5, SEMANTIC = 6 << 5, SIMPLE = 7 << 5 };
class Int; class Uint; class Nint; class Bstr; class Tstr; class Array; class Map; class Simple;
class Item {
 public:
  virtual ~Item() {}
  virtual MajorType type() const = 0;
  virtual Int* asInt() { return nullptr; } virtual const Int* asInt() const { return nullptr; }
  virtual Uint* asUint() { return nullptr; } virtual const Uint* asUint() const { return nullptr; }
  virtual Nint* asNint() { return nullptr; } virtual const Nint* asNint() const { return nullptr; }
  virtual Bstr* asBstr() { return nullptr; } virtual const Bstr* asBstr() const { return nullptr; }
  virtual Tstr* asTstr() { return nullptr; } virtual const Tstr* asTstr() const { return nullptr; }
  virtual Array* asArray() { return nullptr; } virtual const Array* asArray() const { return nullptr; }
  virtual Map* asMap() { return nullptr; } virtual const Map* asMap() const { return nullptr; }
  virtual Simple* asSimple() { return nullptr; } virtual const Simple* asSimple() const { return nullptr; }
  virtual void vf_put(std::string* o) const = 0;
  std::string toString() const { std::string s; vf_put(&s); return s; }
  std::vector<uint8_t> encode() const { std::string s = toString(); return std::vector<uint8_t>(s.begin(), s.end()); }
  size_t encodedSize() const { return toString().size(); }
  static void vf_head(std::string* o, MajorType t, uint64_t v) {
    if (v < 24) { o->push_back((char)(t | (uint8_t)v)); return; }
    int n = v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffu ? 4 : 8;
    o->push_back((char)(t | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27)));
    for (int i = n - 1; i >= 0; i--) o->push_back((char)(v >> (8 * i)));
  }
};
class Int : public Item { public: Int* asInt() override { return this; } const Int* asInt() const override { return this; } virtual int64_t value() const = 0; };
class Uint : public Int {
  uint64_t v;
 public:
  explicit Uint(uint64_t x) : v(x) {} MajorType type() const override { return UINT; } Uint* asUint() override { return this; } const Uint* asUint() const override { return this; }
  int64_t value() const override { return (int64_t)v; } uint64_t unsignedValue() const { return v; } void vf_put(std::string* o) const override { vf_head(o, UINT, v); }
};
class Nint : public Int {
  int64_t v;
 public:
  explicit Nint(int64_t x) : v(x) {} MajorType type() const override { return NINT; } Nint* asNint() override { return this; } const Nint* asNint() const override { return this; }
  int64_t value() const override { return v; } void vf_put(std::string* o) const override { vf_head(o, NINT, (uint64_t)(-1 - v)); }
};
class Bstr : public Item {
  std::vector<uint8_t> v;
 public:
  Bstr() {} explicit Bstr(std::vector<uint8_t> x) : v(std::move(x)) {} explicit Bstr(const std::string& s) : v(s.begin(), s.end()) {} explicit Bstr(const std::pair<const uint8_t*, size_t>& p) : v(p.first, p.first + p.second) {}
  template <class I, class = typename std::iterator_traits<I>::iterator_category> Bstr(I b, I e) : v(b, e) {}
  MajorType type() const override { return BSTR; } Bstr* asBstr() override { return this; } const Bstr* asBstr() const override { return this; }
  const std::vector<uint8_t>& value() const { return v; } std::vector<uint8_t>&& moveValue() { return std::move(v); }
  void vf_put(std::string* o) const override { vf_head(o, BSTR, v.size()); o->append((const char*)v.data(), v.size()); }
};
class Tstr : public Item {
  std::string v;
 public:
  explicit Tstr(std::string s) : v(std::move(s)) {} MajorType type() const override { return TSTR; } Tstr* asTstr() override { return this; } const Tstr* asTstr() const override { return this; }
  const std::string& value() const { return v; } void vf_put(std::string* o) const override { vf_head(o, TSTR, v.size()); o->append(v); }
};
class Simple : public Item {
  uint8_t v;
 public:
  explicit Simple(uint8_t x) : v(x) {} MajorType type() const override { return SIMPLE; } Simple* asSimple() override { return this; } const Simple* asSimple() const override { return this; }
  void vf_put(std::string* o) const override { o->push_back((char)(SIMPLE | v)); }
};
std::unique_ptr<Item> vf_list(bool map);
namespace details {
template <class T> std::unique_ptr<Item> makeItem(T&& x) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, std::unique_ptr<Item>>) return std::move(x);
  else if constexpr (std::is_base_of_v<Item, D>) return std::make_unique<D>(std::forward<T>(x));
  else if constexpr (std::is_same_v<D, bool>) return std::make_unique<Simple>(x ? 21 : 20);
  else if constexpr (std::is_enum_v<D>) return makeItem((int64_t)x);
  else if constexpr (std::is_integral_v<D> && std::is_unsigned_v<D>) return std::make_unique<Uint>(x);
  else if constexpr (std::is_integral_v<D>) { if (x < 0) return std::make_unique<Nint>(x); return std::make_unique<Uint>((uint64_t)x); }
  else if constexpr (std::is_same_v<D, std::vector<uint8_t>>) return std::make_unique<Bstr>(std::forward<T>(x));
  else return std::make_unique<Tstr>(std::string(std::forward<T>(x)));
}
}
class Array : public Item {
  std::vector<std::unique_ptr<Item>> e;
 public:
  Array() {} Array(const Array&) = delete; Array(Array&&) = default;
  template <class A, class B, class... R> Array(A&& a, B&& b, R&&... r) { add(std::forward<A>(a)); add(std::forward<B>(b)); (add(std::forward<R>(r)), ...); }
  template <class T> Array& add(T&& x) & { e.push_back(details::makeItem(std::forward<T>(x))); return *this; }
  template <class T> Array&& add(T&& x) && { e.push_back(details::makeItem(std::forward<T>(x))); return std::move(*this); }
  MajorType type() const override { return ARRAY; } Array* asArray() override { return this; } const Array* asArray() const override { return this; }
  size_t size() const { return e.size(); } bool empty() const { return e.empty(); }
  const std::unique_ptr<Item>& operator[](size_t i) const { return get(i); } std::unique_ptr<Item>& operator[](size_t i) { return get(i); }
  const std::unique_ptr<Item>& get(size_t i) const { return e[i]; } std::unique_ptr<Item>& get(size_t i) { return e[i]; }
  auto begin() { return e.begin(); } auto end() { return e.end(); } auto begin() const { return e.begin(); } auto end() const { return e.end(); }
  void vf_put(std::string* o) const override { vf_head(o, ARRAY, e.size()); for (auto& x : e) x->vf_put(o); }
};
class Map : public Item {
 public:
  using entry_type = std::pair<std::unique_ptr<Item>, std::unique_ptr<Item>>;
 private:
  std::vector<entry_type> e;
 public:
  Map() {} Map(const Map&) = delete; Map(Map&&) = default;
  template <class K, class V, class = std::enable_if_t<!std::is_base_of_v<Map, std::decay_t<K>>>> Map(K&& k, V&& v) { add(std::forward<K>(k), std::forward<V>(v)); }
  template <class K, class V> Map& add(K&& k, V&& v) & { e.push_back({details::makeItem(std::forward<K>(k)), details::makeItem(std::forward<V>(v))}); return *this; }
  template <class K, class V> Map&& add(K&& k, V&& v) && { e.push_back({details::makeItem(std::forward<K>(k)), details::makeItem(std::forward<V>(v))}); return std::move(*this); }
  MajorType type() const override { return MAP; } Map* asMap() override { return this; } const Map* asMap() const override { return this; }
  size_t size() const { return e.size(); } bool empty() const { return e.empty(); }
  entry_type& operator[](size_t i) { return e[i]; } const entry_type& operator[](size_t i) const { return e[i]; }
  auto begin() { return e.begin(); } auto end() { return e.end(); } auto begin() const { return e.begin(); } auto end() const { return e.end(); }
  const std::unique_ptr<Item>& get(int64_t k) const { static const std::unique_ptr<Item> none; for (auto& x : e) if (x.first->asInt() && x.first->asInt()->value() == k) return x.second; return none; }
  void vf_put(std::string* o) const override { vf_head(o, MAP, e.size()); for (auto& x : e) { x.first->vf_put(o); x.second->vf_put(o); } }
};
}
