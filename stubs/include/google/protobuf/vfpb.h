// Small protobuf runtime: wire format, repeated fields, maps and the message base classes used by generated code.
#pragma once
#include <stdint.h>
#include <string.h>
#include <iterator>
#include <string>
#include <initializer_list>
#include <utility>
#include <vector>
#include "vf.h"
#include "vfabsl/base.h"
#include "absl/strings/cord.h"
#include "absl/strings/string_view.h"
#include "vfabsl/ios.h"
namespace vfpb {
extern bool exact;  // varints of symbolic values: true forks over their length, false pads them to ten bytes
extern bool (*parse_fault)(const char* type);
inline bool present(uint64_t v) { return !exact && vf_is_sym(v) ? true : v != 0; }
void var(std::string* o, uint64_t v);
inline void tag(std::string* o, uint32_t num, uint32_t wt) { var(o, (uint64_t)num << 3 | wt); }
inline void f32(std::string* o, uint32_t v) { o->append((const char*)&v, 4); }
inline void f64(std::string* o, uint64_t v) { o->append((const char*)&v, 8); }
inline void len(std::string* o, const std::string& s) { var(o, s.size()); o->append(s); }
inline uint64_t zz32(int32_t v) { return ((uint32_t)v << 1) ^ (uint32_t)(v >> 31); }
inline uint64_t zz64(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
inline int32_t uz32(uint64_t v) { uint32_t x = (uint32_t)v; return (int32_t)((x >> 1) ^ (0 - (x & 1))); }
inline int64_t uz64(uint64_t x) { return (int64_t)((x >> 1) ^ (0 - (x & 1))); }
inline uint32_t fb(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
inline uint64_t db(double f) { uint64_t v; memcpy(&v, &f, 8); return v; }
inline float bf(uint32_t v) { float f; memcpy(&f, &v, 4); return f; }
inline double bd(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
struct In {
  const uint8_t* p; const uint8_t* e; bool ok = true;
  bool more() { return ok && p != e; }
  uint64_t var();
  uint32_t f32() { if (e - p < 4) { ok = false; return 0; } uint32_t v; memcpy(&v, p, 4); p += 4; return v; }
  uint64_t f64() { if (e - p < 8) { ok = false; return 0; } uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
  In sub();
  std::string str() { In s = sub(); return ok ? std::string((const char*)s.p, s.e - s.p) : std::string(); }
  bool skip(uint32_t num, uint32_t wt, int depth = 0);
};
}
namespace google { namespace protobuf {
class Arena {};
struct FieldDescriptor { enum Type { TYPE_STRING = 9, TYPE_BYTES = 12, TYPE_OTHER = 0 }; std::string n; Type t; Type type() const { return t; } const std::string& name() const { return n; } };
struct Descriptor { std::string fn; std::vector<FieldDescriptor> fields; const std::string& full_name() const { return fn; } std::string name() const { auto p = fn.rfind('.'); return p == std::string::npos ? fn : fn.substr(p + 1); } const FieldDescriptor* FindFieldByName(const std::string& n) const { for (auto& f : fields) if (f.n == n) return &f; return nullptr; } };
struct EnumValueDescriptor { std::string n; const std::string& name() const { return n; } };
struct EnumDescriptor { std::string (*nm)(int); EnumValueDescriptor v; const EnumValueDescriptor* FindValueByNumber(int i) const { auto self = const_cast<EnumDescriptor*>(this); self->v.n = nm(i); return &v; } };
namespace io {
class ZeroCopyInputStream { public: virtual ~ZeroCopyInputStream() {} virtual absl::string_view vf_rest() = 0; virtual void vf_consume(size_t n) = 0; };
class ZeroCopyOutputStream { public: virtual ~ZeroCopyOutputStream() {} virtual void vf_write(absl::string_view) = 0; };
class ArrayInputStream : public ZeroCopyInputStream { absl::string_view s_; size_t n_ = 0; public: ArrayInputStream(const void* p, int n, int block = -1) : s_((const char*)p, n < 0 ? 0 : n) {} absl::string_view vf_rest() override { return s_.substr(n_); } void vf_consume(size_t n) override { n_ += n; } int64_t ByteCount() const { return (int64_t)n_; } };
class StringOutputStream : public ZeroCopyOutputStream { std::string* s_; public: explicit StringOutputStream(std::string* s) : s_(s) {} void vf_write(absl::string_view v) override { s_->append(v.data(), v.size()); } int64_t ByteCount() const { return (int64_t)s_->size(); } };
class CodedInputStream {
  ZeroCopyInputStream* z_ = nullptr; const uint8_t *b_, *p_, *e_, *lim_; bool bad_ = false;
 public:
  explicit CodedInputStream(ZeroCopyInputStream* z) : z_(z) { auto s = z->vf_rest(); b_ = p_ = (const uint8_t*)s.data(); e_ = lim_ = p_ + s.size(); }
  CodedInputStream(const uint8_t* p, int n) { b_ = p_ = p; e_ = lim_ = p + n; }
  ~CodedInputStream() { if (z_) z_->vf_consume(p_ - b_); }
  typedef const uint8_t* Limit;
  bool ReadVarint64(uint64_t* v) { vfpb::In i{p_, lim_}; *v = i.var(); if (!i.ok) return false; p_ = i.p; return true; }
  bool ReadVarint32(uint32_t* v) { uint64_t x; if (!ReadVarint64(&x)) return false; *v = (uint32_t)x; return true; }
  bool ReadVarintSizeAsInt(int* v) { uint64_t x; if (!ReadVarint64(&x) || x > 0x7fffffff) { *v = 0; return false; } *v = (int)x; return true; }
  bool ReadLittleEndian32(uint32_t* v) { vfpb::In i{p_, lim_}; *v = i.f32(); if (!i.ok) return false; p_ = i.p; return true; }
  bool ReadLittleEndian64(uint64_t* v) { vfpb::In i{p_, lim_}; *v = i.f64(); if (!i.ok) return false; p_ = i.p; return true; }
  bool ReadRaw(void* o, int n) { if (n < 0 || lim_ - p_ < n) return false; memcpy(o, p_, n); p_ += n; return true; }
  bool ReadString(std::string* o, int n) { if (n < 0 || lim_ - p_ < n) return false; o->assign((const char*)p_, n); p_ += n; return true; }
  bool Skip(int n) { if (n < 0) return false; if (lim_ - p_ < n) { p_ = lim_; return false; } p_ += n; return true; }
  Limit PushLimit(int n) { Limit old = lim_; if (n >= 0 && n <= e_ - p_ && p_ + n < lim_) lim_ = p_ + n; return old; }
  void PopLimit(Limit l) { lim_ = l; }
  int BytesUntilLimit() const { return lim_ == e_ ? -1 : (int)(lim_ - p_); }
  int CurrentPosition() const { return (int)(p_ - b_); }
  bool ConsumedEntireMessage() const { return p_ == lim_ && !bad_; }
  bool ExpectAtEnd() const { return p_ == lim_; }
  absl::string_view vf_msg() { return absl::string_view((const char*)p_, lim_ - p_); }
  void vf_adv() { p_ = lim_; }
  bool GetDirectBufferPointer(const void** d, int* n) { *d = p_; *n = (int)(lim_ - p_); return *n > 0; }
};
class CodedOutputStream {
  ZeroCopyOutputStream* z_;
 public:
  explicit CodedOutputStream(ZeroCopyOutputStream* z) : z_(z) {}
  void WriteVarint32(uint32_t v) { std::string s; vfpb::var(&s, v); z_->vf_write(s); }
  void WriteVarint64(uint64_t v) { std::string s; vfpb::var(&s, v); z_->vf_write(s); }
  void WriteString(const std::string& s) { z_->vf_write(s); }
  void WriteRaw(const void* p, int n) { z_->vf_write(absl::string_view((const char*)p, n)); }
  void WriteLittleEndian32(uint32_t v) { std::string s; vfpb::f32(&s, v); z_->vf_write(s); }
  void WriteLittleEndian64(uint64_t v) { std::string s; vfpb::f64(&s, v); z_->vf_write(s); }
  bool HadError() const { return false; }
  static size_t VarintSize32(uint32_t v) { std::string s; vfpb::var(&s, v); return s.size(); }
  static size_t VarintSize64(uint64_t v) { std::string s; vfpb::var(&s, v); return s.size(); }
};
}
class MessageLite {
 public:
  virtual ~MessageLite() {}
  virtual void vf_ser(std::string* o) const = 0;
  virtual bool vf_merge(vfpb::In& in) = 0;
  virtual void Clear() = 0;
  virtual std::string GetTypeName() const = 0;
  virtual MessageLite* vf_new() const = 0;
  bool vf_parse(absl::string_view s) { Clear(); return vf_mergef(s); }
  bool vf_mergef(absl::string_view s) { vfpb::In in{(const uint8_t*)s.data(), (const uint8_t*)s.data() + s.size()}; return vf_merge(in) && IsInitialized(); }
  virtual bool IsInitialized() const { return true; }
  std::string InitializationErrorString() const { return ""; }
  bool SerializeToString(std::string* o) const { o->clear(); vf_ser(o); return true; }
  bool SerializePartialToString(std::string* o) const { o->clear(); vf_ser(o); return true; }
  bool AppendToString(std::string* o) const { vf_ser(o); return true; }
  bool AppendPartialToString(std::string* o) const { vf_ser(o); return true; }
  std::string SerializeAsString() const { std::string s; vf_ser(&s); return s; }
  std::string SerializePartialAsString() const { return SerializeAsString(); }
  absl::Cord SerializeAsCord() const { return absl::Cord(SerializeAsString()); }
  bool SerializeToCord(absl::Cord* c) const { *c = absl::Cord(SerializeAsString()); return true; }
  bool SerializeToArray(void* p, int n) const { std::string s = SerializeAsString(); if ((size_t)n < s.size()) return false; if (s.size()) memcpy(p, s.data(), s.size()); return true; }
  bool SerializeToOstream(std::ostream* os) const { std::string s = SerializeAsString(); os->write(s.data(), (long)s.size()); return os->good(); }
  bool SerializeToCodedStream(io::CodedOutputStream* c) const { std::string s = SerializeAsString(); c->WriteRaw(s.data(), (int)s.size()); return true; }
  bool SerializeToZeroCopyStream(io::ZeroCopyOutputStream* z) const { z->vf_write(SerializeAsString()); return true; }
  bool ParseFromString(absl::string_view s) { return vf_parse(s); }
  bool ParsePartialFromString(absl::string_view s) { return vf_parse(s); }
  bool MergeFromString(absl::string_view s) { return vf_mergef(s); }
  bool ParseFromCord(const absl::Cord& c) { return vf_parse(std::string(c)); }
  bool ParseFromArray(const void* p, int n) { return vf_parse(absl::string_view((const char*)p, n)); }
  bool ParsePartialFromArray(const void* p, int n) { return vf_parse(absl::string_view((const char*)p, n)); }
  bool ParseFromCodedStream(io::CodedInputStream* c) { bool r = vf_parse(c->vf_msg()); if (r) c->vf_adv(); return r; }
  bool ParseFromZeroCopyStream(io::ZeroCopyInputStream* z) { auto s = z->vf_rest(); bool r = vf_parse(s); if (r) z->vf_consume(s.size()); return r; }
  bool ParseFromIstream(std::istream* is);
  size_t ByteSizeLong() const { return SerializeAsString().size(); }
  int ByteSize() const { return (int)ByteSizeLong(); }
  size_t SpaceUsedLong() const { return ByteSizeLong(); }
  int GetCachedSize() const { return (int)ByteSizeLong(); }
};
class Reflection { public: virtual ~Reflection() {} virtual void SetString(class Message*, const FieldDescriptor*, std::string) const = 0; virtual std::string GetString(const class Message&, const FieldDescriptor*) const = 0; };
class Message : public MessageLite {
 public:
  virtual const Descriptor* GetDescriptor() const = 0;
  virtual const Reflection* GetReflection() const;
  virtual std::string* vf_strfield(const std::string&) { return nullptr; }
  std::string DebugString() const { return GetTypeName(); }
  std::string ShortDebugString() const { return GetTypeName(); }
  std::string Utf8DebugString() const { return GetTypeName(); }
  template <class S> friend void AbslStringify(S& s, const Message& m) { s.Append(m.GetTypeName()); }
};
inline std::ostream& operator<<(std::ostream& o, const Message& m) { return o << m.GetTypeName(); }
template <class T> class RepeatedField {
  using S_ = std::conditional_t<std::is_same<T, bool>::value, unsigned char, T>;
  std::vector<S_> v_; T* d_() { return (T*)v_.data(); } const T* d_() const { return (const T*)v_.data(); }
 public:
  using value_type = T; using iterator = T*; using const_iterator = const T*; using size_type = int; using reference = T&; using const_reference = const T&;
  RepeatedField() {} RepeatedField(std::initializer_list<T> il) { for (T x : il) v_.push_back(x); } template <class It, class = typename std::iterator_traits<It>::iterator_category> RepeatedField(It a, It b) { for (; a != b; ++a) v_.push_back(*a); }
  int size() const { return (int)v_.size(); } bool empty() const { return v_.empty(); } int Capacity() const { return (int)v_.capacity(); }
  void chk(int i) const { if (i < 0 || (size_t)i >= v_.size()) vf_fail("repeated field index out of range"); }
  const T& Get(int i) const { chk(i); return d_()[i]; } T* Mutable(int i) { chk(i); return d_() + i; } void Set(int i, const T& x) { chk(i); d_()[i] = x; }
  const T& operator[](int i) const { return Get(i); } T& operator[](int i) { return *Mutable(i); } const T& at(int i) const { return Get(i); }
  void Add(T x) { v_.push_back(x); } T* Add() { v_.push_back(T()); return d_() + v_.size() - 1; } template <class It, class = typename std::iterator_traits<It>::iterator_category> void Add(It a, It b) { for (; a != b; ++a) v_.push_back(*a); }
  void push_back(T x) { v_.push_back(x); }
  void Clear() { v_.clear(); } void Reserve(int n) { v_.reserve(n); } void Resize(int n, const T& x) { v_.resize(n, x); } void Truncate(int n) { v_.resize(n); } void RemoveLast() { v_.pop_back(); }
  T* data() { return d_(); } const T* data() const { return d_(); } T* mutable_data() { return d_(); }
  T* begin() { return d_(); } T* end() { return d_() + v_.size(); } const T* begin() const { return d_(); } const T* end() const { return d_() + v_.size(); } const T* cbegin() const { return begin(); } const T* cend() const { return end(); }
  const_iterator erase(const_iterator p) { auto i = v_.erase(v_.begin() + (p - d_())); return d_() + (i - v_.begin()); } const_iterator erase(const_iterator a, const_iterator b) { auto i = v_.erase(v_.begin() + (a - d_()), v_.begin() + (b - d_())); return d_() + (i - v_.begin()); }
  void MergeFrom(const RepeatedField& o) { std::vector<S_> c = o.v_; v_.insert(v_.end(), c.begin(), c.end()); } void CopyFrom(const RepeatedField& o) { v_ = o.v_; } void Swap(RepeatedField* o) { v_.swap(o->v_); } template <class It> void Assign(It a, It b) { v_.clear(); Add(a, b); }
  bool vf_eq(const RepeatedField& o) const { if (v_.size() != o.v_.size()) return false; bool r = true; for (size_t i = 0; i < v_.size(); i++) r = r & (v_[i] == o.v_[i]); return r; }
};
template <class T> struct vf_ptr_it {
  using iterator_category = std::random_access_iterator_tag; using value_type = std::remove_const_t<T>; using difference_type = ptrdiff_t; using pointer = T*; using reference = T&;
  std::remove_const_t<T>* const* p = nullptr;
  vf_ptr_it() {} explicit vf_ptr_it(std::remove_const_t<T>* const* q) : p(q) {} template <class U, class = std::enable_if_t<std::is_same<const U, T>::value>> vf_ptr_it(const vf_ptr_it<U>& o) : p(o.p) {}
  T& operator*() const { return **p; } T* operator->() const { return *p; } T& operator[](ptrdiff_t n) const { return *p[n]; }
  vf_ptr_it& operator++() { ++p; return *this; } vf_ptr_it operator++(int) { auto t = *this; ++p; return t; } vf_ptr_it& operator--() { --p; return *this; } vf_ptr_it operator--(int) { auto t = *this; --p; return t; }
  vf_ptr_it& operator+=(ptrdiff_t n) { p += n; return *this; } vf_ptr_it& operator-=(ptrdiff_t n) { p -= n; return *this; }
  friend vf_ptr_it operator+(vf_ptr_it a, ptrdiff_t n) { a.p += n; return a; } friend vf_ptr_it operator+(ptrdiff_t n, vf_ptr_it a) { a.p += n; return a; } friend vf_ptr_it operator-(vf_ptr_it a, ptrdiff_t n) { a.p -= n; return a; } friend ptrdiff_t operator-(vf_ptr_it a, vf_ptr_it b) { return a.p - b.p; }
  friend bool operator==(vf_ptr_it a, vf_ptr_it b) { return a.p == b.p; } friend bool operator!=(vf_ptr_it a, vf_ptr_it b) { return a.p != b.p; } friend bool operator<(vf_ptr_it a, vf_ptr_it b) { return a.p < b.p; } friend bool operator>(vf_ptr_it a, vf_ptr_it b) { return a.p > b.p; } friend bool operator<=(vf_ptr_it a, vf_ptr_it b) { return a.p <= b.p; } friend bool operator>=(vf_ptr_it a, vf_ptr_it b) { return a.p >= b.p; }
};
template <class T> class RepeatedPtrField {
  std::vector<T*> v_;
 public:
  using value_type = T; using iterator = vf_ptr_it<T>; using const_iterator = vf_ptr_it<const T>; using size_type = int; using reference = T&; using const_reference = const T&; using difference_type = ptrdiff_t; using pointer = T*;
  RepeatedPtrField() {} ~RepeatedPtrField() { Clear(); } RepeatedPtrField(const RepeatedPtrField& o) { for (auto* p : o.v_) v_.push_back(new T(*p)); } RepeatedPtrField(RepeatedPtrField&& o) noexcept : v_(std::move(o.v_)) { o.v_.clear(); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> RepeatedPtrField(It a, It b) { Add(a, b); }
  RepeatedPtrField& operator=(const RepeatedPtrField& o) { if (this != &o) { Clear(); for (auto* p : o.v_) v_.push_back(new T(*p)); } return *this; } RepeatedPtrField& operator=(RepeatedPtrField&& o) noexcept { if (this != &o) { Clear(); v_.swap(o.v_); } return *this; }
  int size() const { return (int)v_.size(); } bool empty() const { return v_.empty(); } int Capacity() const { return (int)v_.capacity(); }
  void chk(int i) const { if (i < 0 || (size_t)i >= v_.size()) vf_fail("repeated field index out of range"); }
  const T& Get(int i) const { chk(i); return *v_.data()[i]; } T* Mutable(int i) { chk(i); return v_.data()[i]; } const T& operator[](int i) const { return Get(i); } T& operator[](int i) { return *Mutable(i); } const T& at(int i) const { return Get(i); } T& at(int i) { return *Mutable(i); }
  T* Add() { v_.push_back(new T()); return v_.back(); } void Add(T&& x) { v_.push_back(new T(std::move(x))); } void Add(const T& x) { v_.push_back(new T(x)); } template <class It, class = typename std::iterator_traits<It>::iterator_category> void Add(It a, It b) { for (; a != b; ++a) v_.push_back(new T(*a)); }
  void push_back(const T& x) { v_.push_back(new T(x)); } void push_back(T&& x) { v_.push_back(new T(std::move(x))); }
  void AddAllocated(T* p) { v_.push_back(p); } T* ReleaseLast() { T* p = v_.back(); v_.pop_back(); return p; }
  void Clear() { for (auto* p : v_) delete p; v_.clear(); } void Reserve(int n) { v_.reserve(n); } void RemoveLast() { delete v_.back(); v_.pop_back(); }
  iterator begin() { return iterator(v_.data()); } iterator end() { return iterator(v_.data() + v_.size()); } const_iterator begin() const { return const_iterator(v_.data()); } const_iterator end() const { return const_iterator(v_.data() + v_.size()); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  std::reverse_iterator<iterator> rbegin() { return std::reverse_iterator<iterator>(end()); } std::reverse_iterator<iterator> rend() { return std::reverse_iterator<iterator>(begin()); } std::reverse_iterator<const_iterator> rbegin() const { return std::reverse_iterator<const_iterator>(end()); } std::reverse_iterator<const_iterator> rend() const { return std::reverse_iterator<const_iterator>(begin()); }
  T** vf_d() { return v_.data(); }
  struct pit { using iterator_category = std::random_access_iterator_tag; using value_type = T*; using difference_type = ptrdiff_t; using pointer = T**; using reference = T*&; T** p; T*& operator*() const { return *p; } pit& operator++() { ++p; return *this; } friend bool operator!=(pit a, pit b) { return a.p != b.p; } friend bool operator==(pit a, pit b) { return a.p == b.p; } };
  T** pointer_begin() { return v_.data(); } T** pointer_end() { return v_.data() + v_.size(); }
  iterator erase(const_iterator a) { return erase(a, a + 1); }
  iterator erase(const_iterator a, const_iterator b) { size_t i = a.p - v_.data(), j = b.p - v_.data(); DeleteSubrange((int)i, (int)(j - i)); return iterator(v_.data() + i); }
  void DeleteSubrange(int s, int n) { if (s < 0 || n < 0 || (size_t)(s + n) > v_.size()) vf_fail("repeated field range out of range"); for (int i = s; i < s + n; i++) delete v_[i]; v_.erase(v_.begin() + s, v_.begin() + s + n); }
  void SwapElements(int a, int b) { chk(a); chk(b); std::swap(v_[a], v_[b]); }
  void MergeFrom(const RepeatedPtrField& o) { size_t n = o.v_.size(); for (size_t i = 0; i < n; i++) v_.push_back(new T(*o.v_[i])); } void CopyFrom(const RepeatedPtrField& o) { *this = o; } void Swap(RepeatedPtrField* o) { v_.swap(o->v_); } void swap(RepeatedPtrField& o) { v_.swap(o.v_); }
  template <class It> void Assign(It a, It b) { Clear(); Add(a, b); }
  template <class It> void vf_addall(It a, It b) { Add(a, b); }
};
template <class T> auto RepeatedPtrFieldBackInserter(RepeatedPtrField<T>* f) { return std::back_inserter(*f); }
template <class T> auto RepeatedFieldBackInserter(RepeatedPtrField<T>* f) { return std::back_inserter(*f); }
template <class T> auto RepeatedFieldBackInserter(RepeatedField<T>* f) { return std::back_inserter(*f); }
template <class K, class V> class Map {
 public:
  using value_type = std::pair<const K, V>; using key_type = K; using mapped_type = V; using iterator = vf_ptr_it<value_type>; using const_iterator = vf_ptr_it<const value_type>; using size_type = size_t;
  std::vector<value_type*> v_;
  Map() {} ~Map() { clear(); } Map(const Map& o) { for (auto* p : o.v_) v_.push_back(new value_type(*p)); } Map(Map&& o) noexcept : v_(std::move(o.v_)) { o.v_.clear(); } template <class It, class = typename std::iterator_traits<It>::iterator_category> Map(It a, It b) { insert(a, b); }
  Map& operator=(const Map& o) { if (this != &o) { clear(); for (auto* p : o.v_) v_.push_back(new value_type(*p)); } return *this; } Map& operator=(Map&& o) noexcept { if (this != &o) { clear(); v_.swap(o.v_); } return *this; }
  size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); } void clear() { for (auto* p : v_) delete p; v_.clear(); }
  iterator begin() { return iterator(v_.data()); } iterator end() { return iterator(v_.data() + v_.size()); } const_iterator begin() const { return const_iterator(v_.data()); } const_iterator end() const { return const_iterator(v_.data() + v_.size()); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  template <class Q = K> size_t idx(const Q& k) const { for (size_t i = 0; i < v_.size(); i++) if (v_[i]->first == k) return i; return v_.size(); }
  template <class Q = K> iterator find(const Q& k) { return iterator(v_.data() + idx(k)); } template <class Q = K> const_iterator find(const Q& k) const { return const_iterator(v_.data() + idx(k)); }
  template <class Q = K> bool contains(const Q& k) const { return idx(k) != v_.size(); } template <class Q = K> size_t count(const Q& k) const { return contains(k); }
  template <class Q = K> V& operator[](const Q& k) { size_t i = idx(k); if (i == v_.size()) v_.push_back(new value_type(std::piecewise_construct, std::forward_as_tuple(K(k)), std::tuple<>())); return v_[i]->second; }
  template <class Q = K> const V& at(const Q& k) const { size_t i = idx(k); if (i == v_.size()) vf_fail("map key not found"); return v_[i]->second; } template <class Q = K> V& at(const Q& k) { size_t i = idx(k); if (i == v_.size()) vf_fail("map key not found"); return v_[i]->second; }
  std::pair<iterator, bool> insert(const value_type& x) { size_t i = idx(x.first); bool f = i == v_.size(); if (f) v_.push_back(new value_type(x)); return {iterator(v_.data() + i), f}; }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> void insert(It a, It b) { for (; a != b; ++a) insert(value_type(*a)); }
  void insert(std::initializer_list<value_type> il) { for (auto& x : il) insert(x); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { auto* n = new value_type(std::forward<A>(a)...); size_t i = idx(n->first); bool f = i == v_.size(); if (f) v_.push_back(n); else delete n; return {iterator(v_.data() + i), f}; }
  template <class Q = K, class... A> std::pair<iterator, bool> try_emplace(const Q& k, A&&... a) { size_t i = idx(k); bool f = i == v_.size(); if (f) v_.push_back(new value_type(std::piecewise_construct, std::forward_as_tuple(K(k)), std::forward_as_tuple(std::forward<A>(a)...))); return {iterator(v_.data() + i), f}; }
  size_t erase(const K& k) { size_t i = idx(k); if (i == v_.size()) return 0; delete v_[i]; v_.erase(v_.begin() + i); return 1; }
  iterator erase(iterator p) { size_t i = p.p - v_.data(); delete v_[i]; v_.erase(v_.begin() + i); return iterator(v_.data() + i); }
  void swap(Map& o) { v_.swap(o.v_); }
};
}}
