// Stand-in for the table builder: a finished table is the text of its fields.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include "absl/strings/string_view.h"
#include "absl/strings/str_cat.h"
namespace flatbuffers {
template <class T> struct Offset { uint32_t o = 0; Offset() {} explicit Offset(uint32_t v) : o(v) {} };
class DetachedBuffer {
 public:
  DetachedBuffer() {}
  explicit DetachedBuffer(std::string s) : s_(std::move(s)) {}
  DetachedBuffer(DetachedBuffer&& o) : s_(std::move(o.s_)) { o.s_.clear(); }
  DetachedBuffer& operator=(DetachedBuffer&& o) { s_ = std::move(o.s_); return *this; }
  const uint8_t* data() const { return (const uint8_t*)s_.data(); }
  size_t size() const { return s_.size(); }
  const std::string& vf_text() const { return s_; }
 private:
  std::string s_;
};
class FlatBufferBuilder {
 public:
  FlatBufferBuilder() {}
  void vf_field(const char* n, absl::string_view v) { s_ += " "; s_ += n; s_ += ": \""; s_.append(v.data(), v.size()); s_ += "\""; }
  template <class T> void vf_num(const char* n, T v) { s_ += " "; s_ += n; s_ += ": "; s_ += absl::StrCat((int64_t)v); }
  template <class T> void Finish(Offset<T>, const char* id = nullptr) { s_ = "{" + s_ + " }"; }
  DetachedBuffer Release() { return DetachedBuffer(std::move(s_)); }
 private:
  std::string s_;
};
}  // namespace flatbuffers
