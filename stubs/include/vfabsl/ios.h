// Small replacement for the standard character streams (no locales), executed symbolically.
#pragma once
#include <iosfwd>
#include <string>
#include <string_view>
#include <memory>
#include <ios>
#include "vfabsl/numfmt.h"
namespace std {
template <> class basic_ostream<char, char_traits<char>>;
template <> class basic_istream<char, char_traits<char>>;
using vf_ostream_manip = basic_ostream<char>& (*)(basic_ostream<char>&);
struct vf_setw { int n; };
struct vf_setfill { char c; };
inline vf_setw setw(int n) { return {n}; }
inline vf_setfill setfill(char c) { return {c}; }
struct vf_ignore {};
inline vf_ignore setprecision(int) { return {}; }

template <> class basic_ostream<char, char_traits<char>> {
 public:
  typedef char char_type; typedef char_traits<char> traits_type;
  basic_ostream() {}
  explicit basic_ostream(nullptr_t) {}
  virtual ~basic_ostream() {}
  basic_ostream(const basic_ostream&) = delete;
  virtual void vf_put(const char* p, size_t n) {}
  basic_ostream& write(const char* p, long n) { vf_put(p, n); return *this; }
  basic_ostream& put(char c) { vf_put(&c, 1); return *this; }
  virtual basic_ostream& flush() { return *this; }
  bool good() const { return !bad_; }
  bool fail() const { return bad_; }
  bool bad() const { return bad_; }
  bool operator!() const { return bad_; }
  explicit operator bool() const { return !bad_; }
  void clear() { bad_ = false; }
  void setstate(int) { bad_ = true; }
  int width(int w = 0) { int o = width_; width_ = w; return o; }
  basic_ostream& pad(const string& s) {
    if ((int)s.size() < width_) { string f(width_ - s.size(), fill_); vf_put(f.data(), f.size()); }
    width_ = 0; vf_put(s.data(), s.size()); return *this;
  }
  basic_ostream& num(unsigned long long m, bool neg) {
    if (base_ == 16) return pad(vfabsl::fmtX(m, upper_));
    return pad(neg ? vfabsl::fmtI((long long)m) : vfabsl::fmtU(m));
  }
  basic_ostream& operator<<(bool v) { if (boolalpha_) return pad(v ? "true" : "false"); char c = (char)('0' + (v ? 1 : 0)); vf_put(&c, 1); return *this; }
  basic_ostream& operator<<(short v) { return base_ == 16 ? num((unsigned short)v, false) : num((unsigned long long)(long long)v, true); }
  basic_ostream& operator<<(unsigned short v) { return num(v, false); }
  basic_ostream& operator<<(int v) { return base_ == 16 ? num((unsigned)v, false) : num((unsigned long long)(long long)v, true); }
  basic_ostream& operator<<(unsigned v) { return num(v, false); }
  basic_ostream& operator<<(long v) { return num((unsigned long long)v, base_ != 16); }
  basic_ostream& operator<<(unsigned long v) { return num(v, false); }
  basic_ostream& operator<<(long long v) { return num((unsigned long long)v, base_ != 16); }
  basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
  basic_ostream& operator<<(double v) { return pad(vfabsl::fmtD(v)); }
  basic_ostream& operator<<(float v) { return pad(vfabsl::fmtD(v)); }
  basic_ostream& operator<<(long double v) { return pad(vfabsl::fmtD((double)v)); }
  basic_ostream& operator<<(const void* p) { return pad(vfabsl::fmtX((unsigned long long)p, false)); }
  basic_ostream& operator<<(nullptr_t) { return pad("nullptr"); }
  basic_ostream& operator<<(vf_ostream_manip m) { return m(*this); }
  basic_ostream& operator<<(ios_base& (*m)(ios_base&)) {
    if (m == static_cast<ios_base& (*)(ios_base&)>(std::hex)) base_ = 16; else if (m == static_cast<ios_base& (*)(ios_base&)>(std::dec)) base_ = 10;
    else if (m == static_cast<ios_base& (*)(ios_base&)>(std::uppercase)) upper_ = true; else if (m == static_cast<ios_base& (*)(ios_base&)>(std::boolalpha)) boolalpha_ = true;
    return *this; }
  basic_ostream& operator<<(vf_setw w) { width_ = w.n; return *this; }
  basic_ostream& operator<<(vf_setfill f) { fill_ = f.c; return *this; }
  basic_ostream& operator<<(vf_ignore) { return *this; }
 protected:
  bool bad_ = false, upper_ = false, boolalpha_ = false; int base_ = 10, width_ = 0; char fill_ = ' ';
};
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* s) { return o.pad(s); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const signed char* s) { return o.pad((const char*)s); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const unsigned char* s) { return o.pad((const char*)s); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, char c) { return o.pad(string(1, c)); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, signed char c) { return o.pad(string(1, (char)c)); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, unsigned char c) { return o.pad(string(1, (char)c)); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const string& s) { return o.pad(s); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, string_view s) { return o.pad(string(s)); }
template <class S, class T, class = decltype(static_cast<basic_ostream<char>*>((remove_reference_t<S>*)nullptr)), class = enable_if_t<!is_lvalue_reference<S>::value>>
inline S&& operator<<(S&& s, const T& v) { static_cast<basic_ostream<char>&>(s) << v; return std::move(s); }
inline basic_ostream<char>& endl(basic_ostream<char>& o) { o.put('\n'); return o; }
inline basic_ostream<char>& flush(basic_ostream<char>& o) { o.flush(); return o; }
inline basic_ostream<char>& ends(basic_ostream<char>& o) { o.put('\0'); return o; }

template <> class basic_istream<char, char_traits<char>> {
 public:
  typedef char char_type; typedef char_traits<char> traits_type;
  virtual ~basic_istream() {}
  virtual size_t vf_get(char* p, size_t n) { return 0; }
  basic_istream& read(char* p, long n) { gcount_ = (long)vf_get(p, (size_t)n); if (gcount_ < n) { eof_ = true; fail_ = true; } return *this; }
  long gcount() const { return gcount_; }
  int get() { char c; if (vf_get(&c, 1) == 1) { gcount_ = 1; return (unsigned char)c; } eof_ = fail_ = true; gcount_ = 0; return -1; }
  basic_istream& get(char& c) { int r = get(); if (r >= 0) c = (char)r; return *this; }
  virtual int peek() { return -1; }
  bool good() const { return !eof_ && !fail_; }
  bool eof() const { return eof_; }
  bool fail() const { return fail_; }
  bool bad() const { return fail_; }
  bool operator!() const { return fail_; }
  explicit operator bool() const { return !fail_; }
  void clear() { eof_ = fail_ = false; }
  basic_istream& operator>>(string& s) {
    s.clear(); char c; for (;;) { if (vf_get(&c, 1) != 1) { eof_ = true; break; } if (c == ' ' || c == '\n' || c == '\t' || c == '\r') { if (s.empty()) continue; break; } s.push_back(c); }
    if (s.empty()) fail_ = true; return *this; }
 protected:
  bool eof_ = false, fail_ = false; long gcount_ = 0;
};
inline basic_istream<char>& getline(basic_istream<char>& i, string& s, char d = '\n') {
  s.clear(); bool any = false; for (;;) { int c = i.get(); if (c < 0) { if (any) { i.clear(); } break; } any = true; if ((char)c == d) break; s.push_back((char)c); } return i; }

template <> class basic_iostream<char, char_traits<char>> : public basic_ostream<char>, public basic_istream<char> {
 public:
  using basic_ostream<char>::good; bool fail() const { return basic_ostream<char>::fail() || basic_istream<char>::fail(); }
  bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
  using basic_ostream<char>::clear;
};

template <> class basic_ostringstream<char> : public basic_ostream<char> {
 public:
  basic_ostringstream() {}
  explicit basic_ostringstream(ios_base::openmode) {}
  explicit basic_ostringstream(const string& s) : s_(s) {}
  basic_ostringstream(basic_ostringstream&& o) : s_(std::move(o.s_)) {}
  void vf_put(const char* p, size_t n) override { s_.append(p, n); }
  string str() const { return s_; }
  void str(const string& s) { s_ = s; }
  string_view view() const { return s_; }
  long tellp() const { return (long)s_.size(); }
 private:
  string s_;
};
template <> class basic_istringstream<char> : public basic_istream<char> {
 public:
  explicit basic_istringstream(const string& s = string(), ios_base::openmode = ios_base::in) : s_(s) {}
  size_t vf_get(char* p, size_t n) override { size_t k = s_.size() - at_ < n ? s_.size() - at_ : n; for (size_t i = 0; i < k; i++) p[i] = s_[at_ + i]; at_ += k; return k; }
  int peek() override { return at_ < s_.size() ? (unsigned char)s_[at_] : -1; }
  string str() const { return s_; }
 private:
  string s_; size_t at_ = 0;
};
template <> class basic_stringstream<char> : public basic_iostream<char> {
 public:
  basic_stringstream() {}
  explicit basic_stringstream(const string& s) : s_(s) {}
  void vf_put(const char* p, size_t n) override { s_.append(p, n); }
  size_t vf_get(char* p, size_t n) override { size_t k = s_.size() - at_ < n ? s_.size() - at_ : n; for (size_t i = 0; i < k; i++) p[i] = s_[at_ + i]; at_ += k; return k; }
  int peek() override { return at_ < s_.size() ? (unsigned char)s_[at_] : -1; }
  string str() const { return s_; }
  void str(const string& s) { s_ = s; at_ = 0; }
 private:
  string s_; size_t at_ = 0;
};
extern basic_ostream<char> vf_cout, vf_cerr;
#define cout vf_cout
#define cerr vf_cerr
#define clog vf_cerr
}  // namespace std
